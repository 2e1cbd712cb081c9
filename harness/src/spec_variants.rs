// generated by tools/gen_spec.py from spec/ - do not edit
use crate::tmpl::Rec;
pub static VARIANTS: &[Rec] = &[
    Rec { t: b"if v\xffa then end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) keyword=0-2 begin=6-10 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0akTHEN 6-10 then\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"if v\xffa\x0aend", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) keyword=0-2 begin=5-6 end=6-9 expression=0-9)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atNL 5-6 \x0a\x0akEND 6-9 end\x0aEOF 9-9 " },
    Rec { t: b"if v\xffa; else; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) keyword=0-2 begin=5-6 else=7-11 end=13-16 expression=0-16)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0akELSE 7-11 else\x0atSEMI 11-12 ;\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"if v\xffa then else end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) keyword=0-2 begin=6-10 else=11-15 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0akTHEN 6-10 then\x0akELSE 11-15 else\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"if v\xffa; else; y\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_false=(send method_name=\x22y\xff\x01\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_false=(send method_name=\x22y\xff\x01\x22 args=[] selector=13-15 expression=13-15) keyword=0-2 begin=5-6 else=7-11 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0akELSE 7-11 else\x0atSEMI 11-12 ;\x0atIDENTIFIER 13-15 y\xff\x01\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"if v\xffa then else y\xffa end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_false=(send method_name=\x22y\xff\x01\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_false=(send method_name=\x22y\xff\x01\x22 args=[] selector=16-18 expression=16-18) keyword=0-2 begin=6-10 else=11-15 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0akTHEN 6-10 then\x0akELSE 11-15 else\x0atIDENTIFIER 16-18 y\xff\x01\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"if v\xffa; x\xffa; else; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9) keyword=0-2 begin=5-6 else=11-15 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 x\xff\x01\x0atSEMI 9-10 ;\x0akELSE 11-15 else\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"if v\xffa then x\xffa else end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13) keyword=0-2 begin=6-10 else=14-18 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0akTHEN 6-10 then\x0atIDENTIFIER 11-13 x\xff\x01\x0akELSE 14-18 else\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"if v\xffa; x\xffa; else; y\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]) if_false=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9) if_false=(send method_name=\x22y\xff\x02\x22 args=[] selector=17-19 expression=17-19) keyword=0-2 begin=5-6 else=11-15 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 x\xff\x01\x0atSEMI 9-10 ;\x0akELSE 11-15 else\x0atSEMI 15-16 ;\x0atIDENTIFIER 17-19 y\xff\x02\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"if v\xffa then x\xffa else y\xffa end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]) if_false=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13) if_false=(send method_name=\x22y\xff\x02\x22 args=[] selector=19-21 expression=19-21) keyword=0-2 begin=6-10 else=14-18 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0akTHEN 6-10 then\x0atIDENTIFIER 11-13 x\xff\x01\x0akELSE 14-18 else\x0atIDENTIFIER 19-21 y\xff\x02\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"unless v\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) keyword=0-6 begin=9-10 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akUNLESS 0-6 unless\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"unless v\xffa then end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) keyword=0-6 begin=10-14 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akUNLESS 0-6 unless\x0atIDENTIFIER 7-9 v\xff\x00\x0akTHEN 10-14 then\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"unless v\xffa\x0aend", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) keyword=0-6 begin=9-10 end=10-13 expression=0-13)", diag: b"", toks: b"\x0akUNLESS 0-6 unless\x0atIDENTIFIER 7-9 v\xff\x00\x0atNL 9-10 \x0a\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"unless v\xffa; else; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) keyword=0-6 begin=9-10 else=11-15 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akUNLESS 0-6 unless\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akELSE 11-15 else\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"unless v\xffa then else end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) keyword=0-6 begin=10-14 else=15-19 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akUNLESS 0-6 unless\x0atIDENTIFIER 7-9 v\xff\x00\x0akTHEN 10-14 then\x0akELSE 15-19 else\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"unless v\xffa; else; y\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22y\xff\x01\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) if_true=(send method_name=\x22y\xff\x01\x22 args=[] selector=17-19 expression=17-19) keyword=0-6 begin=9-10 else=11-15 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akUNLESS 0-6 unless\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akELSE 11-15 else\x0atSEMI 15-16 ;\x0atIDENTIFIER 17-19 y\xff\x01\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"unless v\xffa then else y\xffa end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22y\xff\x01\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) if_true=(send method_name=\x22y\xff\x01\x22 args=[] selector=20-22 expression=20-22) keyword=0-6 begin=10-14 else=15-19 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akUNLESS 0-6 unless\x0atIDENTIFIER 7-9 v\xff\x00\x0akTHEN 10-14 then\x0akELSE 15-19 else\x0atIDENTIFIER 20-22 y\xff\x01\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"unless v\xffa\x0ax\xffa\x0aend", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_false=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) if_false=(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12) keyword=0-6 begin=9-10 end=13-16 expression=0-16)", diag: b"", toks: b"\x0akUNLESS 0-6 unless\x0atIDENTIFIER 7-9 v\xff\x00\x0atNL 9-10 \x0a\x0atIDENTIFIER 10-12 x\xff\x01\x0atNL 12-13 \x0a\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"unless v\xffa; x\xffa; else; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_false=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) if_false=(send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13) keyword=0-6 begin=9-10 else=15-19 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akUNLESS 0-6 unless\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 x\xff\x01\x0atSEMI 13-14 ;\x0akELSE 15-19 else\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"unless v\xffa then x\xffa else end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_false=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) if_false=(send method_name=\x22x\xff\x01\x22 args=[] selector=15-17 expression=15-17) keyword=0-6 begin=10-14 else=18-22 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akUNLESS 0-6 unless\x0atIDENTIFIER 7-9 v\xff\x00\x0akTHEN 10-14 then\x0atIDENTIFIER 15-17 x\xff\x01\x0akELSE 18-22 else\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"unless v\xffa then x\xffa else y\xffa end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22y\xff\x02\x22 args=[]) if_false=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) if_true=(send method_name=\x22y\xff\x02\x22 args=[] selector=23-25 expression=23-25) if_false=(send method_name=\x22x\xff\x01\x22 args=[] selector=15-17 expression=15-17) keyword=0-6 begin=10-14 else=18-22 end=26-29 expression=0-29)", diag: b"", toks: b"\x0akUNLESS 0-6 unless\x0atIDENTIFIER 7-9 v\xff\x00\x0akTHEN 10-14 then\x0atIDENTIFIER 15-17 x\xff\x01\x0akELSE 18-22 else\x0atIDENTIFIER 23-25 y\xff\x02\x0akEND 26-29 end\x0aEOF 29-29 " },
    Rec { t: b"if v\xffa; elsif z\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_false=(if cond=(send method_name=\x22z\xff\x01\x22 args=[])))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_false=(if cond=(send method_name=\x22z\xff\x01\x22 args=[] selector=13-15 expression=13-15) keyword=7-12 begin=15-16 expression=7-16) keyword=0-2 begin=5-6 else=7-12 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0akELSIF 7-12 elsif\x0atIDENTIFIER 13-15 z\xff\x01\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"if v\xffa; elsif z\xffa; else; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_false=(if cond=(send method_name=\x22z\xff\x01\x22 args=[])))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_false=(if cond=(send method_name=\x22z\xff\x01\x22 args=[] selector=13-15 expression=13-15) keyword=7-12 begin=15-16 else=17-21 expression=7-21) keyword=0-2 begin=5-6 else=7-12 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0akELSIF 7-12 elsif\x0atIDENTIFIER 13-15 z\xff\x01\x0atSEMI 15-16 ;\x0akELSE 17-21 else\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"if v\xffa; elsif z\xffa; else; w\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_false=(if cond=(send method_name=\x22z\xff\x01\x22 args=[]) if_false=(send method_name=\x22w\xff\x02\x22 args=[])))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_false=(if cond=(send method_name=\x22z\xff\x01\x22 args=[] selector=13-15 expression=13-15) if_false=(send method_name=\x22w\xff\x02\x22 args=[] selector=23-25 expression=23-25) keyword=7-12 begin=15-16 else=17-21 expression=7-25) keyword=0-2 begin=5-6 else=7-12 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0akELSIF 7-12 elsif\x0atIDENTIFIER 13-15 z\xff\x01\x0atSEMI 15-16 ;\x0akELSE 17-21 else\x0atSEMI 21-22 ;\x0atIDENTIFIER 23-25 w\xff\x02\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"if v\xffa; elsif z\xffa; elsif j\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_false=(if cond=(send method_name=\x22z\xff\x01\x22 args=[]) if_false=(if cond=(send method_name=\x22j\xff\x02\x22 args=[]))))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_false=(if cond=(send method_name=\x22z\xff\x01\x22 args=[] selector=13-15 expression=13-15) if_false=(if cond=(send method_name=\x22j\xff\x02\x22 args=[] selector=23-25 expression=23-25) keyword=17-22 begin=25-26 expression=17-26) keyword=7-12 begin=15-16 else=17-22 expression=7-26) keyword=0-2 begin=5-6 else=7-12 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0akELSIF 7-12 elsif\x0atIDENTIFIER 13-15 z\xff\x01\x0atSEMI 15-16 ;\x0akELSIF 17-22 elsif\x0atIDENTIFIER 23-25 j\xff\x02\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"if v\xffa; elsif z\xffa; elsif j\xffa; k\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_false=(if cond=(send method_name=\x22z\xff\x01\x22 args=[]) if_false=(if cond=(send method_name=\x22j\xff\x02\x22 args=[]) if_true=(send method_name=\x22k\xff\x03\x22 args=[]))))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_false=(if cond=(send method_name=\x22z\xff\x01\x22 args=[] selector=13-15 expression=13-15) if_false=(if cond=(send method_name=\x22j\xff\x02\x22 args=[] selector=23-25 expression=23-25) if_true=(send method_name=\x22k\xff\x03\x22 args=[] selector=27-29 expression=27-29) keyword=17-22 begin=25-26 expression=17-29) keyword=7-12 begin=15-16 else=17-22 expression=7-29) keyword=0-2 begin=5-6 else=7-12 end=31-34 expression=0-34)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0akELSIF 7-12 elsif\x0atIDENTIFIER 13-15 z\xff\x01\x0atSEMI 15-16 ;\x0akELSIF 17-22 elsif\x0atIDENTIFIER 23-25 j\xff\x02\x0atSEMI 25-26 ;\x0atIDENTIFIER 27-29 k\xff\x03\x0atSEMI 29-30 ;\x0akEND 31-34 end\x0aEOF 34-34 " },
    Rec { t: b"if v\xffa; elsif z\xffa; y\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_false=(if cond=(send method_name=\x22z\xff\x01\x22 args=[]) if_true=(send method_name=\x22y\xff\x02\x22 args=[])))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_false=(if cond=(send method_name=\x22z\xff\x01\x22 args=[] selector=13-15 expression=13-15) if_true=(send method_name=\x22y\xff\x02\x22 args=[] selector=17-19 expression=17-19) keyword=7-12 begin=15-16 expression=7-19) keyword=0-2 begin=5-6 else=7-12 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0akELSIF 7-12 elsif\x0atIDENTIFIER 13-15 z\xff\x01\x0atSEMI 15-16 ;\x0atIDENTIFIER 17-19 y\xff\x02\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"if v\xffa; elsif z\xffa; y\xffa; else; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_false=(if cond=(send method_name=\x22z\xff\x01\x22 args=[]) if_true=(send method_name=\x22y\xff\x02\x22 args=[])))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_false=(if cond=(send method_name=\x22z\xff\x01\x22 args=[] selector=13-15 expression=13-15) if_true=(send method_name=\x22y\xff\x02\x22 args=[] selector=17-19 expression=17-19) keyword=7-12 begin=15-16 else=21-25 expression=7-25) keyword=0-2 begin=5-6 else=7-12 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0akELSIF 7-12 elsif\x0atIDENTIFIER 13-15 z\xff\x01\x0atSEMI 15-16 ;\x0atIDENTIFIER 17-19 y\xff\x02\x0atSEMI 19-20 ;\x0akELSE 21-25 else\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"if v\xffa; elsif z\xffa; y\xffa; else; w\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_false=(if cond=(send method_name=\x22z\xff\x01\x22 args=[]) if_true=(send method_name=\x22y\xff\x02\x22 args=[]) if_false=(send method_name=\x22w\xff\x03\x22 args=[])))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_false=(if cond=(send method_name=\x22z\xff\x01\x22 args=[] selector=13-15 expression=13-15) if_true=(send method_name=\x22y\xff\x02\x22 args=[] selector=17-19 expression=17-19) if_false=(send method_name=\x22w\xff\x03\x22 args=[] selector=27-29 expression=27-29) keyword=7-12 begin=15-16 else=21-25 expression=7-29) keyword=0-2 begin=5-6 else=7-12 end=31-34 expression=0-34)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0akELSIF 7-12 elsif\x0atIDENTIFIER 13-15 z\xff\x01\x0atSEMI 15-16 ;\x0atIDENTIFIER 17-19 y\xff\x02\x0atSEMI 19-20 ;\x0akELSE 21-25 else\x0atSEMI 25-26 ;\x0atIDENTIFIER 27-29 w\xff\x03\x0atSEMI 29-30 ;\x0akEND 31-34 end\x0aEOF 34-34 " },
    Rec { t: b"if v\xffa; elsif z\xffa; y\xffa; elsif j\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_false=(if cond=(send method_name=\x22z\xff\x01\x22 args=[]) if_true=(send method_name=\x22y\xff\x02\x22 args=[]) if_false=(if cond=(send method_name=\x22j\xff\x03\x22 args=[]))))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_false=(if cond=(send method_name=\x22z\xff\x01\x22 args=[] selector=13-15 expression=13-15) if_true=(send method_name=\x22y\xff\x02\x22 args=[] selector=17-19 expression=17-19) if_false=(if cond=(send method_name=\x22j\xff\x03\x22 args=[] selector=27-29 expression=27-29) keyword=21-26 begin=29-30 expression=21-30) keyword=7-12 begin=15-16 else=21-26 expression=7-30) keyword=0-2 begin=5-6 else=7-12 end=31-34 expression=0-34)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0akELSIF 7-12 elsif\x0atIDENTIFIER 13-15 z\xff\x01\x0atSEMI 15-16 ;\x0atIDENTIFIER 17-19 y\xff\x02\x0atSEMI 19-20 ;\x0akELSIF 21-26 elsif\x0atIDENTIFIER 27-29 j\xff\x03\x0atSEMI 29-30 ;\x0akEND 31-34 end\x0aEOF 34-34 " },
    Rec { t: b"if v\xffa; elsif z\xffa; y\xffa; elsif j\xffa; k\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_false=(if cond=(send method_name=\x22z\xff\x01\x22 args=[]) if_true=(send method_name=\x22y\xff\x02\x22 args=[]) if_false=(if cond=(send method_name=\x22j\xff\x03\x22 args=[]) if_true=(send method_name=\x22k\xff\x04\x22 args=[]))))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_false=(if cond=(send method_name=\x22z\xff\x01\x22 args=[] selector=13-15 expression=13-15) if_true=(send method_name=\x22y\xff\x02\x22 args=[] selector=17-19 expression=17-19) if_false=(if cond=(send method_name=\x22j\xff\x03\x22 args=[] selector=27-29 expression=27-29) if_true=(send method_name=\x22k\xff\x04\x22 args=[] selector=31-33 expression=31-33) keyword=21-26 begin=29-30 expression=21-33) keyword=7-12 begin=15-16 else=21-26 expression=7-33) keyword=0-2 begin=5-6 else=7-12 end=35-38 expression=0-38)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0akELSIF 7-12 elsif\x0atIDENTIFIER 13-15 z\xff\x01\x0atSEMI 15-16 ;\x0atIDENTIFIER 17-19 y\xff\x02\x0atSEMI 19-20 ;\x0akELSIF 21-26 elsif\x0atIDENTIFIER 27-29 j\xff\x03\x0atSEMI 29-30 ;\x0atIDENTIFIER 31-33 k\xff\x04\x0atSEMI 33-34 ;\x0akEND 35-38 end\x0aEOF 38-38 " },
    Rec { t: b"if v\xffa; x\xffa; elsif z\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[])))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[] selector=17-19 expression=17-19) keyword=11-16 begin=19-20 expression=11-20) keyword=0-2 begin=5-6 else=11-16 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 x\xff\x01\x0atSEMI 9-10 ;\x0akELSIF 11-16 elsif\x0atIDENTIFIER 17-19 z\xff\x02\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"if v\xffa; x\xffa; elsif z\xffa; else; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[])))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[] selector=17-19 expression=17-19) keyword=11-16 begin=19-20 else=21-25 expression=11-25) keyword=0-2 begin=5-6 else=11-16 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 x\xff\x01\x0atSEMI 9-10 ;\x0akELSIF 11-16 elsif\x0atIDENTIFIER 17-19 z\xff\x02\x0atSEMI 19-20 ;\x0akELSE 21-25 else\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"if v\xffa; x\xffa; elsif z\xffa; else; w\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[]) if_false=(send method_name=\x22w\xff\x03\x22 args=[])))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[] selector=17-19 expression=17-19) if_false=(send method_name=\x22w\xff\x03\x22 args=[] selector=27-29 expression=27-29) keyword=11-16 begin=19-20 else=21-25 expression=11-29) keyword=0-2 begin=5-6 else=11-16 end=31-34 expression=0-34)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 x\xff\x01\x0atSEMI 9-10 ;\x0akELSIF 11-16 elsif\x0atIDENTIFIER 17-19 z\xff\x02\x0atSEMI 19-20 ;\x0akELSE 21-25 else\x0atSEMI 25-26 ;\x0atIDENTIFIER 27-29 w\xff\x03\x0atSEMI 29-30 ;\x0akEND 31-34 end\x0aEOF 34-34 " },
    Rec { t: b"if v\xffa; x\xffa; elsif z\xffa; elsif j\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[]) if_false=(if cond=(send method_name=\x22j\xff\x03\x22 args=[]))))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[] selector=17-19 expression=17-19) if_false=(if cond=(send method_name=\x22j\xff\x03\x22 args=[] selector=27-29 expression=27-29) keyword=21-26 begin=29-30 expression=21-30) keyword=11-16 begin=19-20 else=21-26 expression=11-30) keyword=0-2 begin=5-6 else=11-16 end=31-34 expression=0-34)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 x\xff\x01\x0atSEMI 9-10 ;\x0akELSIF 11-16 elsif\x0atIDENTIFIER 17-19 z\xff\x02\x0atSEMI 19-20 ;\x0akELSIF 21-26 elsif\x0atIDENTIFIER 27-29 j\xff\x03\x0atSEMI 29-30 ;\x0akEND 31-34 end\x0aEOF 34-34 " },
    Rec { t: b"if v\xffa; x\xffa; elsif z\xffa; elsif j\xffa; k\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[]) if_false=(if cond=(send method_name=\x22j\xff\x03\x22 args=[]) if_true=(send method_name=\x22k\xff\x04\x22 args=[]))))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[] selector=17-19 expression=17-19) if_false=(if cond=(send method_name=\x22j\xff\x03\x22 args=[] selector=27-29 expression=27-29) if_true=(send method_name=\x22k\xff\x04\x22 args=[] selector=31-33 expression=31-33) keyword=21-26 begin=29-30 expression=21-33) keyword=11-16 begin=19-20 else=21-26 expression=11-33) keyword=0-2 begin=5-6 else=11-16 end=35-38 expression=0-38)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 x\xff\x01\x0atSEMI 9-10 ;\x0akELSIF 11-16 elsif\x0atIDENTIFIER 17-19 z\xff\x02\x0atSEMI 19-20 ;\x0akELSIF 21-26 elsif\x0atIDENTIFIER 27-29 j\xff\x03\x0atSEMI 29-30 ;\x0atIDENTIFIER 31-33 k\xff\x04\x0atSEMI 33-34 ;\x0akEND 35-38 end\x0aEOF 38-38 " },
    Rec { t: b"if v\xffa; x\xffa; elsif z\xffa; y\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[]) if_true=(send method_name=\x22y\xff\x03\x22 args=[])))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[] selector=17-19 expression=17-19) if_true=(send method_name=\x22y\xff\x03\x22 args=[] selector=21-23 expression=21-23) keyword=11-16 begin=19-20 expression=11-23) keyword=0-2 begin=5-6 else=11-16 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 x\xff\x01\x0atSEMI 9-10 ;\x0akELSIF 11-16 elsif\x0atIDENTIFIER 17-19 z\xff\x02\x0atSEMI 19-20 ;\x0atIDENTIFIER 21-23 y\xff\x03\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"if v\xffa; x\xffa; elsif z\xffa; y\xffa; else; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[]) if_true=(send method_name=\x22y\xff\x03\x22 args=[])))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[] selector=17-19 expression=17-19) if_true=(send method_name=\x22y\xff\x03\x22 args=[] selector=21-23 expression=21-23) keyword=11-16 begin=19-20 else=25-29 expression=11-29) keyword=0-2 begin=5-6 else=11-16 end=31-34 expression=0-34)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 x\xff\x01\x0atSEMI 9-10 ;\x0akELSIF 11-16 elsif\x0atIDENTIFIER 17-19 z\xff\x02\x0atSEMI 19-20 ;\x0atIDENTIFIER 21-23 y\xff\x03\x0atSEMI 23-24 ;\x0akELSE 25-29 else\x0atSEMI 29-30 ;\x0akEND 31-34 end\x0aEOF 34-34 " },
    Rec { t: b"if v\xffa; x\xffa; elsif z\xffa; y\xffa; else; w\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[]) if_true=(send method_name=\x22y\xff\x03\x22 args=[]) if_false=(send method_name=\x22w\xff\x04\x22 args=[])))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[] selector=17-19 expression=17-19) if_true=(send method_name=\x22y\xff\x03\x22 args=[] selector=21-23 expression=21-23) if_false=(send method_name=\x22w\xff\x04\x22 args=[] selector=31-33 expression=31-33) keyword=11-16 begin=19-20 else=25-29 expression=11-33) keyword=0-2 begin=5-6 else=11-16 end=35-38 expression=0-38)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 x\xff\x01\x0atSEMI 9-10 ;\x0akELSIF 11-16 elsif\x0atIDENTIFIER 17-19 z\xff\x02\x0atSEMI 19-20 ;\x0atIDENTIFIER 21-23 y\xff\x03\x0atSEMI 23-24 ;\x0akELSE 25-29 else\x0atSEMI 29-30 ;\x0atIDENTIFIER 31-33 w\xff\x04\x0atSEMI 33-34 ;\x0akEND 35-38 end\x0aEOF 38-38 " },
    Rec { t: b"if v\xffa; x\xffa; elsif z\xffa; y\xffa; elsif j\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[]) if_true=(send method_name=\x22y\xff\x03\x22 args=[]) if_false=(if cond=(send method_name=\x22j\xff\x04\x22 args=[]))))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[] selector=17-19 expression=17-19) if_true=(send method_name=\x22y\xff\x03\x22 args=[] selector=21-23 expression=21-23) if_false=(if cond=(send method_name=\x22j\xff\x04\x22 args=[] selector=31-33 expression=31-33) keyword=25-30 begin=33-34 expression=25-34) keyword=11-16 begin=19-20 else=25-30 expression=11-34) keyword=0-2 begin=5-6 else=11-16 end=35-38 expression=0-38)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 x\xff\x01\x0atSEMI 9-10 ;\x0akELSIF 11-16 elsif\x0atIDENTIFIER 17-19 z\xff\x02\x0atSEMI 19-20 ;\x0atIDENTIFIER 21-23 y\xff\x03\x0atSEMI 23-24 ;\x0akELSIF 25-30 elsif\x0atIDENTIFIER 31-33 j\xff\x04\x0atSEMI 33-34 ;\x0akEND 35-38 end\x0aEOF 38-38 " },
    Rec { t: b"if v\xffa; x\xffa; elsif z\xffa; y\xffa; elsif j\xffa; k\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[]) if_true=(send method_name=\x22y\xff\x03\x22 args=[]) if_false=(if cond=(send method_name=\x22j\xff\x04\x22 args=[]) if_true=(send method_name=\x22k\xff\x05\x22 args=[]))))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[] selector=17-19 expression=17-19) if_true=(send method_name=\x22y\xff\x03\x22 args=[] selector=21-23 expression=21-23) if_false=(if cond=(send method_name=\x22j\xff\x04\x22 args=[] selector=31-33 expression=31-33) if_true=(send method_name=\x22k\xff\x05\x22 args=[] selector=35-37 expression=35-37) keyword=25-30 begin=33-34 expression=25-37) keyword=11-16 begin=19-20 else=25-30 expression=11-37) keyword=0-2 begin=5-6 else=11-16 end=39-42 expression=0-42)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 x\xff\x01\x0atSEMI 9-10 ;\x0akELSIF 11-16 elsif\x0atIDENTIFIER 17-19 z\xff\x02\x0atSEMI 19-20 ;\x0atIDENTIFIER 21-23 y\xff\x03\x0atSEMI 23-24 ;\x0akELSIF 25-30 elsif\x0atIDENTIFIER 31-33 j\xff\x04\x0atSEMI 33-34 ;\x0atIDENTIFIER 35-37 k\xff\x05\x0atSEMI 37-38 ;\x0akEND 39-42 end\x0aEOF 42-42 " },
    Rec { t: b"if v\xffa; x\xffa; elsif z\xffa; y\xffa; elsif j\xffa; else; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[]) if_true=(send method_name=\x22y\xff\x03\x22 args=[]) if_false=(if cond=(send method_name=\x22j\xff\x04\x22 args=[]))))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[] selector=17-19 expression=17-19) if_true=(send method_name=\x22y\xff\x03\x22 args=[] selector=21-23 expression=21-23) if_false=(if cond=(send method_name=\x22j\xff\x04\x22 args=[] selector=31-33 expression=31-33) keyword=25-30 begin=33-34 else=35-39 expression=25-39) keyword=11-16 begin=19-20 else=25-30 expression=11-39) keyword=0-2 begin=5-6 else=11-16 end=41-44 expression=0-44)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 x\xff\x01\x0atSEMI 9-10 ;\x0akELSIF 11-16 elsif\x0atIDENTIFIER 17-19 z\xff\x02\x0atSEMI 19-20 ;\x0atIDENTIFIER 21-23 y\xff\x03\x0atSEMI 23-24 ;\x0akELSIF 25-30 elsif\x0atIDENTIFIER 31-33 j\xff\x04\x0atSEMI 33-34 ;\x0akELSE 35-39 else\x0atSEMI 39-40 ;\x0akEND 41-44 end\x0aEOF 44-44 " },
    Rec { t: b"if v\xffa then x\xffa elsif z\xffa then else k\xffa end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[]) if_false=(send method_name=\x22k\xff\x03\x22 args=[])))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[] selector=20-22 expression=20-22) if_false=(send method_name=\x22k\xff\x03\x22 args=[] selector=33-35 expression=33-35) keyword=14-19 begin=23-27 else=28-32 expression=14-35) keyword=0-2 begin=6-10 else=14-19 end=36-39 expression=0-39)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0akTHEN 6-10 then\x0atIDENTIFIER 11-13 x\xff\x01\x0akELSIF 14-19 elsif\x0atIDENTIFIER 20-22 z\xff\x02\x0akTHEN 23-27 then\x0akELSE 28-32 else\x0atIDENTIFIER 33-35 k\xff\x03\x0akEND 36-39 end\x0aEOF 39-39 " },
    Rec { t: b"if v\xffa then elsif z\xffa then end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_false=(if cond=(send method_name=\x22z\xff\x01\x22 args=[])))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_false=(if cond=(send method_name=\x22z\xff\x01\x22 args=[] selector=17-19 expression=17-19) keyword=11-16 begin=20-24 expression=11-24) keyword=0-2 begin=6-10 else=11-16 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0akTHEN 6-10 then\x0akELSIF 11-16 elsif\x0atIDENTIFIER 17-19 z\xff\x01\x0akTHEN 20-24 then\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"if v\xffa\x0ax\xffa\x0aelsif z\xffa\x0aelse\x0aend", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[])))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[] selector=15-17 expression=15-17) keyword=9-14 begin=17-18 else=18-22 expression=9-22) keyword=0-2 begin=5-6 else=9-14 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atNL 5-6 \x0a\x0atIDENTIFIER 6-8 x\xff\x01\x0atNL 8-9 \x0a\x0akELSIF 9-14 elsif\x0atIDENTIFIER 15-17 z\xff\x02\x0atNL 17-18 \x0a\x0akELSE 18-22 else\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"if v\xffa then\x0ax\xffa\x0aend", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13) keyword=0-2 begin=6-10 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0akTHEN 6-10 then\x0atIDENTIFIER 11-13 x\xff\x01\x0atNL 13-14 \x0a\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"if v\xffa;then x\xffa end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13) keyword=0-2 begin=6-10 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0akTHEN 6-10 then\x0atIDENTIFIER 11-13 x\xff\x01\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"unless v\xffa\x0athen x\xffa\x0aelse\x0aend", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_false=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) if_false=(send method_name=\x22x\xff\x01\x22 args=[] selector=15-17 expression=15-17) keyword=0-6 begin=10-14 else=18-22 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akUNLESS 0-6 unless\x0atIDENTIFIER 7-9 v\xff\x00\x0atNL 9-10 \x0a\x0akTHEN 10-14 then\x0atIDENTIFIER 15-17 x\xff\x01\x0atNL 17-18 \x0a\x0akELSE 18-22 else\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"if v\xffa; x\xffa; y\xffa; else; z\xffa; k\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[]) (send method_name=\x22y\xff\x02\x22 args=[])]) if_false=(begin statements=[(send method_name=\x22z\xff\x03\x22 args=[]) (send method_name=\x22k\xff\x04\x22 args=[])]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9) (send method_name=\x22y\xff\x02\x22 args=[] selector=11-13 expression=11-13)] expression=7-13) if_false=(begin statements=[(send method_name=\x22z\xff\x03\x22 args=[] selector=21-23 expression=21-23) (send method_name=\x22k\xff\x04\x22 args=[] selector=25-27 expression=25-27)] expression=21-27) keyword=0-2 begin=5-6 else=15-19 end=29-32 expression=0-32)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 x\xff\x01\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 y\xff\x02\x0atSEMI 13-14 ;\x0akELSE 15-19 else\x0atSEMI 19-20 ;\x0atIDENTIFIER 21-23 z\xff\x03\x0atSEMI 23-24 ;\x0atIDENTIFIER 25-27 k\xff\x04\x0atSEMI 27-28 ;\x0akEND 29-32 end\x0aEOF 32-32 " },
    Rec { t: b"unless v\xffa; x\xffa; y\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_false=(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[]) (send method_name=\x22y\xff\x02\x22 args=[])]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) if_false=(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13) (send method_name=\x22y\xff\x02\x22 args=[] selector=15-17 expression=15-17)] expression=11-17) keyword=0-6 begin=9-10 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akUNLESS 0-6 unless\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 x\xff\x01\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 y\xff\x02\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"while v\xffa\x0aend", shape: b"(while cond=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(while cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) keyword=0-5 begin=8-9 end=9-12 expression=0-12)", diag: b"", toks: b"\x0akWHILE 0-5 while\x0atIDENTIFIER 6-8 v\xff\x00\x0atNL 8-9 \x0a\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"while v\xffa do\x0ax\xffa\x0ay\xffa\x0aend", shape: b"(while cond=(send method_name=\x22v\xff\x00\x22 args=[]) body=(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[]) (send method_name=\x22y\xff\x02\x22 args=[])]))", full: b"(while cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) body=(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[] selector=12-14 expression=12-14) (send method_name=\x22y\xff\x02\x22 args=[] selector=15-17 expression=15-17)] expression=12-17) keyword=0-5 begin=9-11 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akWHILE 0-5 while\x0atIDENTIFIER 6-8 v\xff\x00\x0akDO_COND 9-11 do\x0atIDENTIFIER 12-14 x\xff\x01\x0atNL 14-15 \x0a\x0atIDENTIFIER 15-17 y\xff\x02\x0atNL 17-18 \x0a\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"while v\xffa; x\xffa; y\xffa; end", shape: b"(while cond=(send method_name=\x22v\xff\x00\x22 args=[]) body=(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[]) (send method_name=\x22y\xff\x02\x22 args=[])]))", full: b"(while cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) body=(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12) (send method_name=\x22y\xff\x02\x22 args=[] selector=14-16 expression=14-16)] expression=10-16) keyword=0-5 begin=8-9 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akWHILE 0-5 while\x0atIDENTIFIER 6-8 v\xff\x00\x0atSEMI 8-9 ;\x0atIDENTIFIER 10-12 x\xff\x01\x0atSEMI 12-13 ;\x0atIDENTIFIER 14-16 y\xff\x02\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"begin; end while v\xffa", shape: b"(while_post cond=(send method_name=\x22v\xff\x00\x22 args=[]) body=(kw_begin statements=[]))", full: b"(while_post cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=17-19 expression=17-19) body=(kw_begin statements=[] begin=0-5 end=7-10 expression=0-10) keyword=11-16 expression=0-19)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akEND 7-10 end\x0akWHILE_MOD 11-16 while\x0atIDENTIFIER 17-19 v\xff\x00\x0aEOF 19-19 " },
    Rec { t: b"begin; x\xffa; end while v\xffa", shape: b"(while_post cond=(send method_name=\x22v\xff\x01\x22 args=[]) body=(kw_begin statements=[(send method_name=\x22x\xff\x00\x22 args=[])]))", full: b"(while_post cond=(send method_name=\x22v\xff\x01\x22 args=[] selector=21-23 expression=21-23) body=(kw_begin statements=[(send method_name=\x22x\xff\x00\x22 args=[] selector=7-9 expression=7-9)] begin=0-5 end=11-14 expression=0-14) keyword=15-20 expression=0-23)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 x\xff\x00\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0akWHILE_MOD 15-20 while\x0atIDENTIFIER 21-23 v\xff\x01\x0aEOF 23-23 " },
    Rec { t: b"begin; x\xffa; y\xffa; end while v\xffa", shape: b"(while_post cond=(send method_name=\x22v\xff\x02\x22 args=[]) body=(kw_begin statements=[(send method_name=\x22x\xff\x00\x22 args=[]) (send method_name=\x22y\xff\x01\x22 args=[])]))", full: b"(while_post cond=(send method_name=\x22v\xff\x02\x22 args=[] selector=25-27 expression=25-27) body=(kw_begin statements=[(send method_name=\x22x\xff\x00\x22 args=[] selector=7-9 expression=7-9) (send method_name=\x22y\xff\x01\x22 args=[] selector=11-13 expression=11-13)] begin=0-5 end=15-18 expression=0-18) keyword=19-24 expression=0-27)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 x\xff\x00\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 y\xff\x01\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0akWHILE_MOD 19-24 while\x0atIDENTIFIER 25-27 v\xff\x02\x0aEOF 27-27 " },
    Rec { t: b"begin; x\xffa; rescue; end while v\xffa", shape: b"(while_post cond=(send method_name=\x22v\xff\x01\x22 args=[]) body=(kw_begin statements=[(rescue body=(send method_name=\x22x\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body)])]))", full: b"(while_post cond=(send method_name=\x22v\xff\x01\x22 args=[] selector=29-31 expression=29-31) body=(kw_begin statements=[(rescue body=(send method_name=\x22x\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body keyword=11-17 begin=17-18 expression=11-18)] expression=7-18)] begin=0-5 end=19-22 expression=0-22) keyword=23-28 expression=0-31)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 x\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0akWHILE_MOD 23-28 while\x0atIDENTIFIER 29-31 v\xff\x01\x0aEOF 31-31 " },
    Rec { t: b"begin; ensure; end while v\xffa", shape: b"(while_post cond=(send method_name=\x22v\xff\x00\x22 args=[]) body=(kw_begin statements=[(ensure)]))", full: b"(while_post cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=25-27 expression=25-27) body=(kw_begin statements=[(ensure keyword=7-13 expression=7-13)] begin=0-5 end=15-18 expression=0-18) keyword=19-24 expression=0-27)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akENSURE 7-13 ensure\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0akWHILE_MOD 19-24 while\x0atIDENTIFIER 25-27 v\xff\x00\x0aEOF 27-27 " },
    Rec { t: b"begin end while v\xffa", shape: b"(while_post cond=(send method_name=\x22v\xff\x00\x22 args=[]) body=(kw_begin statements=[]))", full: b"(while_post cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=16-18 expression=16-18) body=(kw_begin statements=[] begin=0-5 end=6-9 expression=0-9) keyword=10-15 expression=0-18)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0akEND 6-9 end\x0akWHILE_MOD 10-15 while\x0atIDENTIFIER 16-18 v\xff\x00\x0aEOF 18-18 " },
    Rec { t: b"begin () end while v\xffa", shape: b"(while_post cond=(send method_name=\x22v\xff\x00\x22 args=[]) body=(kw_begin statements=[(begin statements=[])]))", full: b"(while_post cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=19-21 expression=19-21) body=(kw_begin statements=[(begin statements=[] begin=6-7 end=7-8 expression=6-8)] begin=0-5 end=9-12 expression=0-12) keyword=13-18 expression=0-21)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atLPAREN 6-7 (\x0atRPAREN 7-8 )\x0akEND 9-12 end\x0akWHILE_MOD 13-18 while\x0atIDENTIFIER 19-21 v\xff\x00\x0aEOF 21-21 " },
    Rec { t: b"(x\xffa) while v\xffa", shape: b"(while cond=(send method_name=\x22v\xff\x01\x22 args=[]) body=(begin statements=[(send method_name=\x22x\xff\x00\x22 args=[])]))", full: b"(while cond=(send method_name=\x22v\xff\x01\x22 args=[] selector=11-13 expression=11-13) body=(begin statements=[(send method_name=\x22x\xff\x00\x22 args=[] selector=1-3 expression=1-3)] begin=0-1 end=3-4 expression=0-4) keyword=5-10 expression=0-13)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atIDENTIFIER 1-3 x\xff\x00\x0atRPAREN 3-4 )\x0akWHILE_MOD 5-10 while\x0atIDENTIFIER 11-13 v\xff\x01\x0aEOF 13-13 " },
    Rec { t: b"() while v\xffa", shape: b"(while cond=(send method_name=\x22v\xff\x00\x22 args=[]) body=(begin statements=[]))", full: b"(while cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=9-11 expression=9-11) body=(begin statements=[] begin=0-1 end=1-2 expression=0-2) keyword=3-8 expression=0-11)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atRPAREN 1-2 )\x0akWHILE_MOD 3-8 while\x0atIDENTIFIER 9-11 v\xff\x00\x0aEOF 11-11 " },
    Rec { t: b"x\xffa while v\xffa while y\xffa", shape: b"(while cond=(send method_name=\x22y\xff\x02\x22 args=[]) body=(while cond=(send method_name=\x22v\xff\x01\x22 args=[]) body=(send method_name=\x22x\xff\x00\x22 args=[])))", full: b"(while cond=(send method_name=\x22y\xff\x02\x22 args=[] selector=18-20 expression=18-20) body=(while cond=(send method_name=\x22v\xff\x01\x22 args=[] selector=9-11 expression=9-11) body=(send method_name=\x22x\xff\x00\x22 args=[] selector=0-2 expression=0-2) keyword=3-8 expression=0-11) keyword=12-17 expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 x\xff\x00\x0akWHILE_MOD 3-8 while\x0atIDENTIFIER 9-11 v\xff\x01\x0akWHILE_MOD 12-17 while\x0atIDENTIFIER 18-20 y\xff\x02\x0aEOF 20-20 " },
    Rec { t: b"begin; x\xffa; end.y\xffa while v\xffa", shape: b"(while cond=(send method_name=\x22v\xff\x02\x22 args=[]) body=(send recv=(kw_begin statements=[(send method_name=\x22x\xff\x00\x22 args=[])]) method_name=\x22y\xff\x01\x22 args=[]))", full: b"(while cond=(send method_name=\x22v\xff\x02\x22 args=[] selector=24-26 expression=24-26) body=(send recv=(kw_begin statements=[(send method_name=\x22x\xff\x00\x22 args=[] selector=7-9 expression=7-9)] begin=0-5 end=11-14 expression=0-14) method_name=\x22y\xff\x01\x22 args=[] dot=14-15 selector=15-17 expression=0-17) keyword=18-23 expression=0-26)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 x\xff\x00\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0atDOT 14-15 .\x0atIDENTIFIER 15-17 y\xff\x01\x0akWHILE_MOD 18-23 while\x0atIDENTIFIER 24-26 v\xff\x02\x0aEOF 26-26 " },
    Rec { t: b"(begin; x\xffa; end) while v\xffa", shape: b"(while cond=(send method_name=\x22v\xff\x01\x22 args=[]) body=(begin statements=[(kw_begin statements=[(send method_name=\x22x\xff\x00\x22 args=[])])]))", full: b"(while cond=(send method_name=\x22v\xff\x01\x22 args=[] selector=23-25 expression=23-25) body=(begin statements=[(kw_begin statements=[(send method_name=\x22x\xff\x00\x22 args=[] selector=8-10 expression=8-10)] begin=1-6 end=12-15 expression=1-15)] begin=0-1 end=15-16 expression=0-16) keyword=17-22 expression=0-25)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0akBEGIN 1-6 begin\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 x\xff\x00\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0atRPAREN 15-16 )\x0akWHILE_MOD 17-22 while\x0atIDENTIFIER 23-25 v\xff\x01\x0aEOF 25-25 " },
    Rec { t: b"x\xffa = begin; y\xffa; end while v\xffa", shape: b"(while cond=(send method_name=\x22v\xff\x02\x22 args=[]) body=(lvasgn name=\x22x\xff\x00\x22 value=(kw_begin statements=[(send method_name=\x22y\xff\x01\x22 args=[])])))", full: b"(while cond=(send method_name=\x22v\xff\x02\x22 args=[] selector=26-28 expression=26-28) body=(lvasgn name=\x22x\xff\x00\x22 value=(kw_begin statements=[(send method_name=\x22y\xff\x01\x22 args=[] selector=12-14 expression=12-14)] begin=5-10 end=16-19 expression=5-19) name=0-2 operator=3-4 expression=0-19) keyword=20-25 expression=0-28)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 x\xff\x00\x0atEQL 3-4 =\x0akBEGIN 5-10 begin\x0atSEMI 10-11 ;\x0atIDENTIFIER 12-14 y\xff\x01\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0akWHILE_MOD 20-25 while\x0atIDENTIFIER 26-28 v\xff\x02\x0aEOF 28-28 " },
    Rec { t: b"while v\xffa { } do x\xffa end", shape: b"(while cond=(block call=(send method_name=\x22v\xff\x00\x22 args=[])) body=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(while cond=(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) begin=9-10 end=11-12 expression=6-12) body=(send method_name=\x22x\xff\x01\x22 args=[] selector=16-18 expression=16-18) keyword=0-5 begin=13-15 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akWHILE 0-5 while\x0atIDENTIFIER 6-8 v\xff\x00\x0atLCURLY 9-10 {\x0atRCURLY 11-12 }\x0akDO_COND 13-15 do\x0atIDENTIFIER 16-18 x\xff\x01\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"while not v\xffa; end", shape: b"(while cond=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22!\x22 args=[]))", full: b"(while cond=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=10-12 expression=10-12) method_name=\x22!\x22 args=[] selector=6-9 expression=6-12) keyword=0-5 begin=12-13 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akWHILE 0-5 while\x0akNOT 6-9 not\x0atIDENTIFIER 10-12 v\xff\x00\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"while v\xffa and x\xffa; end", shape: b"(while cond=(and lhs=(send method_name=\x22v\xff\x00\x22 args=[]) rhs=(send method_name=\x22x\xff\x01\x22 args=[])))", full: b"(while cond=(and lhs=(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) rhs=(send method_name=\x22x\xff\x01\x22 args=[] selector=13-15 expression=13-15) operator=9-12 expression=6-15) keyword=0-5 begin=15-16 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akWHILE 0-5 while\x0atIDENTIFIER 6-8 v\xff\x00\x0akAND 9-12 and\x0atIDENTIFIER 13-15 x\xff\x01\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"while (v\xffa; x\xffa); end", shape: b"(while cond=(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[]) (send method_name=\x22x\xff\x01\x22 args=[])]))", full: b"(while cond=(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) (send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13)] begin=6-7 end=13-14 expression=6-14) keyword=0-5 begin=14-15 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akWHILE 0-5 while\x0atLPAREN 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 x\xff\x01\x0atRPAREN 13-14 )\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"until v\xffa do end", shape: b"(until cond=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(until cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) keyword=0-5 begin=9-11 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akUNTIL 0-5 until\x0atIDENTIFIER 6-8 v\xff\x00\x0akDO_COND 9-11 do\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"until v\xffa\x0aend", shape: b"(until cond=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(until cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) keyword=0-5 begin=8-9 end=9-12 expression=0-12)", diag: b"", toks: b"\x0akUNTIL 0-5 until\x0atIDENTIFIER 6-8 v\xff\x00\x0atNL 8-9 \x0a\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"until v\xffa do\x0ax\xffa\x0ay\xffa\x0aend", shape: b"(until cond=(send method_name=\x22v\xff\x00\x22 args=[]) body=(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[]) (send method_name=\x22y\xff\x02\x22 args=[])]))", full: b"(until cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) body=(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[] selector=12-14 expression=12-14) (send method_name=\x22y\xff\x02\x22 args=[] selector=15-17 expression=15-17)] expression=12-17) keyword=0-5 begin=9-11 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akUNTIL 0-5 until\x0atIDENTIFIER 6-8 v\xff\x00\x0akDO_COND 9-11 do\x0atIDENTIFIER 12-14 x\xff\x01\x0atNL 14-15 \x0a\x0atIDENTIFIER 15-17 y\xff\x02\x0atNL 17-18 \x0a\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"until v\xffa; x\xffa; y\xffa; end", shape: b"(until cond=(send method_name=\x22v\xff\x00\x22 args=[]) body=(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[]) (send method_name=\x22y\xff\x02\x22 args=[])]))", full: b"(until cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) body=(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12) (send method_name=\x22y\xff\x02\x22 args=[] selector=14-16 expression=14-16)] expression=10-16) keyword=0-5 begin=8-9 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akUNTIL 0-5 until\x0atIDENTIFIER 6-8 v\xff\x00\x0atSEMI 8-9 ;\x0atIDENTIFIER 10-12 x\xff\x01\x0atSEMI 12-13 ;\x0atIDENTIFIER 14-16 y\xff\x02\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"begin; end until v\xffa", shape: b"(until_post cond=(send method_name=\x22v\xff\x00\x22 args=[]) body=(kw_begin statements=[]))", full: b"(until_post cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=17-19 expression=17-19) body=(kw_begin statements=[] begin=0-5 end=7-10 expression=0-10) keyword=11-16 expression=0-19)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akEND 7-10 end\x0akUNTIL_MOD 11-16 until\x0atIDENTIFIER 17-19 v\xff\x00\x0aEOF 19-19 " },
    Rec { t: b"begin; x\xffa; end until v\xffa", shape: b"(until_post cond=(send method_name=\x22v\xff\x01\x22 args=[]) body=(kw_begin statements=[(send method_name=\x22x\xff\x00\x22 args=[])]))", full: b"(until_post cond=(send method_name=\x22v\xff\x01\x22 args=[] selector=21-23 expression=21-23) body=(kw_begin statements=[(send method_name=\x22x\xff\x00\x22 args=[] selector=7-9 expression=7-9)] begin=0-5 end=11-14 expression=0-14) keyword=15-20 expression=0-23)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 x\xff\x00\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0akUNTIL_MOD 15-20 until\x0atIDENTIFIER 21-23 v\xff\x01\x0aEOF 23-23 " },
    Rec { t: b"begin; x\xffa; y\xffa; end until v\xffa", shape: b"(until_post cond=(send method_name=\x22v\xff\x02\x22 args=[]) body=(kw_begin statements=[(send method_name=\x22x\xff\x00\x22 args=[]) (send method_name=\x22y\xff\x01\x22 args=[])]))", full: b"(until_post cond=(send method_name=\x22v\xff\x02\x22 args=[] selector=25-27 expression=25-27) body=(kw_begin statements=[(send method_name=\x22x\xff\x00\x22 args=[] selector=7-9 expression=7-9) (send method_name=\x22y\xff\x01\x22 args=[] selector=11-13 expression=11-13)] begin=0-5 end=15-18 expression=0-18) keyword=19-24 expression=0-27)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 x\xff\x00\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 y\xff\x01\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0akUNTIL_MOD 19-24 until\x0atIDENTIFIER 25-27 v\xff\x02\x0aEOF 27-27 " },
    Rec { t: b"begin; x\xffa; rescue; end until v\xffa", shape: b"(until_post cond=(send method_name=\x22v\xff\x01\x22 args=[]) body=(kw_begin statements=[(rescue body=(send method_name=\x22x\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body)])]))", full: b"(until_post cond=(send method_name=\x22v\xff\x01\x22 args=[] selector=29-31 expression=29-31) body=(kw_begin statements=[(rescue body=(send method_name=\x22x\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body keyword=11-17 begin=17-18 expression=11-18)] expression=7-18)] begin=0-5 end=19-22 expression=0-22) keyword=23-28 expression=0-31)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 x\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0akUNTIL_MOD 23-28 until\x0atIDENTIFIER 29-31 v\xff\x01\x0aEOF 31-31 " },
    Rec { t: b"begin; ensure; end until v\xffa", shape: b"(until_post cond=(send method_name=\x22v\xff\x00\x22 args=[]) body=(kw_begin statements=[(ensure)]))", full: b"(until_post cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=25-27 expression=25-27) body=(kw_begin statements=[(ensure keyword=7-13 expression=7-13)] begin=0-5 end=15-18 expression=0-18) keyword=19-24 expression=0-27)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akENSURE 7-13 ensure\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0akUNTIL_MOD 19-24 until\x0atIDENTIFIER 25-27 v\xff\x00\x0aEOF 27-27 " },
    Rec { t: b"begin end until v\xffa", shape: b"(until_post cond=(send method_name=\x22v\xff\x00\x22 args=[]) body=(kw_begin statements=[]))", full: b"(until_post cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=16-18 expression=16-18) body=(kw_begin statements=[] begin=0-5 end=6-9 expression=0-9) keyword=10-15 expression=0-18)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0akEND 6-9 end\x0akUNTIL_MOD 10-15 until\x0atIDENTIFIER 16-18 v\xff\x00\x0aEOF 18-18 " },
    Rec { t: b"begin () end until v\xffa", shape: b"(until_post cond=(send method_name=\x22v\xff\x00\x22 args=[]) body=(kw_begin statements=[(begin statements=[])]))", full: b"(until_post cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=19-21 expression=19-21) body=(kw_begin statements=[(begin statements=[] begin=6-7 end=7-8 expression=6-8)] begin=0-5 end=9-12 expression=0-12) keyword=13-18 expression=0-21)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atLPAREN 6-7 (\x0atRPAREN 7-8 )\x0akEND 9-12 end\x0akUNTIL_MOD 13-18 until\x0atIDENTIFIER 19-21 v\xff\x00\x0aEOF 21-21 " },
    Rec { t: b"(x\xffa) until v\xffa", shape: b"(until cond=(send method_name=\x22v\xff\x01\x22 args=[]) body=(begin statements=[(send method_name=\x22x\xff\x00\x22 args=[])]))", full: b"(until cond=(send method_name=\x22v\xff\x01\x22 args=[] selector=11-13 expression=11-13) body=(begin statements=[(send method_name=\x22x\xff\x00\x22 args=[] selector=1-3 expression=1-3)] begin=0-1 end=3-4 expression=0-4) keyword=5-10 expression=0-13)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atIDENTIFIER 1-3 x\xff\x00\x0atRPAREN 3-4 )\x0akUNTIL_MOD 5-10 until\x0atIDENTIFIER 11-13 v\xff\x01\x0aEOF 13-13 " },
    Rec { t: b"() until v\xffa", shape: b"(until cond=(send method_name=\x22v\xff\x00\x22 args=[]) body=(begin statements=[]))", full: b"(until cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=9-11 expression=9-11) body=(begin statements=[] begin=0-1 end=1-2 expression=0-2) keyword=3-8 expression=0-11)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atRPAREN 1-2 )\x0akUNTIL_MOD 3-8 until\x0atIDENTIFIER 9-11 v\xff\x00\x0aEOF 11-11 " },
    Rec { t: b"x\xffa until v\xffa until y\xffa", shape: b"(until cond=(send method_name=\x22y\xff\x02\x22 args=[]) body=(until cond=(send method_name=\x22v\xff\x01\x22 args=[]) body=(send method_name=\x22x\xff\x00\x22 args=[])))", full: b"(until cond=(send method_name=\x22y\xff\x02\x22 args=[] selector=18-20 expression=18-20) body=(until cond=(send method_name=\x22v\xff\x01\x22 args=[] selector=9-11 expression=9-11) body=(send method_name=\x22x\xff\x00\x22 args=[] selector=0-2 expression=0-2) keyword=3-8 expression=0-11) keyword=12-17 expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 x\xff\x00\x0akUNTIL_MOD 3-8 until\x0atIDENTIFIER 9-11 v\xff\x01\x0akUNTIL_MOD 12-17 until\x0atIDENTIFIER 18-20 y\xff\x02\x0aEOF 20-20 " },
    Rec { t: b"begin; x\xffa; end.y\xffa until v\xffa", shape: b"(until cond=(send method_name=\x22v\xff\x02\x22 args=[]) body=(send recv=(kw_begin statements=[(send method_name=\x22x\xff\x00\x22 args=[])]) method_name=\x22y\xff\x01\x22 args=[]))", full: b"(until cond=(send method_name=\x22v\xff\x02\x22 args=[] selector=24-26 expression=24-26) body=(send recv=(kw_begin statements=[(send method_name=\x22x\xff\x00\x22 args=[] selector=7-9 expression=7-9)] begin=0-5 end=11-14 expression=0-14) method_name=\x22y\xff\x01\x22 args=[] dot=14-15 selector=15-17 expression=0-17) keyword=18-23 expression=0-26)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 x\xff\x00\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0atDOT 14-15 .\x0atIDENTIFIER 15-17 y\xff\x01\x0akUNTIL_MOD 18-23 until\x0atIDENTIFIER 24-26 v\xff\x02\x0aEOF 26-26 " },
    Rec { t: b"(begin; x\xffa; end) until v\xffa", shape: b"(until cond=(send method_name=\x22v\xff\x01\x22 args=[]) body=(begin statements=[(kw_begin statements=[(send method_name=\x22x\xff\x00\x22 args=[])])]))", full: b"(until cond=(send method_name=\x22v\xff\x01\x22 args=[] selector=23-25 expression=23-25) body=(begin statements=[(kw_begin statements=[(send method_name=\x22x\xff\x00\x22 args=[] selector=8-10 expression=8-10)] begin=1-6 end=12-15 expression=1-15)] begin=0-1 end=15-16 expression=0-16) keyword=17-22 expression=0-25)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0akBEGIN 1-6 begin\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 x\xff\x00\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0atRPAREN 15-16 )\x0akUNTIL_MOD 17-22 until\x0atIDENTIFIER 23-25 v\xff\x01\x0aEOF 25-25 " },
    Rec { t: b"x\xffa = begin; y\xffa; end until v\xffa", shape: b"(until cond=(send method_name=\x22v\xff\x02\x22 args=[]) body=(lvasgn name=\x22x\xff\x00\x22 value=(kw_begin statements=[(send method_name=\x22y\xff\x01\x22 args=[])])))", full: b"(until cond=(send method_name=\x22v\xff\x02\x22 args=[] selector=26-28 expression=26-28) body=(lvasgn name=\x22x\xff\x00\x22 value=(kw_begin statements=[(send method_name=\x22y\xff\x01\x22 args=[] selector=12-14 expression=12-14)] begin=5-10 end=16-19 expression=5-19) name=0-2 operator=3-4 expression=0-19) keyword=20-25 expression=0-28)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 x\xff\x00\x0atEQL 3-4 =\x0akBEGIN 5-10 begin\x0atSEMI 10-11 ;\x0atIDENTIFIER 12-14 y\xff\x01\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0akUNTIL_MOD 20-25 until\x0atIDENTIFIER 26-28 v\xff\x02\x0aEOF 28-28 " },
    Rec { t: b"until v\xffa { } do x\xffa end", shape: b"(until cond=(block call=(send method_name=\x22v\xff\x00\x22 args=[])) body=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(until cond=(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) begin=9-10 end=11-12 expression=6-12) body=(send method_name=\x22x\xff\x01\x22 args=[] selector=16-18 expression=16-18) keyword=0-5 begin=13-15 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akUNTIL 0-5 until\x0atIDENTIFIER 6-8 v\xff\x00\x0atLCURLY 9-10 {\x0atRCURLY 11-12 }\x0akDO_COND 13-15 do\x0atIDENTIFIER 16-18 x\xff\x01\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"until not v\xffa; end", shape: b"(until cond=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22!\x22 args=[]))", full: b"(until cond=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=10-12 expression=10-12) method_name=\x22!\x22 args=[] selector=6-9 expression=6-12) keyword=0-5 begin=12-13 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akUNTIL 0-5 until\x0akNOT 6-9 not\x0atIDENTIFIER 10-12 v\xff\x00\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"until v\xffa and x\xffa; end", shape: b"(until cond=(and lhs=(send method_name=\x22v\xff\x00\x22 args=[]) rhs=(send method_name=\x22x\xff\x01\x22 args=[])))", full: b"(until cond=(and lhs=(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) rhs=(send method_name=\x22x\xff\x01\x22 args=[] selector=13-15 expression=13-15) operator=9-12 expression=6-15) keyword=0-5 begin=15-16 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akUNTIL 0-5 until\x0atIDENTIFIER 6-8 v\xff\x00\x0akAND 9-12 and\x0atIDENTIFIER 13-15 x\xff\x01\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"until (v\xffa; x\xffa); end", shape: b"(until cond=(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[]) (send method_name=\x22x\xff\x01\x22 args=[])]))", full: b"(until cond=(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) (send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13)] begin=6-7 end=13-14 expression=6-14) keyword=0-5 begin=14-15 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akUNTIL 0-5 until\x0atLPAREN 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 x\xff\x01\x0atRPAREN 13-14 )\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"for v\xffa in x\xffa; end", shape: b"(for iterator=(lvasgn name=\x22v\xff\x00\x22) iteratee=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(for iterator=(lvasgn name=\x22v\xff\x00\x22 name=4-6 expression=4-6) iteratee=(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12) keyword=0-3 operator=7-9 begin=12-13 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atIDENTIFIER 4-6 v\xff\x00\x0akIN 7-9 in\x0atIDENTIFIER 10-12 x\xff\x01\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"for v\xffa, in x\xffa; end", shape: b"(for iterator=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22)]) iteratee=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(for iterator=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=4-6 expression=4-6)] expression=4-6) iteratee=(send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13) keyword=0-3 operator=8-10 begin=13-14 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atIDENTIFIER 4-6 v\xff\x00\x0atCOMMA 6-7 ,\x0akIN 8-10 in\x0atIDENTIFIER 11-13 x\xff\x01\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"for v\xffa, *x\xffa in y\xffa; end", shape: b"(for iterator=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (splat value=(lvasgn name=\x22x\xff\x01\x22))]) iteratee=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(for iterator=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=4-6 expression=4-6) (splat value=(lvasgn name=\x22x\xff\x01\x22 name=9-11 expression=9-11) operator=8-9 expression=8-11)] expression=4-11) iteratee=(send method_name=\x22y\xff\x02\x22 args=[] selector=15-17 expression=15-17) keyword=0-3 operator=12-14 begin=17-18 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atIDENTIFIER 4-6 v\xff\x00\x0atCOMMA 6-7 ,\x0atSTAR 8-9 *\x0atIDENTIFIER 9-11 x\xff\x01\x0akIN 12-14 in\x0atIDENTIFIER 15-17 y\xff\x02\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"for v\xffa, (x\xffa, *z\xffa) in y\xffa; end", shape: b"(for iterator=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (mlhs items=[(lvasgn name=\x22x\xff\x01\x22) (splat value=(lvasgn name=\x22z\xff\x02\x22))])]) iteratee=(send method_name=\x22y\xff\x03\x22 args=[]))", full: b"(for iterator=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=4-6 expression=4-6) (mlhs items=[(lvasgn name=\x22x\xff\x01\x22 name=9-11 expression=9-11) (splat value=(lvasgn name=\x22z\xff\x02\x22 name=14-16 expression=14-16) operator=13-14 expression=13-16)] begin=8-9 end=16-17 expression=8-17)] expression=4-17) iteratee=(send method_name=\x22y\xff\x03\x22 args=[] selector=21-23 expression=21-23) keyword=0-3 operator=18-20 begin=23-24 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atIDENTIFIER 4-6 v\xff\x00\x0atCOMMA 6-7 ,\x0atLPAREN 8-9 (\x0atIDENTIFIER 9-11 x\xff\x01\x0atCOMMA 11-12 ,\x0atSTAR 13-14 *\x0atIDENTIFIER 14-16 z\xff\x02\x0atRPAREN 16-17 )\x0akIN 18-20 in\x0atIDENTIFIER 21-23 y\xff\x03\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"for $v\xffa in x\xffa; end", shape: b"(for iterator=(gvasgn name=\x22$v\xff\x00\x22) iteratee=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(for iterator=(gvasgn name=\x22$v\xff\x00\x22 name=4-7 expression=4-7) iteratee=(send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13) keyword=0-3 operator=8-10 begin=13-14 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atGVAR 4-7 $v\xff\x00\x0akIN 8-10 in\x0atIDENTIFIER 11-13 x\xff\x01\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"for @@v\xffa in x\xffa; end", shape: b"(for iterator=(cvasgn name=\x22@@v\xff\x00\x22) iteratee=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(for iterator=(cvasgn name=\x22@@v\xff\x00\x22 name=4-8 expression=4-8) iteratee=(send method_name=\x22x\xff\x01\x22 args=[] selector=12-14 expression=12-14) keyword=0-3 operator=9-11 begin=14-15 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atCVAR 4-8 @@v\xff\x00\x0akIN 9-11 in\x0atIDENTIFIER 12-14 x\xff\x01\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"for V\xffa in x\xffa; end", shape: b"(for iterator=(casgn name=\x22V\xff\x00\x22) iteratee=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(for iterator=(casgn name=\x22V\xff\x00\x22 name=4-6 expression=4-6) iteratee=(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12) keyword=0-3 operator=7-9 begin=12-13 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atCONSTANT 4-6 V\xff\x00\x0akIN 7-9 in\x0atIDENTIFIER 10-12 x\xff\x01\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"for v\xffa[\xffd] in y\xffa; end", shape: b"(for iterator=(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(int value=\x22\xff\x01\x22)]) iteratee=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(for iterator=(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=4-6 expression=4-6) indexes=[(int value=\x22\xff\x01\x22 expression=7-8)] begin=6-7 end=8-9 expression=4-9) iteratee=(send method_name=\x22y\xff\x02\x22 args=[] selector=13-15 expression=13-15) keyword=0-3 operator=10-12 begin=15-16 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atIDENTIFIER 4-6 v\xff\x00\x0atLBRACK2 6-7 [\x0atINTEGER 7-8 \xff\x01\x0atRBRACK 8-9 ]\x0akIN 10-12 in\x0atIDENTIFIER 13-15 y\xff\x02\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"for v\xffa::X\xffa in y\xffa; end", shape: b"(for iterator=(casgn scope=(send method_name=\x22v\xff\x00\x22 args=[]) name=\x22X\xff\x01\x22) iteratee=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(for iterator=(casgn scope=(send method_name=\x22v\xff\x00\x22 args=[] selector=4-6 expression=4-6) name=\x22X\xff\x01\x22 double_colon=6-8 name=8-10 expression=4-10) iteratee=(send method_name=\x22y\xff\x02\x22 args=[] selector=14-16 expression=14-16) keyword=0-3 operator=11-13 begin=16-17 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atIDENTIFIER 4-6 v\xff\x00\x0atCOLON2 6-8 ::\x0atCONSTANT 8-10 X\xff\x01\x0akIN 11-13 in\x0atIDENTIFIER 14-16 y\xff\x02\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"for v\xffa in x\xffa\x0ay\xffa\x0az\xffa\x0aend", shape: b"(for iterator=(lvasgn name=\x22v\xff\x00\x22) iteratee=(send method_name=\x22x\xff\x01\x22 args=[]) body=(begin statements=[(send method_name=\x22y\xff\x02\x22 args=[]) (send method_name=\x22z\xff\x03\x22 args=[])]))", full: b"(for iterator=(lvasgn name=\x22v\xff\x00\x22 name=4-6 expression=4-6) iteratee=(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12) body=(begin statements=[(send method_name=\x22y\xff\x02\x22 args=[] selector=13-15 expression=13-15) (send method_name=\x22z\xff\x03\x22 args=[] selector=16-18 expression=16-18)] expression=13-18) keyword=0-3 operator=7-9 begin=12-13 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atIDENTIFIER 4-6 v\xff\x00\x0akIN 7-9 in\x0atIDENTIFIER 10-12 x\xff\x01\x0atNL 12-13 \x0a\x0atIDENTIFIER 13-15 y\xff\x02\x0atNL 15-16 \x0a\x0atIDENTIFIER 16-18 z\xff\x03\x0atNL 18-19 \x0a\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"for v\xffa in \xffd..\xffd do x\xffa end", shape: b"(for iterator=(lvasgn name=\x22v\xff\x00\x22) iteratee=(irange left=(int value=\x22\xff\x01\x22) right=(int value=\x22\xff\x02\x22)) body=(send method_name=\x22x\xff\x03\x22 args=[]))", full: b"(for iterator=(lvasgn name=\x22v\xff\x00\x22 name=4-6 expression=4-6) iteratee=(irange left=(int value=\x22\xff\x01\x22 expression=10-11) right=(int value=\x22\xff\x02\x22 expression=13-14) operator=11-13 expression=10-14) body=(send method_name=\x22x\xff\x03\x22 args=[] selector=18-20 expression=18-20) keyword=0-3 operator=7-9 begin=15-17 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atIDENTIFIER 4-6 v\xff\x00\x0akIN 7-9 in\x0atINTEGER 10-11 \xff\x01\x0atDOT2 11-13 ..\x0atINTEGER 13-14 \xff\x02\x0akDO_COND 15-17 do\x0atIDENTIFIER 18-20 x\xff\x03\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"case v\xffa; when \xffd; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22)])])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22 expression=14-15)] keyword=9-13 begin=15-16 expression=9-15)] keyword=0-4 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atINTEGER 14-15 \xff\x01\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"case; when \xffd; end", shape: b"(case when_bodies=[(when patterns=[(int value=\x22\xff\x00\x22)])])", full: b"(case when_bodies=[(when patterns=[(int value=\x22\xff\x00\x22 expression=11-12)] keyword=6-10 begin=12-13 expression=6-12)] keyword=0-4 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atSEMI 4-5 ;\x0akWHEN 6-10 when\x0atINTEGER 11-12 \xff\x00\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"case v\xffa; when \xffd then; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22)])])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22 expression=14-15)] keyword=9-13 begin=16-20 expression=9-15)] keyword=0-4 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atINTEGER 14-15 \xff\x01\x0akTHEN 16-20 then\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"case v\xffa; in \xffd then; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22 expression=12-13) keyword=9-11 begin=14-18 expression=9-13)] keyword=0-4 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atINTEGER 12-13 \xff\x01\x0akTHEN 14-18 then\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"case v\xffa; when \xffd; when \xffd, \xffd; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22)]) (when patterns=[(int value=\x22\xff\x02\x22) (int value=\x22\xff\x03\x22)])])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22 expression=14-15)] keyword=9-13 begin=15-16 expression=9-15) (when patterns=[(int value=\x22\xff\x02\x22 expression=22-23) (int value=\x22\xff\x03\x22 expression=25-26)] keyword=17-21 begin=26-27 expression=17-26)] keyword=0-4 end=28-31 expression=0-31)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atINTEGER 14-15 \xff\x01\x0atSEMI 15-16 ;\x0akWHEN 17-21 when\x0atINTEGER 22-23 \xff\x02\x0atCOMMA 23-24 ,\x0atINTEGER 25-26 \xff\x03\x0atSEMI 26-27 ;\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"case v\xffa; in \xffd; in \xffd | \xffd; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22)) (in_pattern pattern=(match_alt lhs=(int value=\x22\xff\x02\x22) rhs=(int value=\x22\xff\x03\x22)))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22 expression=12-13) keyword=9-11 begin=13-14 expression=9-13) (in_pattern pattern=(match_alt lhs=(int value=\x22\xff\x02\x22 expression=18-19) rhs=(int value=\x22\xff\x03\x22 expression=22-23) operator=20-21 expression=18-23) keyword=15-17 begin=23-24 expression=15-23)] keyword=0-4 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atINTEGER 12-13 \xff\x01\x0atSEMI 13-14 ;\x0akIN 15-17 in\x0atINTEGER 18-19 \xff\x02\x0atPIPE 20-21 |\x0atINTEGER 22-23 \xff\x03\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"case v\xffa; when \xffd; else; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22)])])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22 expression=14-15)] keyword=9-13 begin=15-16 expression=9-15)] keyword=0-4 else=17-21 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atINTEGER 14-15 \xff\x01\x0atSEMI 15-16 ;\x0akELSE 17-21 else\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"case; when \xffd; else; end", shape: b"(case when_bodies=[(when patterns=[(int value=\x22\xff\x00\x22)])])", full: b"(case when_bodies=[(when patterns=[(int value=\x22\xff\x00\x22 expression=11-12)] keyword=6-10 begin=12-13 expression=6-12)] keyword=0-4 else=14-18 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atSEMI 4-5 ;\x0akWHEN 6-10 when\x0atINTEGER 11-12 \xff\x00\x0atSEMI 12-13 ;\x0akELSE 14-18 else\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"case v\xffa; when \xffd then; else; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22)])])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22 expression=14-15)] keyword=9-13 begin=16-20 expression=9-15)] keyword=0-4 else=22-26 end=28-31 expression=0-31)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atINTEGER 14-15 \xff\x01\x0akTHEN 16-20 then\x0atSEMI 20-21 ;\x0akELSE 22-26 else\x0atSEMI 26-27 ;\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"case v\xffa; in \xffd; else; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22))] else_body=(empty_else))", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22 expression=12-13) keyword=9-11 begin=13-14 expression=9-13)] else_body=(empty_else expression=15-19) keyword=0-4 else=15-19 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atINTEGER 12-13 \xff\x01\x0atSEMI 13-14 ;\x0akELSE 15-19 else\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"case v\xffa; in \xffd then; else; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22))] else_body=(empty_else))", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22 expression=12-13) keyword=9-11 begin=14-18 expression=9-13)] else_body=(empty_else expression=20-24) keyword=0-4 else=20-24 end=26-29 expression=0-29)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atINTEGER 12-13 \xff\x01\x0akTHEN 14-18 then\x0atSEMI 18-19 ;\x0akELSE 20-24 else\x0atSEMI 24-25 ;\x0akEND 26-29 end\x0aEOF 29-29 " },
    Rec { t: b"case v\xffa; when \xffd; when \xffd, \xffd; else; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22)]) (when patterns=[(int value=\x22\xff\x02\x22) (int value=\x22\xff\x03\x22)])])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22 expression=14-15)] keyword=9-13 begin=15-16 expression=9-15) (when patterns=[(int value=\x22\xff\x02\x22 expression=22-23) (int value=\x22\xff\x03\x22 expression=25-26)] keyword=17-21 begin=26-27 expression=17-26)] keyword=0-4 else=28-32 end=34-37 expression=0-37)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atINTEGER 14-15 \xff\x01\x0atSEMI 15-16 ;\x0akWHEN 17-21 when\x0atINTEGER 22-23 \xff\x02\x0atCOMMA 23-24 ,\x0atINTEGER 25-26 \xff\x03\x0atSEMI 26-27 ;\x0akELSE 28-32 else\x0atSEMI 32-33 ;\x0akEND 34-37 end\x0aEOF 37-37 " },
    Rec { t: b"case v\xffa; in \xffd; in \xffd | \xffd; else; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22)) (in_pattern pattern=(match_alt lhs=(int value=\x22\xff\x02\x22) rhs=(int value=\x22\xff\x03\x22)))] else_body=(empty_else))", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22 expression=12-13) keyword=9-11 begin=13-14 expression=9-13) (in_pattern pattern=(match_alt lhs=(int value=\x22\xff\x02\x22 expression=18-19) rhs=(int value=\x22\xff\x03\x22 expression=22-23) operator=20-21 expression=18-23) keyword=15-17 begin=23-24 expression=15-23)] else_body=(empty_else expression=25-29) keyword=0-4 else=25-29 end=31-34 expression=0-34)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atINTEGER 12-13 \xff\x01\x0atSEMI 13-14 ;\x0akIN 15-17 in\x0atINTEGER 18-19 \xff\x02\x0atPIPE 20-21 |\x0atINTEGER 22-23 \xff\x03\x0atSEMI 23-24 ;\x0akELSE 25-29 else\x0atSEMI 29-30 ;\x0akEND 31-34 end\x0aEOF 34-34 " },
    Rec { t: b"case v\xffa; when \xffd; else; y\xffa; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22)])] else_body=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22 expression=14-15)] keyword=9-13 begin=15-16 expression=9-15)] else_body=(send method_name=\x22y\xff\x02\x22 args=[] selector=23-25 expression=23-25) keyword=0-4 else=17-21 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atINTEGER 14-15 \xff\x01\x0atSEMI 15-16 ;\x0akELSE 17-21 else\x0atSEMI 21-22 ;\x0atIDENTIFIER 23-25 y\xff\x02\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"case; when \xffd; else; y\xffa; end", shape: b"(case when_bodies=[(when patterns=[(int value=\x22\xff\x00\x22)])] else_body=(send method_name=\x22y\xff\x01\x22 args=[]))", full: b"(case when_bodies=[(when patterns=[(int value=\x22\xff\x00\x22 expression=11-12)] keyword=6-10 begin=12-13 expression=6-12)] else_body=(send method_name=\x22y\xff\x01\x22 args=[] selector=20-22 expression=20-22) keyword=0-4 else=14-18 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atSEMI 4-5 ;\x0akWHEN 6-10 when\x0atINTEGER 11-12 \xff\x00\x0atSEMI 12-13 ;\x0akELSE 14-18 else\x0atSEMI 18-19 ;\x0atIDENTIFIER 20-22 y\xff\x01\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"case v\xffa; when \xffd then; else; y\xffa; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22)])] else_body=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22 expression=14-15)] keyword=9-13 begin=16-20 expression=9-15)] else_body=(send method_name=\x22y\xff\x02\x22 args=[] selector=28-30 expression=28-30) keyword=0-4 else=22-26 end=32-35 expression=0-35)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atINTEGER 14-15 \xff\x01\x0akTHEN 16-20 then\x0atSEMI 20-21 ;\x0akELSE 22-26 else\x0atSEMI 26-27 ;\x0atIDENTIFIER 28-30 y\xff\x02\x0atSEMI 30-31 ;\x0akEND 32-35 end\x0aEOF 35-35 " },
    Rec { t: b"case v\xffa; in \xffd; else; y\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22))] else_body=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22 expression=12-13) keyword=9-11 begin=13-14 expression=9-13)] else_body=(send method_name=\x22y\xff\x02\x22 args=[] selector=21-23 expression=21-23) keyword=0-4 else=15-19 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atINTEGER 12-13 \xff\x01\x0atSEMI 13-14 ;\x0akELSE 15-19 else\x0atSEMI 19-20 ;\x0atIDENTIFIER 21-23 y\xff\x02\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"case v\xffa; in \xffd then; else; y\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22))] else_body=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22 expression=12-13) keyword=9-11 begin=14-18 expression=9-13)] else_body=(send method_name=\x22y\xff\x02\x22 args=[] selector=26-28 expression=26-28) keyword=0-4 else=20-24 end=30-33 expression=0-33)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atINTEGER 12-13 \xff\x01\x0akTHEN 14-18 then\x0atSEMI 18-19 ;\x0akELSE 20-24 else\x0atSEMI 24-25 ;\x0atIDENTIFIER 26-28 y\xff\x02\x0atSEMI 28-29 ;\x0akEND 30-33 end\x0aEOF 33-33 " },
    Rec { t: b"case v\xffa; when \xffd; when \xffd, \xffd; else; y\xffa; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22)]) (when patterns=[(int value=\x22\xff\x02\x22) (int value=\x22\xff\x03\x22)])] else_body=(send method_name=\x22y\xff\x04\x22 args=[]))", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22 expression=14-15)] keyword=9-13 begin=15-16 expression=9-15) (when patterns=[(int value=\x22\xff\x02\x22 expression=22-23) (int value=\x22\xff\x03\x22 expression=25-26)] keyword=17-21 begin=26-27 expression=17-26)] else_body=(send method_name=\x22y\xff\x04\x22 args=[] selector=34-36 expression=34-36) keyword=0-4 else=28-32 end=38-41 expression=0-41)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atINTEGER 14-15 \xff\x01\x0atSEMI 15-16 ;\x0akWHEN 17-21 when\x0atINTEGER 22-23 \xff\x02\x0atCOMMA 23-24 ,\x0atINTEGER 25-26 \xff\x03\x0atSEMI 26-27 ;\x0akELSE 28-32 else\x0atSEMI 32-33 ;\x0atIDENTIFIER 34-36 y\xff\x04\x0atSEMI 36-37 ;\x0akEND 38-41 end\x0aEOF 41-41 " },
    Rec { t: b"case v\xffa; in \xffd; in \xffd | \xffd; else; y\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22)) (in_pattern pattern=(match_alt lhs=(int value=\x22\xff\x02\x22) rhs=(int value=\x22\xff\x03\x22)))] else_body=(send method_name=\x22y\xff\x04\x22 args=[]))", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22 expression=12-13) keyword=9-11 begin=13-14 expression=9-13) (in_pattern pattern=(match_alt lhs=(int value=\x22\xff\x02\x22 expression=18-19) rhs=(int value=\x22\xff\x03\x22 expression=22-23) operator=20-21 expression=18-23) keyword=15-17 begin=23-24 expression=15-23)] else_body=(send method_name=\x22y\xff\x04\x22 args=[] selector=31-33 expression=31-33) keyword=0-4 else=25-29 end=35-38 expression=0-38)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atINTEGER 12-13 \xff\x01\x0atSEMI 13-14 ;\x0akIN 15-17 in\x0atINTEGER 18-19 \xff\x02\x0atPIPE 20-21 |\x0atINTEGER 22-23 \xff\x03\x0atSEMI 23-24 ;\x0akELSE 25-29 else\x0atSEMI 29-30 ;\x0atIDENTIFIER 31-33 y\xff\x04\x0atSEMI 33-34 ;\x0akEND 35-38 end\x0aEOF 38-38 " },
    Rec { t: b"case v\xffa; when \xffd; x\xffa; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22)] body=(send method_name=\x22x\xff\x02\x22 args=[]))])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22 expression=14-15)] body=(send method_name=\x22x\xff\x02\x22 args=[] selector=17-19 expression=17-19) keyword=9-13 begin=15-16 expression=9-19)] keyword=0-4 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atINTEGER 14-15 \xff\x01\x0atSEMI 15-16 ;\x0atIDENTIFIER 17-19 x\xff\x02\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"case; when \xffd; x\xffa; end", shape: b"(case when_bodies=[(when patterns=[(int value=\x22\xff\x00\x22)] body=(send method_name=\x22x\xff\x01\x22 args=[]))])", full: b"(case when_bodies=[(when patterns=[(int value=\x22\xff\x00\x22 expression=11-12)] body=(send method_name=\x22x\xff\x01\x22 args=[] selector=14-16 expression=14-16) keyword=6-10 begin=12-13 expression=6-16)] keyword=0-4 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atSEMI 4-5 ;\x0akWHEN 6-10 when\x0atINTEGER 11-12 \xff\x00\x0atSEMI 12-13 ;\x0atIDENTIFIER 14-16 x\xff\x01\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"case v\xffa; when \xffd then x\xffa; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22)] body=(send method_name=\x22x\xff\x02\x22 args=[]))])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22 expression=14-15)] body=(send method_name=\x22x\xff\x02\x22 args=[] selector=21-23 expression=21-23) keyword=9-13 begin=16-20 expression=9-23)] keyword=0-4 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atINTEGER 14-15 \xff\x01\x0akTHEN 16-20 then\x0atIDENTIFIER 21-23 x\xff\x02\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"case v\xffa; in \xffd; x\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22) body=(send method_name=\x22x\xff\x02\x22 args=[]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22 expression=12-13) body=(send method_name=\x22x\xff\x02\x22 args=[] selector=15-17 expression=15-17) keyword=9-11 begin=13-14 expression=9-17)] keyword=0-4 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atINTEGER 12-13 \xff\x01\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 x\xff\x02\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"case v\xffa; in \xffd then x\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22) body=(send method_name=\x22x\xff\x02\x22 args=[]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22 expression=12-13) body=(send method_name=\x22x\xff\x02\x22 args=[] selector=19-21 expression=19-21) keyword=9-11 begin=14-18 expression=9-21)] keyword=0-4 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atINTEGER 12-13 \xff\x01\x0akTHEN 14-18 then\x0atIDENTIFIER 19-21 x\xff\x02\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"case v\xffa; when \xffd; x\xffa; when \xffd, \xffd; x\xfe\x02; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22)] body=(send method_name=\x22x\xff\x02\x22 args=[])) (when patterns=[(int value=\x22\xff\x03\x22) (int value=\x22\xff\x04\x22)] body=(send method_name=\x22x\xff\x02\x22 args=[]))])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22 expression=14-15)] body=(send method_name=\x22x\xff\x02\x22 args=[] selector=17-19 expression=17-19) keyword=9-13 begin=15-16 expression=9-19) (when patterns=[(int value=\x22\xff\x03\x22 expression=26-27) (int value=\x22\xff\x04\x22 expression=29-30)] body=(send method_name=\x22x\xff\x02\x22 args=[] selector=32-34 expression=32-34) keyword=21-25 begin=30-31 expression=21-34)] keyword=0-4 end=36-39 expression=0-39)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atINTEGER 14-15 \xff\x01\x0atSEMI 15-16 ;\x0atIDENTIFIER 17-19 x\xff\x02\x0atSEMI 19-20 ;\x0akWHEN 21-25 when\x0atINTEGER 26-27 \xff\x03\x0atCOMMA 27-28 ,\x0atINTEGER 29-30 \xff\x04\x0atSEMI 30-31 ;\x0atIDENTIFIER 32-34 x\xff\x02\x0atSEMI 34-35 ;\x0akEND 36-39 end\x0aEOF 39-39 " },
    Rec { t: b"case v\xffa; in \xffd; x\xffa; in \xffd | \xffd; x\xfe\x02; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22) body=(send method_name=\x22x\xff\x02\x22 args=[])) (in_pattern pattern=(match_alt lhs=(int value=\x22\xff\x03\x22) rhs=(int value=\x22\xff\x04\x22)) body=(send method_name=\x22x\xff\x02\x22 args=[]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22 expression=12-13) body=(send method_name=\x22x\xff\x02\x22 args=[] selector=15-17 expression=15-17) keyword=9-11 begin=13-14 expression=9-17) (in_pattern pattern=(match_alt lhs=(int value=\x22\xff\x03\x22 expression=22-23) rhs=(int value=\x22\xff\x04\x22 expression=26-27) operator=24-25 expression=22-27) body=(send method_name=\x22x\xff\x02\x22 args=[] selector=29-31 expression=29-31) keyword=19-21 begin=27-28 expression=19-31)] keyword=0-4 end=33-36 expression=0-36)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atINTEGER 12-13 \xff\x01\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 x\xff\x02\x0atSEMI 17-18 ;\x0akIN 19-21 in\x0atINTEGER 22-23 \xff\x03\x0atPIPE 24-25 |\x0atINTEGER 26-27 \xff\x04\x0atSEMI 27-28 ;\x0atIDENTIFIER 29-31 x\xff\x02\x0atSEMI 31-32 ;\x0akEND 33-36 end\x0aEOF 36-36 " },
    Rec { t: b"case v\xffa; when \xffd; x\xffa; else; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22)] body=(send method_name=\x22x\xff\x02\x22 args=[]))])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22 expression=14-15)] body=(send method_name=\x22x\xff\x02\x22 args=[] selector=17-19 expression=17-19) keyword=9-13 begin=15-16 expression=9-19)] keyword=0-4 else=21-25 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atINTEGER 14-15 \xff\x01\x0atSEMI 15-16 ;\x0atIDENTIFIER 17-19 x\xff\x02\x0atSEMI 19-20 ;\x0akELSE 21-25 else\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"case; when \xffd; x\xffa; else; end", shape: b"(case when_bodies=[(when patterns=[(int value=\x22\xff\x00\x22)] body=(send method_name=\x22x\xff\x01\x22 args=[]))])", full: b"(case when_bodies=[(when patterns=[(int value=\x22\xff\x00\x22 expression=11-12)] body=(send method_name=\x22x\xff\x01\x22 args=[] selector=14-16 expression=14-16) keyword=6-10 begin=12-13 expression=6-16)] keyword=0-4 else=18-22 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atSEMI 4-5 ;\x0akWHEN 6-10 when\x0atINTEGER 11-12 \xff\x00\x0atSEMI 12-13 ;\x0atIDENTIFIER 14-16 x\xff\x01\x0atSEMI 16-17 ;\x0akELSE 18-22 else\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"case v\xffa; when \xffd then x\xffa; else; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22)] body=(send method_name=\x22x\xff\x02\x22 args=[]))])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22 expression=14-15)] body=(send method_name=\x22x\xff\x02\x22 args=[] selector=21-23 expression=21-23) keyword=9-13 begin=16-20 expression=9-23)] keyword=0-4 else=25-29 end=31-34 expression=0-34)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atINTEGER 14-15 \xff\x01\x0akTHEN 16-20 then\x0atIDENTIFIER 21-23 x\xff\x02\x0atSEMI 23-24 ;\x0akELSE 25-29 else\x0atSEMI 29-30 ;\x0akEND 31-34 end\x0aEOF 34-34 " },
    Rec { t: b"case v\xffa; in \xffd; x\xffa; else; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22) body=(send method_name=\x22x\xff\x02\x22 args=[]))] else_body=(empty_else))", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22 expression=12-13) body=(send method_name=\x22x\xff\x02\x22 args=[] selector=15-17 expression=15-17) keyword=9-11 begin=13-14 expression=9-17)] else_body=(empty_else expression=19-23) keyword=0-4 else=19-23 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atINTEGER 12-13 \xff\x01\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 x\xff\x02\x0atSEMI 17-18 ;\x0akELSE 19-23 else\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"case v\xffa; in \xffd then x\xffa; else; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22) body=(send method_name=\x22x\xff\x02\x22 args=[]))] else_body=(empty_else))", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22 expression=12-13) body=(send method_name=\x22x\xff\x02\x22 args=[] selector=19-21 expression=19-21) keyword=9-11 begin=14-18 expression=9-21)] else_body=(empty_else expression=23-27) keyword=0-4 else=23-27 end=29-32 expression=0-32)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atINTEGER 12-13 \xff\x01\x0akTHEN 14-18 then\x0atIDENTIFIER 19-21 x\xff\x02\x0atSEMI 21-22 ;\x0akELSE 23-27 else\x0atSEMI 27-28 ;\x0akEND 29-32 end\x0aEOF 32-32 " },
    Rec { t: b"case v\xffa; when \xffd; x\xffa; when \xffd, \xffd; x\xfe\x02; else; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22)] body=(send method_name=\x22x\xff\x02\x22 args=[])) (when patterns=[(int value=\x22\xff\x03\x22) (int value=\x22\xff\x04\x22)] body=(send method_name=\x22x\xff\x02\x22 args=[]))])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22 expression=14-15)] body=(send method_name=\x22x\xff\x02\x22 args=[] selector=17-19 expression=17-19) keyword=9-13 begin=15-16 expression=9-19) (when patterns=[(int value=\x22\xff\x03\x22 expression=26-27) (int value=\x22\xff\x04\x22 expression=29-30)] body=(send method_name=\x22x\xff\x02\x22 args=[] selector=32-34 expression=32-34) keyword=21-25 begin=30-31 expression=21-34)] keyword=0-4 else=36-40 end=42-45 expression=0-45)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atINTEGER 14-15 \xff\x01\x0atSEMI 15-16 ;\x0atIDENTIFIER 17-19 x\xff\x02\x0atSEMI 19-20 ;\x0akWHEN 21-25 when\x0atINTEGER 26-27 \xff\x03\x0atCOMMA 27-28 ,\x0atINTEGER 29-30 \xff\x04\x0atSEMI 30-31 ;\x0atIDENTIFIER 32-34 x\xff\x02\x0atSEMI 34-35 ;\x0akELSE 36-40 else\x0atSEMI 40-41 ;\x0akEND 42-45 end\x0aEOF 45-45 " },
    Rec { t: b"case v\xffa; in \xffd; x\xffa; in \xffd | \xffd; x\xfe\x02; else; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22) body=(send method_name=\x22x\xff\x02\x22 args=[])) (in_pattern pattern=(match_alt lhs=(int value=\x22\xff\x03\x22) rhs=(int value=\x22\xff\x04\x22)) body=(send method_name=\x22x\xff\x02\x22 args=[]))] else_body=(empty_else))", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22 expression=12-13) body=(send method_name=\x22x\xff\x02\x22 args=[] selector=15-17 expression=15-17) keyword=9-11 begin=13-14 expression=9-17) (in_pattern pattern=(match_alt lhs=(int value=\x22\xff\x03\x22 expression=22-23) rhs=(int value=\x22\xff\x04\x22 expression=26-27) operator=24-25 expression=22-27) body=(send method_name=\x22x\xff\x02\x22 args=[] selector=29-31 expression=29-31) keyword=19-21 begin=27-28 expression=19-31)] else_body=(empty_else expression=33-37) keyword=0-4 else=33-37 end=39-42 expression=0-42)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atINTEGER 12-13 \xff\x01\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 x\xff\x02\x0atSEMI 17-18 ;\x0akIN 19-21 in\x0atINTEGER 22-23 \xff\x03\x0atPIPE 24-25 |\x0atINTEGER 26-27 \xff\x04\x0atSEMI 27-28 ;\x0atIDENTIFIER 29-31 x\xff\x02\x0atSEMI 31-32 ;\x0akELSE 33-37 else\x0atSEMI 37-38 ;\x0akEND 39-42 end\x0aEOF 42-42 " },
    Rec { t: b"case v\xffa; when \xffd; x\xffa; else; y\xffa; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22)] body=(send method_name=\x22x\xff\x02\x22 args=[]))] else_body=(send method_name=\x22y\xff\x03\x22 args=[]))", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22 expression=14-15)] body=(send method_name=\x22x\xff\x02\x22 args=[] selector=17-19 expression=17-19) keyword=9-13 begin=15-16 expression=9-19)] else_body=(send method_name=\x22y\xff\x03\x22 args=[] selector=27-29 expression=27-29) keyword=0-4 else=21-25 end=31-34 expression=0-34)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atINTEGER 14-15 \xff\x01\x0atSEMI 15-16 ;\x0atIDENTIFIER 17-19 x\xff\x02\x0atSEMI 19-20 ;\x0akELSE 21-25 else\x0atSEMI 25-26 ;\x0atIDENTIFIER 27-29 y\xff\x03\x0atSEMI 29-30 ;\x0akEND 31-34 end\x0aEOF 34-34 " },
    Rec { t: b"case; when \xffd; x\xffa; else; y\xffa; end", shape: b"(case when_bodies=[(when patterns=[(int value=\x22\xff\x00\x22)] body=(send method_name=\x22x\xff\x01\x22 args=[]))] else_body=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(case when_bodies=[(when patterns=[(int value=\x22\xff\x00\x22 expression=11-12)] body=(send method_name=\x22x\xff\x01\x22 args=[] selector=14-16 expression=14-16) keyword=6-10 begin=12-13 expression=6-16)] else_body=(send method_name=\x22y\xff\x02\x22 args=[] selector=24-26 expression=24-26) keyword=0-4 else=18-22 end=28-31 expression=0-31)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atSEMI 4-5 ;\x0akWHEN 6-10 when\x0atINTEGER 11-12 \xff\x00\x0atSEMI 12-13 ;\x0atIDENTIFIER 14-16 x\xff\x01\x0atSEMI 16-17 ;\x0akELSE 18-22 else\x0atSEMI 22-23 ;\x0atIDENTIFIER 24-26 y\xff\x02\x0atSEMI 26-27 ;\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"case v\xffa; when \xffd then x\xffa; else; y\xffa; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22)] body=(send method_name=\x22x\xff\x02\x22 args=[]))] else_body=(send method_name=\x22y\xff\x03\x22 args=[]))", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22 expression=14-15)] body=(send method_name=\x22x\xff\x02\x22 args=[] selector=21-23 expression=21-23) keyword=9-13 begin=16-20 expression=9-23)] else_body=(send method_name=\x22y\xff\x03\x22 args=[] selector=31-33 expression=31-33) keyword=0-4 else=25-29 end=35-38 expression=0-38)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atINTEGER 14-15 \xff\x01\x0akTHEN 16-20 then\x0atIDENTIFIER 21-23 x\xff\x02\x0atSEMI 23-24 ;\x0akELSE 25-29 else\x0atSEMI 29-30 ;\x0atIDENTIFIER 31-33 y\xff\x03\x0atSEMI 33-34 ;\x0akEND 35-38 end\x0aEOF 38-38 " },
    Rec { t: b"case v\xffa; in \xffd; x\xffa; else; y\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22) body=(send method_name=\x22x\xff\x02\x22 args=[]))] else_body=(send method_name=\x22y\xff\x03\x22 args=[]))", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22 expression=12-13) body=(send method_name=\x22x\xff\x02\x22 args=[] selector=15-17 expression=15-17) keyword=9-11 begin=13-14 expression=9-17)] else_body=(send method_name=\x22y\xff\x03\x22 args=[] selector=25-27 expression=25-27) keyword=0-4 else=19-23 end=29-32 expression=0-32)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atINTEGER 12-13 \xff\x01\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 x\xff\x02\x0atSEMI 17-18 ;\x0akELSE 19-23 else\x0atSEMI 23-24 ;\x0atIDENTIFIER 25-27 y\xff\x03\x0atSEMI 27-28 ;\x0akEND 29-32 end\x0aEOF 32-32 " },
    Rec { t: b"case v\xffa; in \xffd then x\xffa; else; y\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22) body=(send method_name=\x22x\xff\x02\x22 args=[]))] else_body=(send method_name=\x22y\xff\x03\x22 args=[]))", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22 expression=12-13) body=(send method_name=\x22x\xff\x02\x22 args=[] selector=19-21 expression=19-21) keyword=9-11 begin=14-18 expression=9-21)] else_body=(send method_name=\x22y\xff\x03\x22 args=[] selector=29-31 expression=29-31) keyword=0-4 else=23-27 end=33-36 expression=0-36)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atINTEGER 12-13 \xff\x01\x0akTHEN 14-18 then\x0atIDENTIFIER 19-21 x\xff\x02\x0atSEMI 21-22 ;\x0akELSE 23-27 else\x0atSEMI 27-28 ;\x0atIDENTIFIER 29-31 y\xff\x03\x0atSEMI 31-32 ;\x0akEND 33-36 end\x0aEOF 36-36 " },
    Rec { t: b"case v\xffa; when \xffd; x\xffa; when \xffd, \xffd; x\xfe\x02; else; y\xffa; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22)] body=(send method_name=\x22x\xff\x02\x22 args=[])) (when patterns=[(int value=\x22\xff\x03\x22) (int value=\x22\xff\x04\x22)] body=(send method_name=\x22x\xff\x02\x22 args=[]))] else_body=(send method_name=\x22y\xff\x05\x22 args=[]))", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22 expression=14-15)] body=(send method_name=\x22x\xff\x02\x22 args=[] selector=17-19 expression=17-19) keyword=9-13 begin=15-16 expression=9-19) (when patterns=[(int value=\x22\xff\x03\x22 expression=26-27) (int value=\x22\xff\x04\x22 expression=29-30)] body=(send method_name=\x22x\xff\x02\x22 args=[] selector=32-34 expression=32-34) keyword=21-25 begin=30-31 expression=21-34)] else_body=(send method_name=\x22y\xff\x05\x22 args=[] selector=42-44 expression=42-44) keyword=0-4 else=36-40 end=46-49 expression=0-49)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atINTEGER 14-15 \xff\x01\x0atSEMI 15-16 ;\x0atIDENTIFIER 17-19 x\xff\x02\x0atSEMI 19-20 ;\x0akWHEN 21-25 when\x0atINTEGER 26-27 \xff\x03\x0atCOMMA 27-28 ,\x0atINTEGER 29-30 \xff\x04\x0atSEMI 30-31 ;\x0atIDENTIFIER 32-34 x\xff\x02\x0atSEMI 34-35 ;\x0akELSE 36-40 else\x0atSEMI 40-41 ;\x0atIDENTIFIER 42-44 y\xff\x05\x0atSEMI 44-45 ;\x0akEND 46-49 end\x0aEOF 49-49 " },
    Rec { t: b"case v\xffa; in \xffd; x\xffa; in \xffd | \xffd; x\xfe\x02; else; yo; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22) body=(send method_name=\x22x\xff\x02\x22 args=[])) (in_pattern pattern=(match_alt lhs=(int value=\x22\xff\x03\x22) rhs=(int value=\x22\xff\x04\x22)) body=(send method_name=\x22x\xff\x02\x22 args=[]))] else_body=(send method_name=\x22yo\x22 args=[]))", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22 expression=12-13) body=(send method_name=\x22x\xff\x02\x22 args=[] selector=15-17 expression=15-17) keyword=9-11 begin=13-14 expression=9-17) (in_pattern pattern=(match_alt lhs=(int value=\x22\xff\x03\x22 expression=22-23) rhs=(int value=\x22\xff\x04\x22 expression=26-27) operator=24-25 expression=22-27) body=(send method_name=\x22x\xff\x02\x22 args=[] selector=29-31 expression=29-31) keyword=19-21 begin=27-28 expression=19-31)] else_body=(send method_name=\x22yo\x22 args=[] selector=39-41 expression=39-41) keyword=0-4 else=33-37 end=43-46 expression=0-46)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atINTEGER 12-13 \xff\x01\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 x\xff\x02\x0atSEMI 17-18 ;\x0akIN 19-21 in\x0atINTEGER 22-23 \xff\x03\x0atPIPE 24-25 |\x0atINTEGER 26-27 \xff\x04\x0atSEMI 27-28 ;\x0atIDENTIFIER 29-31 x\xff\x02\x0atSEMI 31-32 ;\x0akELSE 33-37 else\x0atSEMI 37-38 ;\x0atIDENTIFIER 39-41 yo\x0atSEMI 41-42 ;\x0akEND 43-46 end\x0aEOF 46-46 " },
    Rec { t: b"case v\xffa\x0awhen \xffd\x0awhen \xffd\x0ax\xffa\x0aend", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22)]) (when patterns=[(int value=\x22\xff\x02\x22)] body=(send method_name=\x22x\xff\x03\x22 args=[]))])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22 expression=13-14)] keyword=8-12 begin=14-15 expression=8-14) (when patterns=[(int value=\x22\xff\x02\x22 expression=20-21)] body=(send method_name=\x22x\xff\x03\x22 args=[] selector=22-24 expression=22-24) keyword=15-19 begin=21-22 expression=15-24)] keyword=0-4 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atNL 7-8 \x0a\x0akWHEN 8-12 when\x0atINTEGER 13-14 \xff\x01\x0atNL 14-15 \x0a\x0akWHEN 15-19 when\x0atINTEGER 20-21 \xff\x02\x0atNL 21-22 \x0a\x0atIDENTIFIER 22-24 x\xff\x03\x0atNL 24-25 \x0a\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"case v\xffa\x0a\x0awhen \xffd\x0aend", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22)])])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22 expression=14-15)] keyword=9-13 begin=15-16 expression=9-15)] keyword=0-4 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atNL 7-8 \x0a\x0akWHEN 9-13 when\x0atINTEGER 14-15 \xff\x01\x0atNL 15-16 \x0a\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"case\x0awhen v\xffa, x\xffa then y\xffa\x0aend", shape: b"(case when_bodies=[(when patterns=[(send method_name=\x22v\xff\x00\x22 args=[]) (send method_name=\x22x\xff\x01\x22 args=[])] body=(send method_name=\x22y\xff\x02\x22 args=[]))])", full: b"(case when_bodies=[(when patterns=[(send method_name=\x22v\xff\x00\x22 args=[] selector=10-12 expression=10-12) (send method_name=\x22x\xff\x01\x22 args=[] selector=14-16 expression=14-16)] body=(send method_name=\x22y\xff\x02\x22 args=[] selector=22-24 expression=22-24) keyword=5-9 begin=17-21 expression=5-24)] keyword=0-4 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akCASE 0-4 case\x0akWHEN 5-9 when\x0atIDENTIFIER 10-12 v\xff\x00\x0atCOMMA 12-13 ,\x0atIDENTIFIER 14-16 x\xff\x01\x0akTHEN 17-21 then\x0atIDENTIFIER 22-24 y\xff\x02\x0atNL 24-25 \x0a\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"case v\xffa; when *x\xffa; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[]))])])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[] selector=15-17 expression=15-17) operator=14-15 expression=14-17)] keyword=9-13 begin=17-18 expression=9-17)] keyword=0-4 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atSTAR 14-15 *\x0atIDENTIFIER 15-17 x\xff\x01\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"case v\xffa; when \xffd, *x\xffa, \xffd; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22) (splat value=(send method_name=\x22x\xff\x02\x22 args=[])) (int value=\x22\xff\x03\x22)])])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22 expression=14-15) (splat value=(send method_name=\x22x\xff\x02\x22 args=[] selector=18-20 expression=18-20) operator=17-18 expression=17-20) (int value=\x22\xff\x03\x22 expression=22-23)] keyword=9-13 begin=23-24 expression=9-23)] keyword=0-4 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atINTEGER 14-15 \xff\x01\x0atCOMMA 15-16 ,\x0atSTAR 17-18 *\x0atIDENTIFIER 18-20 x\xff\x02\x0atCOMMA 20-21 ,\x0atINTEGER 22-23 \xff\x03\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"case v\xffa; when *x\xffa, *y\xffa; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[])) (splat value=(send method_name=\x22y\xff\x02\x22 args=[]))])])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[] selector=15-17 expression=15-17) operator=14-15 expression=14-17) (splat value=(send method_name=\x22y\xff\x02\x22 args=[] selector=20-22 expression=20-22) operator=19-20 expression=19-22)] keyword=9-13 begin=22-23 expression=9-22)] keyword=0-4 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atSTAR 14-15 *\x0atIDENTIFIER 15-17 x\xff\x01\x0atCOMMA 17-18 ,\x0atSTAR 19-20 *\x0atIDENTIFIER 20-22 y\xff\x02\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"case v\xffa; when x\xffa, \xffd then\x0ay\xffa\x0aend", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(send method_name=\x22x\xff\x01\x22 args=[]) (int value=\x22\xff\x02\x22)] body=(send method_name=\x22y\xff\x03\x22 args=[]))])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(send method_name=\x22x\xff\x01\x22 args=[] selector=14-16 expression=14-16) (int value=\x22\xff\x02\x22 expression=18-19)] body=(send method_name=\x22y\xff\x03\x22 args=[] selector=25-27 expression=25-27) keyword=9-13 begin=20-24 expression=9-27)] keyword=0-4 end=28-31 expression=0-31)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atIDENTIFIER 14-16 x\xff\x01\x0atCOMMA 16-17 ,\x0atINTEGER 18-19 \xff\x02\x0akTHEN 20-24 then\x0atIDENTIFIER 25-27 y\xff\x03\x0atNL 27-28 \x0a\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"case v\xffa; when \xffd; x\xffa; y\xffa; else; z\xffa; k\xffa; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22)] body=(begin statements=[(send method_name=\x22x\xff\x02\x22 args=[]) (send method_name=\x22y\xff\x03\x22 args=[])]))] else_body=(begin statements=[(send method_name=\x22z\xff\x04\x22 args=[]) (send method_name=\x22k\xff\x05\x22 args=[])]))", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22 expression=14-15)] body=(begin statements=[(send method_name=\x22x\xff\x02\x22 args=[] selector=17-19 expression=17-19) (send method_name=\x22y\xff\x03\x22 args=[] selector=21-23 expression=21-23)] expression=17-23) keyword=9-13 begin=15-16 expression=9-23)] else_body=(begin statements=[(send method_name=\x22z\xff\x04\x22 args=[] selector=31-33 expression=31-33) (send method_name=\x22k\xff\x05\x22 args=[] selector=35-37 expression=35-37)] expression=31-37) keyword=0-4 else=25-29 end=39-42 expression=0-42)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atINTEGER 14-15 \xff\x01\x0atSEMI 15-16 ;\x0atIDENTIFIER 17-19 x\xff\x02\x0atSEMI 19-20 ;\x0atIDENTIFIER 21-23 y\xff\x03\x0atSEMI 23-24 ;\x0akELSE 25-29 else\x0atSEMI 29-30 ;\x0atIDENTIFIER 31-33 z\xff\x04\x0atSEMI 33-34 ;\x0atIDENTIFIER 35-37 k\xff\x05\x0atSEMI 37-38 ;\x0akEND 39-42 end\x0aEOF 42-42 " },
    Rec { t: b"case (v\xffa); when \xffd; end", shape: b"(case expr=(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])]) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22)])])", full: b"(case expr=(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8)] begin=5-6 end=8-9 expression=5-9) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22 expression=16-17)] keyword=11-15 begin=17-18 expression=11-17)] keyword=0-4 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atLPAREN 5-6 (\x0atIDENTIFIER 6-8 v\xff\x00\x0atRPAREN 8-9 )\x0atSEMI 9-10 ;\x0akWHEN 11-15 when\x0atINTEGER 16-17 \xff\x01\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"case v\xffa x\xffa; when \xffd; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])]) when_bodies=[(when patterns=[(int value=\x22\xff\x02\x22)])])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=8-10 expression=8-10)] selector=5-7 expression=5-10) when_bodies=[(when patterns=[(int value=\x22\xff\x02\x22 expression=17-18)] keyword=12-16 begin=18-19 expression=12-18)] keyword=0-4 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atIDENTIFIER 8-10 x\xff\x01\x0atSEMI 10-11 ;\x0akWHEN 12-16 when\x0atINTEGER 17-18 \xff\x02\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"case v\xffa; when -> { }; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(block call=(lambda))])])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(block call=(lambda expression=14-16) begin=17-18 end=19-20 expression=14-20)] keyword=9-13 begin=20-21 expression=9-20)] keyword=0-4 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atLAMBDA 14-16 ->\x0atLAMBEG 17-18 {\x0atRCURLY 19-20 }\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"case v\xffa; when /\xfft/, V\xffa::X\xffa, nil; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(regexp parts=[(str value=\x22\xff\x01\x22)]) (const scope=(const name=\x22V\xff\x02\x22) name=\x22X\xff\x03\x22) (nil)])])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(regexp parts=[(str value=\x22\xff\x01\x22 expression=15-16)] begin=14-15 end=16-17 expression=14-17) (const scope=(const name=\x22V\xff\x02\x22 name=19-21 expression=19-21) name=\x22X\xff\x03\x22 double_colon=21-23 name=23-25 expression=19-25) (nil expression=27-30)] keyword=9-13 begin=30-31 expression=9-30)] keyword=0-4 end=32-35 expression=0-35)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atREGEXP_BEG 14-15 /\x0atSTRING_CONTENT 15-16 \xff\x01\x0atREGEXP_END 16-17 /\x0atCOMMA 17-18 ,\x0atCONSTANT 19-21 V\xff\x02\x0atCOLON2 21-23 ::\x0atCONSTANT 23-25 X\xff\x03\x0atCOMMA 25-26 ,\x0akNIL 27-30 nil\x0atSEMI 30-31 ;\x0akEND 32-35 end\x0aEOF 35-35 " },
    Rec { t: b"case v\xffa = x\xffa; when \xffd; end", shape: b"(case expr=(lvasgn name=\x22v\xff\x00\x22 value=(send method_name=\x22x\xff\x01\x22 args=[])) when_bodies=[(when patterns=[(int value=\x22\xff\x02\x22)])])", full: b"(case expr=(lvasgn name=\x22v\xff\x00\x22 value=(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12) name=5-7 operator=8-9 expression=5-12) when_bodies=[(when patterns=[(int value=\x22\xff\x02\x22 expression=19-20)] keyword=14-18 begin=20-21 expression=14-20)] keyword=0-4 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atEQL 8-9 =\x0atIDENTIFIER 10-12 x\xff\x01\x0atSEMI 12-13 ;\x0akWHEN 14-18 when\x0atINTEGER 19-20 \xff\x02\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"begin; ensure; z\xffa; end", shape: b"(kw_begin statements=[(ensure ensure=(send method_name=\x22z\xff\x00\x22 args=[]))])", full: b"(kw_begin statements=[(ensure ensure=(send method_name=\x22z\xff\x00\x22 args=[] selector=15-17 expression=15-17) keyword=7-13 expression=7-17)] begin=0-5 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akENSURE 7-13 ensure\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 z\xff\x00\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"begin; rescue; ensure; end", shape: b"(kw_begin statements=[(ensure body=(rescue rescue_bodies=[(rescue_body)]))])", full: b"(kw_begin statements=[(ensure body=(rescue rescue_bodies=[(rescue_body keyword=7-13 begin=13-14 expression=7-14)] expression=7-14) keyword=15-21 expression=7-21)] begin=0-5 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akRESCUE 7-13 rescue\x0atSEMI 13-14 ;\x0akENSURE 15-21 ensure\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"begin; rescue; ensure; z\xffa; end", shape: b"(kw_begin statements=[(ensure body=(rescue rescue_bodies=[(rescue_body)]) ensure=(send method_name=\x22z\xff\x00\x22 args=[]))])", full: b"(kw_begin statements=[(ensure body=(rescue rescue_bodies=[(rescue_body keyword=7-13 begin=13-14 expression=7-14)] expression=7-14) ensure=(send method_name=\x22z\xff\x00\x22 args=[] selector=23-25 expression=23-25) keyword=15-21 expression=7-25)] begin=0-5 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akRESCUE 7-13 rescue\x0atSEMI 13-14 ;\x0akENSURE 15-21 ensure\x0atSEMI 21-22 ;\x0atIDENTIFIER 23-25 z\xff\x00\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"begin; rescue; else; end", shape: b"(kw_begin statements=[(rescue rescue_bodies=[(rescue_body)])])", full: b"(kw_begin statements=[(rescue rescue_bodies=[(rescue_body keyword=7-13 begin=13-14 expression=7-14)] else=15-19 expression=7-19)] begin=0-5 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akRESCUE 7-13 rescue\x0atSEMI 13-14 ;\x0akELSE 15-19 else\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"begin; rescue; else; ensure; end", shape: b"(kw_begin statements=[(ensure body=(rescue rescue_bodies=[(rescue_body)]))])", full: b"(kw_begin statements=[(ensure body=(rescue rescue_bodies=[(rescue_body keyword=7-13 begin=13-14 expression=7-14)] else=15-19 expression=7-19) keyword=21-27 expression=7-27)] begin=0-5 end=29-32 expression=0-32)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akRESCUE 7-13 rescue\x0atSEMI 13-14 ;\x0akELSE 15-19 else\x0atSEMI 19-20 ;\x0akENSURE 21-27 ensure\x0atSEMI 27-28 ;\x0akEND 29-32 end\x0aEOF 32-32 " },
    Rec { t: b"begin; rescue; else; ensure; z\xffa; end", shape: b"(kw_begin statements=[(ensure body=(rescue rescue_bodies=[(rescue_body)]) ensure=(send method_name=\x22z\xff\x00\x22 args=[]))])", full: b"(kw_begin statements=[(ensure body=(rescue rescue_bodies=[(rescue_body keyword=7-13 begin=13-14 expression=7-14)] else=15-19 expression=7-19) ensure=(send method_name=\x22z\xff\x00\x22 args=[] selector=29-31 expression=29-31) keyword=21-27 expression=7-31)] begin=0-5 end=33-36 expression=0-36)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akRESCUE 7-13 rescue\x0atSEMI 13-14 ;\x0akELSE 15-19 else\x0atSEMI 19-20 ;\x0akENSURE 21-27 ensure\x0atSEMI 27-28 ;\x0atIDENTIFIER 29-31 z\xff\x00\x0atSEMI 31-32 ;\x0akEND 33-36 end\x0aEOF 36-36 " },
    Rec { t: b"begin; rescue; else; y\xffa; end", shape: b"(kw_begin statements=[(rescue rescue_bodies=[(rescue_body)] else_=(send method_name=\x22y\xff\x00\x22 args=[]))])", full: b"(kw_begin statements=[(rescue rescue_bodies=[(rescue_body keyword=7-13 begin=13-14 expression=7-14)] else_=(send method_name=\x22y\xff\x00\x22 args=[] selector=21-23 expression=21-23) else=15-19 expression=7-23)] begin=0-5 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akRESCUE 7-13 rescue\x0atSEMI 13-14 ;\x0akELSE 15-19 else\x0atSEMI 19-20 ;\x0atIDENTIFIER 21-23 y\xff\x00\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"begin; rescue; else; y\xffa; ensure; end", shape: b"(kw_begin statements=[(ensure body=(rescue rescue_bodies=[(rescue_body)] else_=(send method_name=\x22y\xff\x00\x22 args=[])))])", full: b"(kw_begin statements=[(ensure body=(rescue rescue_bodies=[(rescue_body keyword=7-13 begin=13-14 expression=7-14)] else_=(send method_name=\x22y\xff\x00\x22 args=[] selector=21-23 expression=21-23) else=15-19 expression=7-23) keyword=25-31 expression=7-31)] begin=0-5 end=33-36 expression=0-36)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akRESCUE 7-13 rescue\x0atSEMI 13-14 ;\x0akELSE 15-19 else\x0atSEMI 19-20 ;\x0atIDENTIFIER 21-23 y\xff\x00\x0atSEMI 23-24 ;\x0akENSURE 25-31 ensure\x0atSEMI 31-32 ;\x0akEND 33-36 end\x0aEOF 36-36 " },
    Rec { t: b"begin; rescue; else; y\xffa; ensure; z\xffa; end", shape: b"(kw_begin statements=[(ensure body=(rescue rescue_bodies=[(rescue_body)] else_=(send method_name=\x22y\xff\x00\x22 args=[])) ensure=(send method_name=\x22z\xff\x01\x22 args=[]))])", full: b"(kw_begin statements=[(ensure body=(rescue rescue_bodies=[(rescue_body keyword=7-13 begin=13-14 expression=7-14)] else_=(send method_name=\x22y\xff\x00\x22 args=[] selector=21-23 expression=21-23) else=15-19 expression=7-23) ensure=(send method_name=\x22z\xff\x01\x22 args=[] selector=33-35 expression=33-35) keyword=25-31 expression=7-35)] begin=0-5 end=37-40 expression=0-40)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akRESCUE 7-13 rescue\x0atSEMI 13-14 ;\x0akELSE 15-19 else\x0atSEMI 19-20 ;\x0atIDENTIFIER 21-23 y\xff\x00\x0atSEMI 23-24 ;\x0akENSURE 25-31 ensure\x0atSEMI 31-32 ;\x0atIDENTIFIER 33-35 z\xff\x01\x0atSEMI 35-36 ;\x0akEND 37-40 end\x0aEOF 40-40 " },
    Rec { t: b"begin; rescue; x\xffa; end", shape: b"(kw_begin statements=[(rescue rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x00\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x00\x22 args=[] selector=15-17 expression=15-17) keyword=7-13 begin=13-14 expression=7-17)] expression=7-17)] begin=0-5 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akRESCUE 7-13 rescue\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 x\xff\x00\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"begin; rescue; x\xffa; ensure; end", shape: b"(kw_begin statements=[(ensure body=(rescue rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x00\x22 args=[]))]))])", full: b"(kw_begin statements=[(ensure body=(rescue rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x00\x22 args=[] selector=15-17 expression=15-17) keyword=7-13 begin=13-14 expression=7-17)] expression=7-17) keyword=19-25 expression=7-25)] begin=0-5 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akRESCUE 7-13 rescue\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 x\xff\x00\x0atSEMI 17-18 ;\x0akENSURE 19-25 ensure\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"begin; rescue; x\xffa; ensure; z\xffa; end", shape: b"(kw_begin statements=[(ensure body=(rescue rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x00\x22 args=[]))]) ensure=(send method_name=\x22z\xff\x01\x22 args=[]))])", full: b"(kw_begin statements=[(ensure body=(rescue rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x00\x22 args=[] selector=15-17 expression=15-17) keyword=7-13 begin=13-14 expression=7-17)] expression=7-17) ensure=(send method_name=\x22z\xff\x01\x22 args=[] selector=27-29 expression=27-29) keyword=19-25 expression=7-29)] begin=0-5 end=31-34 expression=0-34)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akRESCUE 7-13 rescue\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 x\xff\x00\x0atSEMI 17-18 ;\x0akENSURE 19-25 ensure\x0atSEMI 25-26 ;\x0atIDENTIFIER 27-29 z\xff\x01\x0atSEMI 29-30 ;\x0akEND 31-34 end\x0aEOF 34-34 " },
    Rec { t: b"begin; rescue; x\xffa; else; end", shape: b"(kw_begin statements=[(rescue rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x00\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x00\x22 args=[] selector=15-17 expression=15-17) keyword=7-13 begin=13-14 expression=7-17)] else=19-23 expression=7-23)] begin=0-5 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akRESCUE 7-13 rescue\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 x\xff\x00\x0atSEMI 17-18 ;\x0akELSE 19-23 else\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"begin; rescue; x\xffa; else; ensure; end", shape: b"(kw_begin statements=[(ensure body=(rescue rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x00\x22 args=[]))]))])", full: b"(kw_begin statements=[(ensure body=(rescue rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x00\x22 args=[] selector=15-17 expression=15-17) keyword=7-13 begin=13-14 expression=7-17)] else=19-23 expression=7-23) keyword=25-31 expression=7-31)] begin=0-5 end=33-36 expression=0-36)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akRESCUE 7-13 rescue\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 x\xff\x00\x0atSEMI 17-18 ;\x0akELSE 19-23 else\x0atSEMI 23-24 ;\x0akENSURE 25-31 ensure\x0atSEMI 31-32 ;\x0akEND 33-36 end\x0aEOF 36-36 " },
    Rec { t: b"begin; rescue; x\xffa; else; ensure; z\xffa; end", shape: b"(kw_begin statements=[(ensure body=(rescue rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x00\x22 args=[]))]) ensure=(send method_name=\x22z\xff\x01\x22 args=[]))])", full: b"(kw_begin statements=[(ensure body=(rescue rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x00\x22 args=[] selector=15-17 expression=15-17) keyword=7-13 begin=13-14 expression=7-17)] else=19-23 expression=7-23) ensure=(send method_name=\x22z\xff\x01\x22 args=[] selector=33-35 expression=33-35) keyword=25-31 expression=7-35)] begin=0-5 end=37-40 expression=0-40)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akRESCUE 7-13 rescue\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 x\xff\x00\x0atSEMI 17-18 ;\x0akELSE 19-23 else\x0atSEMI 23-24 ;\x0akENSURE 25-31 ensure\x0atSEMI 31-32 ;\x0atIDENTIFIER 33-35 z\xff\x01\x0atSEMI 35-36 ;\x0akEND 37-40 end\x0aEOF 40-40 " },
    Rec { t: b"begin; rescue; x\xffa; else; y\xffa; end", shape: b"(kw_begin statements=[(rescue rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x00\x22 args=[]))] else_=(send method_name=\x22y\xff\x01\x22 args=[]))])", full: b"(kw_begin statements=[(rescue rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x00\x22 args=[] selector=15-17 expression=15-17) keyword=7-13 begin=13-14 expression=7-17)] else_=(send method_name=\x22y\xff\x01\x22 args=[] selector=25-27 expression=25-27) else=19-23 expression=7-27)] begin=0-5 end=29-32 expression=0-32)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akRESCUE 7-13 rescue\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 x\xff\x00\x0atSEMI 17-18 ;\x0akELSE 19-23 else\x0atSEMI 23-24 ;\x0atIDENTIFIER 25-27 y\xff\x01\x0atSEMI 27-28 ;\x0akEND 29-32 end\x0aEOF 32-32 " },
    Rec { t: b"begin; rescue; x\xffa; else; y\xffa; ensure; end", shape: b"(kw_begin statements=[(ensure body=(rescue rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x00\x22 args=[]))] else_=(send method_name=\x22y\xff\x01\x22 args=[])))])", full: b"(kw_begin statements=[(ensure body=(rescue rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x00\x22 args=[] selector=15-17 expression=15-17) keyword=7-13 begin=13-14 expression=7-17)] else_=(send method_name=\x22y\xff\x01\x22 args=[] selector=25-27 expression=25-27) else=19-23 expression=7-27) keyword=29-35 expression=7-35)] begin=0-5 end=37-40 expression=0-40)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akRESCUE 7-13 rescue\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 x\xff\x00\x0atSEMI 17-18 ;\x0akELSE 19-23 else\x0atSEMI 23-24 ;\x0atIDENTIFIER 25-27 y\xff\x01\x0atSEMI 27-28 ;\x0akENSURE 29-35 ensure\x0atSEMI 35-36 ;\x0akEND 37-40 end\x0aEOF 40-40 " },
    Rec { t: b"begin; rescue; x\xffa; else; y\xffa; ensure; z\xffa; end", shape: b"(kw_begin statements=[(ensure body=(rescue rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x00\x22 args=[]))] else_=(send method_name=\x22y\xff\x01\x22 args=[])) ensure=(send method_name=\x22z\xff\x02\x22 args=[]))])", full: b"(kw_begin statements=[(ensure body=(rescue rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x00\x22 args=[] selector=15-17 expression=15-17) keyword=7-13 begin=13-14 expression=7-17)] else_=(send method_name=\x22y\xff\x01\x22 args=[] selector=25-27 expression=25-27) else=19-23 expression=7-27) ensure=(send method_name=\x22z\xff\x02\x22 args=[] selector=37-39 expression=37-39) keyword=29-35 expression=7-39)] begin=0-5 end=41-44 expression=0-44)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akRESCUE 7-13 rescue\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 x\xff\x00\x0atSEMI 17-18 ;\x0akELSE 19-23 else\x0atSEMI 23-24 ;\x0atIDENTIFIER 25-27 y\xff\x01\x0atSEMI 27-28 ;\x0akENSURE 29-35 ensure\x0atSEMI 35-36 ;\x0atIDENTIFIER 37-39 z\xff\x02\x0atSEMI 39-40 ;\x0akEND 41-44 end\x0aEOF 44-44 " },
    Rec { t: b"begin; v\xffa; ensure; z\xffa; end", shape: b"(kw_begin statements=[(ensure body=(send method_name=\x22v\xff\x00\x22 args=[]) ensure=(send method_name=\x22z\xff\x01\x22 args=[]))])", full: b"(kw_begin statements=[(ensure body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) ensure=(send method_name=\x22z\xff\x01\x22 args=[] selector=19-21 expression=19-21) keyword=11-17 expression=7-21)] begin=0-5 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akENSURE 11-17 ensure\x0atSEMI 17-18 ;\x0atIDENTIFIER 19-21 z\xff\x01\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"begin; v\xffa; rescue; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body)])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body keyword=11-17 begin=17-18 expression=11-18)] expression=7-18)] begin=0-5 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"begin; v\xffa; rescue; ensure; end", shape: b"(kw_begin statements=[(ensure body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body)]))])", full: b"(kw_begin statements=[(ensure body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body keyword=11-17 begin=17-18 expression=11-18)] expression=7-18) keyword=19-25 expression=7-25)] begin=0-5 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSEMI 17-18 ;\x0akENSURE 19-25 ensure\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"begin; v\xffa; rescue; ensure; z\xffa; end", shape: b"(kw_begin statements=[(ensure body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body)]) ensure=(send method_name=\x22z\xff\x01\x22 args=[]))])", full: b"(kw_begin statements=[(ensure body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body keyword=11-17 begin=17-18 expression=11-18)] expression=7-18) ensure=(send method_name=\x22z\xff\x01\x22 args=[] selector=27-29 expression=27-29) keyword=19-25 expression=7-29)] begin=0-5 end=31-34 expression=0-34)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSEMI 17-18 ;\x0akENSURE 19-25 ensure\x0atSEMI 25-26 ;\x0atIDENTIFIER 27-29 z\xff\x01\x0atSEMI 29-30 ;\x0akEND 31-34 end\x0aEOF 34-34 " },
    Rec { t: b"begin; v\xffa; rescue; else; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body)])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body keyword=11-17 begin=17-18 expression=11-18)] else=19-23 expression=7-23)] begin=0-5 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSEMI 17-18 ;\x0akELSE 19-23 else\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"begin; v\xffa; rescue; else; ensure; z\xffa; end", shape: b"(kw_begin statements=[(ensure body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body)]) ensure=(send method_name=\x22z\xff\x01\x22 args=[]))])", full: b"(kw_begin statements=[(ensure body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body keyword=11-17 begin=17-18 expression=11-18)] else=19-23 expression=7-23) ensure=(send method_name=\x22z\xff\x01\x22 args=[] selector=33-35 expression=33-35) keyword=25-31 expression=7-35)] begin=0-5 end=37-40 expression=0-40)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSEMI 17-18 ;\x0akELSE 19-23 else\x0atSEMI 23-24 ;\x0akENSURE 25-31 ensure\x0atSEMI 31-32 ;\x0atIDENTIFIER 33-35 z\xff\x01\x0atSEMI 35-36 ;\x0akEND 37-40 end\x0aEOF 40-40 " },
    Rec { t: b"begin; v\xffa; rescue; else; y\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body)] else_=(send method_name=\x22y\xff\x01\x22 args=[]))])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body keyword=11-17 begin=17-18 expression=11-18)] else_=(send method_name=\x22y\xff\x01\x22 args=[] selector=25-27 expression=25-27) else=19-23 expression=7-27)] begin=0-5 end=29-32 expression=0-32)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSEMI 17-18 ;\x0akELSE 19-23 else\x0atSEMI 23-24 ;\x0atIDENTIFIER 25-27 y\xff\x01\x0atSEMI 27-28 ;\x0akEND 29-32 end\x0aEOF 32-32 " },
    Rec { t: b"begin; v\xffa; rescue; else; y\xffa; ensure; end", shape: b"(kw_begin statements=[(ensure body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body)] else_=(send method_name=\x22y\xff\x01\x22 args=[])))])", full: b"(kw_begin statements=[(ensure body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body keyword=11-17 begin=17-18 expression=11-18)] else_=(send method_name=\x22y\xff\x01\x22 args=[] selector=25-27 expression=25-27) else=19-23 expression=7-27) keyword=29-35 expression=7-35)] begin=0-5 end=37-40 expression=0-40)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSEMI 17-18 ;\x0akELSE 19-23 else\x0atSEMI 23-24 ;\x0atIDENTIFIER 25-27 y\xff\x01\x0atSEMI 27-28 ;\x0akENSURE 29-35 ensure\x0atSEMI 35-36 ;\x0akEND 37-40 end\x0aEOF 40-40 " },
    Rec { t: b"begin; v\xffa; rescue; else; y\xffa; ensure; z\xffa; end", shape: b"(kw_begin statements=[(ensure body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body)] else_=(send method_name=\x22y\xff\x01\x22 args=[])) ensure=(send method_name=\x22z\xff\x02\x22 args=[]))])", full: b"(kw_begin statements=[(ensure body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body keyword=11-17 begin=17-18 expression=11-18)] else_=(send method_name=\x22y\xff\x01\x22 args=[] selector=25-27 expression=25-27) else=19-23 expression=7-27) ensure=(send method_name=\x22z\xff\x02\x22 args=[] selector=37-39 expression=37-39) keyword=29-35 expression=7-39)] begin=0-5 end=41-44 expression=0-44)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSEMI 17-18 ;\x0akELSE 19-23 else\x0atSEMI 23-24 ;\x0atIDENTIFIER 25-27 y\xff\x01\x0atSEMI 27-28 ;\x0akENSURE 29-35 ensure\x0atSEMI 35-36 ;\x0atIDENTIFIER 37-39 z\xff\x02\x0atSEMI 39-40 ;\x0akEND 41-44 end\x0aEOF 44-44 " },
    Rec { t: b"begin; v\xffa; rescue; x\xffa; ensure; end", shape: b"(kw_begin statements=[(ensure body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x01\x22 args=[]))]))])", full: b"(kw_begin statements=[(ensure body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x01\x22 args=[] selector=19-21 expression=19-21) keyword=11-17 begin=17-18 expression=11-21)] expression=7-21) keyword=23-29 expression=7-29)] begin=0-5 end=31-34 expression=0-34)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSEMI 17-18 ;\x0atIDENTIFIER 19-21 x\xff\x01\x0atSEMI 21-22 ;\x0akENSURE 23-29 ensure\x0atSEMI 29-30 ;\x0akEND 31-34 end\x0aEOF 34-34 " },
    Rec { t: b"begin; v\xffa; rescue; x\xffa; ensure; z\xffa; end", shape: b"(kw_begin statements=[(ensure body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x01\x22 args=[]))]) ensure=(send method_name=\x22z\xff\x02\x22 args=[]))])", full: b"(kw_begin statements=[(ensure body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x01\x22 args=[] selector=19-21 expression=19-21) keyword=11-17 begin=17-18 expression=11-21)] expression=7-21) ensure=(send method_name=\x22z\xff\x02\x22 args=[] selector=31-33 expression=31-33) keyword=23-29 expression=7-33)] begin=0-5 end=35-38 expression=0-38)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSEMI 17-18 ;\x0atIDENTIFIER 19-21 x\xff\x01\x0atSEMI 21-22 ;\x0akENSURE 23-29 ensure\x0atSEMI 29-30 ;\x0atIDENTIFIER 31-33 z\xff\x02\x0atSEMI 33-34 ;\x0akEND 35-38 end\x0aEOF 38-38 " },
    Rec { t: b"begin; v\xffa; rescue; x\xffa; else; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x01\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x01\x22 args=[] selector=19-21 expression=19-21) keyword=11-17 begin=17-18 expression=11-21)] else=23-27 expression=7-27)] begin=0-5 end=29-32 expression=0-32)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSEMI 17-18 ;\x0atIDENTIFIER 19-21 x\xff\x01\x0atSEMI 21-22 ;\x0akELSE 23-27 else\x0atSEMI 27-28 ;\x0akEND 29-32 end\x0aEOF 32-32 " },
    Rec { t: b"begin; v\xffa; rescue; x\xffa; else; ensure; end", shape: b"(kw_begin statements=[(ensure body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x01\x22 args=[]))]))])", full: b"(kw_begin statements=[(ensure body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x01\x22 args=[] selector=19-21 expression=19-21) keyword=11-17 begin=17-18 expression=11-21)] else=23-27 expression=7-27) keyword=29-35 expression=7-35)] begin=0-5 end=37-40 expression=0-40)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSEMI 17-18 ;\x0atIDENTIFIER 19-21 x\xff\x01\x0atSEMI 21-22 ;\x0akELSE 23-27 else\x0atSEMI 27-28 ;\x0akENSURE 29-35 ensure\x0atSEMI 35-36 ;\x0akEND 37-40 end\x0aEOF 40-40 " },
    Rec { t: b"begin; v\xffa; rescue; x\xffa; else; ensure; z\xffa; end", shape: b"(kw_begin statements=[(ensure body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x01\x22 args=[]))]) ensure=(send method_name=\x22z\xff\x02\x22 args=[]))])", full: b"(kw_begin statements=[(ensure body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x01\x22 args=[] selector=19-21 expression=19-21) keyword=11-17 begin=17-18 expression=11-21)] else=23-27 expression=7-27) ensure=(send method_name=\x22z\xff\x02\x22 args=[] selector=37-39 expression=37-39) keyword=29-35 expression=7-39)] begin=0-5 end=41-44 expression=0-44)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSEMI 17-18 ;\x0atIDENTIFIER 19-21 x\xff\x01\x0atSEMI 21-22 ;\x0akELSE 23-27 else\x0atSEMI 27-28 ;\x0akENSURE 29-35 ensure\x0atSEMI 35-36 ;\x0atIDENTIFIER 37-39 z\xff\x02\x0atSEMI 39-40 ;\x0akEND 41-44 end\x0aEOF 44-44 " },
    Rec { t: b"begin; v\xffa; rescue; x\xffa; else; y\xffa; ensure; end", shape: b"(kw_begin statements=[(ensure body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x01\x22 args=[]))] else_=(send method_name=\x22y\xff\x02\x22 args=[])))])", full: b"(kw_begin statements=[(ensure body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x01\x22 args=[] selector=19-21 expression=19-21) keyword=11-17 begin=17-18 expression=11-21)] else_=(send method_name=\x22y\xff\x02\x22 args=[] selector=29-31 expression=29-31) else=23-27 expression=7-31) keyword=33-39 expression=7-39)] begin=0-5 end=41-44 expression=0-44)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSEMI 17-18 ;\x0atIDENTIFIER 19-21 x\xff\x01\x0atSEMI 21-22 ;\x0akELSE 23-27 else\x0atSEMI 27-28 ;\x0atIDENTIFIER 29-31 y\xff\x02\x0atSEMI 31-32 ;\x0akENSURE 33-39 ensure\x0atSEMI 39-40 ;\x0akEND 41-44 end\x0aEOF 44-44 " },
    Rec { t: b"begin; v\xffa; rescue; x\xffa; else; y\xffa; ensure; z\xffa; end", shape: b"(kw_begin statements=[(ensure body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x01\x22 args=[]))] else_=(send method_name=\x22y\xff\x02\x22 args=[])) ensure=(send method_name=\x22z\xff\x03\x22 args=[]))])", full: b"(kw_begin statements=[(ensure body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x01\x22 args=[] selector=19-21 expression=19-21) keyword=11-17 begin=17-18 expression=11-21)] else_=(send method_name=\x22y\xff\x02\x22 args=[] selector=29-31 expression=29-31) else=23-27 expression=7-31) ensure=(send method_name=\x22z\xff\x03\x22 args=[] selector=41-43 expression=41-43) keyword=33-39 expression=7-43)] begin=0-5 end=45-48 expression=0-48)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSEMI 17-18 ;\x0atIDENTIFIER 19-21 x\xff\x01\x0atSEMI 21-22 ;\x0akELSE 23-27 else\x0atSEMI 27-28 ;\x0atIDENTIFIER 29-31 y\xff\x02\x0atSEMI 31-32 ;\x0akENSURE 33-39 ensure\x0atSEMI 39-40 ;\x0atIDENTIFIER 41-43 z\xff\x03\x0atSEMI 43-44 ;\x0akEND 45-48 end\x0aEOF 48-48 " },
    Rec { t: b"begin; v\xffa; rescue V\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22)]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22 name=18-20 expression=18-20)] expression=18-20) keyword=11-17 begin=20-21 expression=11-21)] expression=7-21)] begin=0-5 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atCONSTANT 18-20 V\xff\x01\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"begin; v\xffa; rescue V\xffa, X\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22) (const name=\x22X\xff\x02\x22)]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22 name=18-20 expression=18-20) (const name=\x22X\xff\x02\x22 name=22-24 expression=22-24)] expression=18-24) keyword=11-17 begin=24-25 expression=11-25)] expression=7-25)] begin=0-5 end=26-29 expression=0-29)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atCONSTANT 18-20 V\xff\x01\x0atCOMMA 20-21 ,\x0atCONSTANT 22-24 X\xff\x02\x0atSEMI 24-25 ;\x0akEND 26-29 end\x0aEOF 29-29 " },
    Rec { t: b"begin; v\xffa; rescue V\xffa => x\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22)]) exc_var=(lvasgn name=\x22x\xff\x02\x22))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22 name=18-20 expression=18-20)] expression=18-20) exc_var=(lvasgn name=\x22x\xff\x02\x22 name=24-26 expression=24-26) keyword=11-17 assoc=21-23 begin=26-27 expression=11-27)] expression=7-27)] begin=0-5 end=28-31 expression=0-31)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atCONSTANT 18-20 V\xff\x01\x0atASSOC 21-23 =>\x0atIDENTIFIER 24-26 x\xff\x02\x0atSEMI 26-27 ;\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"begin; v\xffa; rescue V\xffa, X\xffa => x\xffa; y\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22) (const name=\x22X\xff\x02\x22)]) exc_var=(lvasgn name=\x22x\xff\x03\x22) body=(send method_name=\x22y\xff\x04\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22 name=18-20 expression=18-20) (const name=\x22X\xff\x02\x22 name=22-24 expression=22-24)] expression=18-24) exc_var=(lvasgn name=\x22x\xff\x03\x22 name=28-30 expression=28-30) body=(send method_name=\x22y\xff\x04\x22 args=[] selector=32-34 expression=32-34) keyword=11-17 assoc=25-27 begin=30-31 expression=11-34)] expression=7-34)] begin=0-5 end=36-39 expression=0-39)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atCONSTANT 18-20 V\xff\x01\x0atCOMMA 20-21 ,\x0atCONSTANT 22-24 X\xff\x02\x0atASSOC 25-27 =>\x0atIDENTIFIER 28-30 x\xff\x03\x0atSEMI 30-31 ;\x0atIDENTIFIER 32-34 y\xff\x04\x0atSEMI 34-35 ;\x0akEND 36-39 end\x0aEOF 39-39 " },
    Rec { t: b"begin; v\xffa; rescue *x\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[]))]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_list=(array elements=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[] selector=19-21 expression=19-21) operator=18-19 expression=18-21)] expression=18-21) keyword=11-17 begin=21-22 expression=11-22)] expression=7-22)] begin=0-5 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSTAR 18-19 *\x0atIDENTIFIER 19-21 x\xff\x01\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"begin; v\xffa; rescue V\xffa, *x\xffa => y\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22) (splat value=(send method_name=\x22x\xff\x02\x22 args=[]))]) exc_var=(lvasgn name=\x22y\xff\x03\x22))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22 name=18-20 expression=18-20) (splat value=(send method_name=\x22x\xff\x02\x22 args=[] selector=23-25 expression=23-25) operator=22-23 expression=22-25)] expression=18-25) exc_var=(lvasgn name=\x22y\xff\x03\x22 name=29-31 expression=29-31) keyword=11-17 assoc=26-28 begin=31-32 expression=11-32)] expression=7-32)] begin=0-5 end=33-36 expression=0-36)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atCONSTANT 18-20 V\xff\x01\x0atCOMMA 20-21 ,\x0atSTAR 22-23 *\x0atIDENTIFIER 23-25 x\xff\x02\x0atASSOC 26-28 =>\x0atIDENTIFIER 29-31 y\xff\x03\x0atSEMI 31-32 ;\x0akEND 33-36 end\x0aEOF 36-36 " },
    Rec { t: b"begin; v\xffa; rescue => @x\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_var=(ivasgn name=\x22@x\xff\x01\x22))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_var=(ivasgn name=\x22@x\xff\x01\x22 name=21-24 expression=21-24) keyword=11-17 assoc=18-20 begin=24-25 expression=11-25)] expression=7-25)] begin=0-5 end=26-29 expression=0-29)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atASSOC 18-20 =>\x0atIVAR 21-24 @x\xff\x01\x0atSEMI 24-25 ;\x0akEND 26-29 end\x0aEOF 29-29 " },
    Rec { t: b"begin; v\xffa; rescue => x\xffa.y\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_var=(send recv=(send method_name=\x22x\xff\x01\x22 args=[]) method_name=\x22y\xff\x02=\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_var=(send recv=(send method_name=\x22x\xff\x01\x22 args=[] selector=21-23 expression=21-23) method_name=\x22y\xff\x02=\x22 args=[] dot=23-24 selector=24-26 expression=21-26) keyword=11-17 assoc=18-20 begin=26-27 expression=11-27)] expression=7-27)] begin=0-5 end=28-31 expression=0-31)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atASSOC 18-20 =>\x0atIDENTIFIER 21-23 x\xff\x01\x0atDOT 23-24 .\x0atIDENTIFIER 24-26 y\xff\x02\x0atSEMI 26-27 ;\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"begin; v\xffa; rescue => x\xffa[\xffd]; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_var=(index_asgn recv=(send method_name=\x22x\xff\x01\x22 args=[]) indexes=[(int value=\x22\xff\x02\x22)]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_var=(index_asgn recv=(send method_name=\x22x\xff\x01\x22 args=[] selector=21-23 expression=21-23) indexes=[(int value=\x22\xff\x02\x22 expression=24-25)] begin=23-24 end=25-26 expression=21-26) keyword=11-17 assoc=18-20 begin=26-27 expression=11-27)] expression=7-27)] begin=0-5 end=28-31 expression=0-31)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atASSOC 18-20 =>\x0atIDENTIFIER 21-23 x\xff\x01\x0atLBRACK2 23-24 [\x0atINTEGER 24-25 \xff\x02\x0atRBRACK 25-26 ]\x0atSEMI 26-27 ;\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"begin; v\xffa; rescue => X\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_var=(casgn name=\x22X\xff\x01\x22))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_var=(casgn name=\x22X\xff\x01\x22 name=21-23 expression=21-23) keyword=11-17 assoc=18-20 begin=23-24 expression=11-24)] expression=7-24)] begin=0-5 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atASSOC 18-20 =>\x0atCONSTANT 21-23 X\xff\x01\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"begin; v\xffa; rescue => ::X\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_var=(casgn scope=(cbase) name=\x22X\xff\x01\x22))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_var=(casgn scope=(cbase expression=21-23) name=\x22X\xff\x01\x22 double_colon=21-23 name=23-25 expression=21-25) keyword=11-17 assoc=18-20 begin=25-26 expression=11-26)] expression=7-26)] begin=0-5 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atASSOC 18-20 =>\x0atCOLON3 21-23 ::\x0atCONSTANT 23-25 X\xff\x01\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"begin; v\xffa; rescue => $x\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_var=(gvasgn name=\x22$x\xff\x01\x22))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_var=(gvasgn name=\x22$x\xff\x01\x22 name=21-24 expression=21-24) keyword=11-17 assoc=18-20 begin=24-25 expression=11-25)] expression=7-25)] begin=0-5 end=26-29 expression=0-29)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atASSOC 18-20 =>\x0atGVAR 21-24 $x\xff\x01\x0atSEMI 24-25 ;\x0akEND 26-29 end\x0aEOF 29-29 " },
    Rec { t: b"begin; v\xffa; rescue => @@x\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_var=(cvasgn name=\x22@@x\xff\x01\x22))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_var=(cvasgn name=\x22@@x\xff\x01\x22 name=21-25 expression=21-25) keyword=11-17 assoc=18-20 begin=25-26 expression=11-26)] expression=7-26)] begin=0-5 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atASSOC 18-20 =>\x0atCVAR 21-25 @@x\xff\x01\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"begin; v\xffa; rescue V\xffa then x\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22)]) body=(send method_name=\x22x\xff\x02\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22 name=18-20 expression=18-20)] expression=18-20) body=(send method_name=\x22x\xff\x02\x22 args=[] selector=26-28 expression=26-28) keyword=11-17 begin=21-25 expression=11-28)] expression=7-28)] begin=0-5 end=30-33 expression=0-33)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atCONSTANT 18-20 V\xff\x01\x0akTHEN 21-25 then\x0atIDENTIFIER 26-28 x\xff\x02\x0atSEMI 28-29 ;\x0akEND 30-33 end\x0aEOF 33-33 " },
    Rec { t: b"begin; v\xffa; rescue => x\xffa then y\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_var=(lvasgn name=\x22x\xff\x01\x22) body=(send method_name=\x22y\xff\x02\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_var=(lvasgn name=\x22x\xff\x01\x22 name=21-23 expression=21-23) body=(send method_name=\x22y\xff\x02\x22 args=[] selector=29-31 expression=29-31) keyword=11-17 assoc=18-20 begin=24-28 expression=11-31)] expression=7-31)] begin=0-5 end=33-36 expression=0-36)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atASSOC 18-20 =>\x0atIDENTIFIER 21-23 x\xff\x01\x0akTHEN 24-28 then\x0atIDENTIFIER 29-31 y\xff\x02\x0atSEMI 31-32 ;\x0akEND 33-36 end\x0aEOF 36-36 " },
    Rec { t: b"begin; v\xffa; rescue V\xffa; x\xffa; rescue X\xffa; y\xffa; rescue; z\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22)]) body=(send method_name=\x22x\xff\x02\x22 args=[])) (rescue_body exc_list=(array elements=[(const name=\x22X\xff\x03\x22)]) body=(send method_name=\x22y\xff\x04\x22 args=[])) (rescue_body body=(send method_name=\x22z\xff\x05\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22 name=18-20 expression=18-20)] expression=18-20) body=(send method_name=\x22x\xff\x02\x22 args=[] selector=22-24 expression=22-24) keyword=11-17 begin=20-21 expression=11-24) (rescue_body exc_list=(array elements=[(const name=\x22X\xff\x03\x22 name=33-35 expression=33-35)] expression=33-35) body=(send method_name=\x22y\xff\x04\x22 args=[] selector=37-39 expression=37-39) keyword=26-32 begin=35-36 expression=26-39) (rescue_body body=(send method_name=\x22z\xff\x05\x22 args=[] selector=49-51 expression=49-51) keyword=41-47 begin=47-48 expression=41-51)] expression=7-51)] begin=0-5 end=53-56 expression=0-56)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atCONSTANT 18-20 V\xff\x01\x0atSEMI 20-21 ;\x0atIDENTIFIER 22-24 x\xff\x02\x0atSEMI 24-25 ;\x0akRESCUE 26-32 rescue\x0atCONSTANT 33-35 X\xff\x03\x0atSEMI 35-36 ;\x0atIDENTIFIER 37-39 y\xff\x04\x0atSEMI 39-40 ;\x0akRESCUE 41-47 rescue\x0atSEMI 47-48 ;\x0atIDENTIFIER 49-51 z\xff\x05\x0atSEMI 51-52 ;\x0akEND 53-56 end\x0aEOF 56-56 " },
    Rec { t: b"begin; v\xffa; rescue x\xffa.y\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(send recv=(send method_name=\x22x\xff\x01\x22 args=[]) method_name=\x22y\xff\x02\x22 args=[])]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_list=(array elements=[(send recv=(send method_name=\x22x\xff\x01\x22 args=[] selector=18-20 expression=18-20) method_name=\x22y\xff\x02\x22 args=[] dot=20-21 selector=21-23 expression=18-23)] expression=18-23) keyword=11-17 begin=23-24 expression=11-24)] expression=7-24)] begin=0-5 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atIDENTIFIER 18-20 x\xff\x01\x0atDOT 20-21 .\x0atIDENTIFIER 21-23 y\xff\x02\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"begin\x0av\xffa\x0arescue V\xffa => x\xffa\x0ay\xffa\x0aelse\x0az\xffa\x0aensure\x0ak\xffa\x0aend", shape: b"(kw_begin statements=[(ensure body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22)]) exc_var=(lvasgn name=\x22x\xff\x02\x22) body=(send method_name=\x22y\xff\x03\x22 args=[]))] else_=(send method_name=\x22z\xff\x04\x22 args=[])) ensure=(send method_name=\x22k\xff\x05\x22 args=[]))])", full: b"(kw_begin statements=[(ensure body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22 name=16-18 expression=16-18)] expression=16-18) exc_var=(lvasgn name=\x22x\xff\x02\x22 name=22-24 expression=22-24) body=(send method_name=\x22y\xff\x03\x22 args=[] selector=25-27 expression=25-27) keyword=9-15 assoc=19-21 begin=24-25 expression=9-27)] else_=(send method_name=\x22z\xff\x04\x22 args=[] selector=33-35 expression=33-35) else=28-32 expression=6-35) ensure=(send method_name=\x22k\xff\x05\x22 args=[] selector=43-45 expression=43-45) keyword=36-42 expression=6-45)] begin=0-5 end=46-49 expression=0-49)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atIDENTIFIER 6-8 v\xff\x00\x0atNL 8-9 \x0a\x0akRESCUE 9-15 rescue\x0atCONSTANT 16-18 V\xff\x01\x0atASSOC 19-21 =>\x0atIDENTIFIER 22-24 x\xff\x02\x0atNL 24-25 \x0a\x0atIDENTIFIER 25-27 y\xff\x03\x0atNL 27-28 \x0a\x0akELSE 28-32 else\x0atIDENTIFIER 33-35 z\xff\x04\x0atNL 35-36 \x0a\x0akENSURE 36-42 ensure\x0atIDENTIFIER 43-45 k\xff\x05\x0atNL 45-46 \x0a\x0akEND 46-49 end\x0aEOF 49-49 " },
    Rec { t: b"begin; v\xffa; x\xffa; rescue; y\xffa; z\xffa; else; k\xffa; j\xffa; ensure; h\xffa; g\xffa; end", shape: b"(kw_begin statements=[(ensure body=(rescue body=(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[]) (send method_name=\x22x\xff\x01\x22 args=[])]) rescue_bodies=[(rescue_body body=(begin statements=[(send method_name=\x22y\xff\x02\x22 args=[]) (send method_name=\x22z\xff\x03\x22 args=[])]))] else_=(begin statements=[(send method_name=\x22k\xff\x04\x22 args=[]) (send method_name=\x22j\xff\x05\x22 args=[])])) ensure=(begin statements=[(send method_name=\x22h\xff\x06\x22 args=[]) (send method_name=\x22g\xff\x07\x22 args=[])]))])", full: b"(kw_begin statements=[(ensure body=(rescue body=(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) (send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13)] expression=7-13) rescue_bodies=[(rescue_body body=(begin statements=[(send method_name=\x22y\xff\x02\x22 args=[] selector=23-25 expression=23-25) (send method_name=\x22z\xff\x03\x22 args=[] selector=27-29 expression=27-29)] expression=23-29) keyword=15-21 begin=21-22 expression=15-29)] else_=(begin statements=[(send method_name=\x22k\xff\x04\x22 args=[] selector=37-39 expression=37-39) (send method_name=\x22j\xff\x05\x22 args=[] selector=41-43 expression=41-43)] expression=37-43) else=31-35 expression=7-43) ensure=(begin statements=[(send method_name=\x22h\xff\x06\x22 args=[] selector=53-55 expression=53-55) (send method_name=\x22g\xff\x07\x22 args=[] selector=57-59 expression=57-59)] expression=53-59) keyword=45-51 expression=7-59)] begin=0-5 end=61-64 expression=0-64)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 x\xff\x01\x0atSEMI 13-14 ;\x0akRESCUE 15-21 rescue\x0atSEMI 21-22 ;\x0atIDENTIFIER 23-25 y\xff\x02\x0atSEMI 25-26 ;\x0atIDENTIFIER 27-29 z\xff\x03\x0atSEMI 29-30 ;\x0akELSE 31-35 else\x0atSEMI 35-36 ;\x0atIDENTIFIER 37-39 k\xff\x04\x0atSEMI 39-40 ;\x0atIDENTIFIER 41-43 j\xff\x05\x0atSEMI 43-44 ;\x0akENSURE 45-51 ensure\x0atSEMI 51-52 ;\x0atIDENTIFIER 53-55 h\xff\x06\x0atSEMI 55-56 ;\x0atIDENTIFIER 57-59 g\xff\x07\x0atSEMI 59-60 ;\x0akEND 61-64 end\x0aEOF 64-64 " },
    Rec { t: b"begin v\xffa; x\xffa end", shape: b"(kw_begin statements=[(send method_name=\x22v\xff\x00\x22 args=[]) (send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(kw_begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) (send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12)] begin=0-5 end=13-16 expression=0-16)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atIDENTIFIER 6-8 v\xff\x00\x0atSEMI 8-9 ;\x0atIDENTIFIER 10-12 x\xff\x01\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"def v\xffa; y\xffa; end", shape: b"(def name=\x22v\xff\x00\x22 body=(send method_name=\x22y\xff\x01\x22 args=[]))", full: b"(def name=\x22v\xff\x00\x22 body=(send method_name=\x22y\xff\x01\x22 args=[] selector=8-10 expression=8-10) keyword=0-3 name=4-6 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 y\xff\x01\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def v\xffa; y\xffa; zo; end", shape: b"(def name=\x22v\xff\x00\x22 body=(begin statements=[(send method_name=\x22y\xff\x01\x22 args=[]) (send method_name=\x22zo\x22 args=[])]))", full: b"(def name=\x22v\xff\x00\x22 body=(begin statements=[(send method_name=\x22y\xff\x01\x22 args=[] selector=8-10 expression=8-10) (send method_name=\x22zo\x22 args=[] selector=12-14 expression=12-14)] expression=8-14) keyword=0-3 name=4-6 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 y\xff\x01\x0atSEMI 10-11 ;\x0atIDENTIFIER 12-14 zo\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"def v\xffa; y\xffa; rescue Vo => ko; zo; end", shape: b"(def name=\x22v\xff\x00\x22 body=(rescue body=(send method_name=\x22y\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22Vo\x22)]) exc_var=(lvasgn name=\x22ko\x22) body=(send method_name=\x22zo\x22 args=[]))]))", full: b"(def name=\x22v\xff\x00\x22 body=(rescue body=(send method_name=\x22y\xff\x01\x22 args=[] selector=8-10 expression=8-10) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22Vo\x22 name=19-21 expression=19-21)] expression=19-21) exc_var=(lvasgn name=\x22ko\x22 name=25-27 expression=25-27) body=(send method_name=\x22zo\x22 args=[] selector=29-31 expression=29-31) keyword=12-18 assoc=22-24 begin=27-28 expression=12-31)] expression=8-31) keyword=0-3 name=4-6 end=33-36 expression=0-36)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 y\xff\x01\x0atSEMI 10-11 ;\x0akRESCUE 12-18 rescue\x0atCONSTANT 19-21 Vo\x0atASSOC 22-24 =>\x0atIDENTIFIER 25-27 ko\x0atSEMI 27-28 ;\x0atIDENTIFIER 29-31 zo\x0atSEMI 31-32 ;\x0akEND 33-36 end\x0aEOF 36-36 " },
    Rec { t: b"def v\xffa; y\xffa; ensure; zo; end", shape: b"(def name=\x22v\xff\x00\x22 body=(ensure body=(send method_name=\x22y\xff\x01\x22 args=[]) ensure=(send method_name=\x22zo\x22 args=[])))", full: b"(def name=\x22v\xff\x00\x22 body=(ensure body=(send method_name=\x22y\xff\x01\x22 args=[] selector=8-10 expression=8-10) ensure=(send method_name=\x22zo\x22 args=[] selector=20-22 expression=20-22) keyword=12-18 expression=8-22) keyword=0-3 name=4-6 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 y\xff\x01\x0atSEMI 10-11 ;\x0akENSURE 12-18 ensure\x0atSEMI 18-19 ;\x0atIDENTIFIER 20-22 zo\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"def v\xffa; y\xffa; rescue; zo; else; ko; ensure; jo; end", shape: b"(def name=\x22v\xff\x00\x22 body=(ensure body=(rescue body=(send method_name=\x22y\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22zo\x22 args=[]))] else_=(send method_name=\x22ko\x22 args=[])) ensure=(send method_name=\x22jo\x22 args=[])))", full: b"(def name=\x22v\xff\x00\x22 body=(ensure body=(rescue body=(send method_name=\x22y\xff\x01\x22 args=[] selector=8-10 expression=8-10) rescue_bodies=[(rescue_body body=(send method_name=\x22zo\x22 args=[] selector=20-22 expression=20-22) keyword=12-18 begin=18-19 expression=12-22)] else_=(send method_name=\x22ko\x22 args=[] selector=30-32 expression=30-32) else=24-28 expression=8-32) ensure=(send method_name=\x22jo\x22 args=[] selector=42-44 expression=42-44) keyword=34-40 expression=8-44) keyword=0-3 name=4-6 end=46-49 expression=0-49)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 y\xff\x01\x0atSEMI 10-11 ;\x0akRESCUE 12-18 rescue\x0atSEMI 18-19 ;\x0atIDENTIFIER 20-22 zo\x0atSEMI 22-23 ;\x0akELSE 24-28 else\x0atSEMI 28-29 ;\x0atIDENTIFIER 30-32 ko\x0atSEMI 32-33 ;\x0akENSURE 34-40 ensure\x0atSEMI 40-41 ;\x0atIDENTIFIER 42-44 jo\x0atSEMI 44-45 ;\x0akEND 46-49 end\x0aEOF 49-49 " },
    Rec { t: b"def v\xffa; rescue; else; ensure; end", shape: b"(def name=\x22v\xff\x00\x22 body=(ensure body=(rescue rescue_bodies=[(rescue_body)])))", full: b"(def name=\x22v\xff\x00\x22 body=(ensure body=(rescue rescue_bodies=[(rescue_body keyword=8-14 begin=14-15 expression=8-15)] else=16-20 expression=8-20) keyword=22-28 expression=8-28) keyword=0-3 name=4-6 end=30-33 expression=0-33)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atSEMI 6-7 ;\x0akRESCUE 8-14 rescue\x0atSEMI 14-15 ;\x0akELSE 16-20 else\x0atSEMI 20-21 ;\x0akENSURE 22-28 ensure\x0atSEMI 28-29 ;\x0akEND 30-33 end\x0aEOF 33-33 " },
    Rec { t: b"def v\xffa(x\xffa); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9)] expression=6-10 begin=6-7 end=9-10) keyword=0-3 name=4-6 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atRPAREN 9-10 )\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def v\xffa(x\xffa); yo; end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22)]) body=(send method_name=\x22yo\x22 args=[]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9)] expression=6-10 begin=6-7 end=9-10) body=(send method_name=\x22yo\x22 args=[] selector=12-14 expression=12-14) keyword=0-3 name=4-6 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atRPAREN 9-10 )\x0atSEMI 10-11 ;\x0atIDENTIFIER 12-14 yo\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"def v\xffa(x\xffa); yo; zo; end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22)]) body=(begin statements=[(send method_name=\x22yo\x22 args=[]) (send method_name=\x22zo\x22 args=[])]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9)] expression=6-10 begin=6-7 end=9-10) body=(begin statements=[(send method_name=\x22yo\x22 args=[] selector=12-14 expression=12-14) (send method_name=\x22zo\x22 args=[] selector=16-18 expression=16-18)] expression=12-18) keyword=0-3 name=4-6 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atRPAREN 9-10 )\x0atSEMI 10-11 ;\x0atIDENTIFIER 12-14 yo\x0atSEMI 14-15 ;\x0atIDENTIFIER 16-18 zo\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"def v\xffa(x\xffa); rescue; end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22)]) body=(rescue rescue_bodies=[(rescue_body)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9)] expression=6-10 begin=6-7 end=9-10) body=(rescue rescue_bodies=[(rescue_body keyword=12-18 begin=18-19 expression=12-19)] expression=12-19) keyword=0-3 name=4-6 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atRPAREN 9-10 )\x0atSEMI 10-11 ;\x0akRESCUE 12-18 rescue\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"def v\xffa(x\xffa); yo; rescue Vo => ko; zo; end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22)]) body=(rescue body=(send method_name=\x22yo\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22Vo\x22)]) exc_var=(lvasgn name=\x22ko\x22) body=(send method_name=\x22zo\x22 args=[]))]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9)] expression=6-10 begin=6-7 end=9-10) body=(rescue body=(send method_name=\x22yo\x22 args=[] selector=12-14 expression=12-14) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22Vo\x22 name=23-25 expression=23-25)] expression=23-25) exc_var=(lvasgn name=\x22ko\x22 name=29-31 expression=29-31) body=(send method_name=\x22zo\x22 args=[] selector=33-35 expression=33-35) keyword=16-22 assoc=26-28 begin=31-32 expression=16-35)] expression=12-35) keyword=0-3 name=4-6 end=37-40 expression=0-40)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atRPAREN 9-10 )\x0atSEMI 10-11 ;\x0atIDENTIFIER 12-14 yo\x0atSEMI 14-15 ;\x0akRESCUE 16-22 rescue\x0atCONSTANT 23-25 Vo\x0atASSOC 26-28 =>\x0atIDENTIFIER 29-31 ko\x0atSEMI 31-32 ;\x0atIDENTIFIER 33-35 zo\x0atSEMI 35-36 ;\x0akEND 37-40 end\x0aEOF 40-40 " },
    Rec { t: b"def v\xffa(x\xffa); ensure; end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22)]) body=(ensure))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9)] expression=6-10 begin=6-7 end=9-10) body=(ensure keyword=12-18 expression=12-18) keyword=0-3 name=4-6 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atRPAREN 9-10 )\x0atSEMI 10-11 ;\x0akENSURE 12-18 ensure\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"def v\xffa(x\xffa); yo; ensure; zo; end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22)]) body=(ensure body=(send method_name=\x22yo\x22 args=[]) ensure=(send method_name=\x22zo\x22 args=[])))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9)] expression=6-10 begin=6-7 end=9-10) body=(ensure body=(send method_name=\x22yo\x22 args=[] selector=12-14 expression=12-14) ensure=(send method_name=\x22zo\x22 args=[] selector=24-26 expression=24-26) keyword=16-22 expression=12-26) keyword=0-3 name=4-6 end=28-31 expression=0-31)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atRPAREN 9-10 )\x0atSEMI 10-11 ;\x0atIDENTIFIER 12-14 yo\x0atSEMI 14-15 ;\x0akENSURE 16-22 ensure\x0atSEMI 22-23 ;\x0atIDENTIFIER 24-26 zo\x0atSEMI 26-27 ;\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"def v\xffa(x\xffa); yo; rescue; zo; else; ko; ensure; jo; end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22)]) body=(ensure body=(rescue body=(send method_name=\x22yo\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22zo\x22 args=[]))] else_=(send method_name=\x22ko\x22 args=[])) ensure=(send method_name=\x22jo\x22 args=[])))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9)] expression=6-10 begin=6-7 end=9-10) body=(ensure body=(rescue body=(send method_name=\x22yo\x22 args=[] selector=12-14 expression=12-14) rescue_bodies=[(rescue_body body=(send method_name=\x22zo\x22 args=[] selector=24-26 expression=24-26) keyword=16-22 begin=22-23 expression=16-26)] else_=(send method_name=\x22ko\x22 args=[] selector=34-36 expression=34-36) else=28-32 expression=12-36) ensure=(send method_name=\x22jo\x22 args=[] selector=46-48 expression=46-48) keyword=38-44 expression=12-48) keyword=0-3 name=4-6 end=50-53 expression=0-53)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atRPAREN 9-10 )\x0atSEMI 10-11 ;\x0atIDENTIFIER 12-14 yo\x0atSEMI 14-15 ;\x0akRESCUE 16-22 rescue\x0atSEMI 22-23 ;\x0atIDENTIFIER 24-26 zo\x0atSEMI 26-27 ;\x0akELSE 28-32 else\x0atSEMI 32-33 ;\x0atIDENTIFIER 34-36 ko\x0atSEMI 36-37 ;\x0akENSURE 38-44 ensure\x0atSEMI 44-45 ;\x0atIDENTIFIER 46-48 jo\x0atSEMI 48-49 ;\x0akEND 50-53 end\x0aEOF 53-53 " },
    Rec { t: b"def v\xffa(x\xffa); rescue; else; ensure; end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22)]) body=(ensure body=(rescue rescue_bodies=[(rescue_body)])))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9)] expression=6-10 begin=6-7 end=9-10) body=(ensure body=(rescue rescue_bodies=[(rescue_body keyword=12-18 begin=18-19 expression=12-19)] else=20-24 expression=12-24) keyword=26-32 expression=12-32) keyword=0-3 name=4-6 end=34-37 expression=0-37)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atRPAREN 9-10 )\x0atSEMI 10-11 ;\x0akRESCUE 12-18 rescue\x0atSEMI 18-19 ;\x0akELSE 20-24 else\x0atSEMI 24-25 ;\x0akENSURE 26-32 ensure\x0atSEMI 32-33 ;\x0akEND 34-37 end\x0aEOF 37-37 " },
    Rec { t: b"def self.v\xffa; y\xffa; end", shape: b"(defs definee=(self_) name=\x22v\xff\x00\x22 body=(send method_name=\x22y\xff\x01\x22 args=[]))", full: b"(defs definee=(self_ expression=4-8) name=\x22v\xff\x00\x22 body=(send method_name=\x22y\xff\x01\x22 args=[] selector=13-15 expression=13-15) keyword=0-3 operator=8-9 name=9-11 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 v\xff\x00\x0atSEMI 11-12 ;\x0atIDENTIFIER 13-15 y\xff\x01\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"def self.v\xffa; y\xffa; zo; end", shape: b"(defs definee=(self_) name=\x22v\xff\x00\x22 body=(begin statements=[(send method_name=\x22y\xff\x01\x22 args=[]) (send method_name=\x22zo\x22 args=[])]))", full: b"(defs definee=(self_ expression=4-8) name=\x22v\xff\x00\x22 body=(begin statements=[(send method_name=\x22y\xff\x01\x22 args=[] selector=13-15 expression=13-15) (send method_name=\x22zo\x22 args=[] selector=17-19 expression=17-19)] expression=13-19) keyword=0-3 operator=8-9 name=9-11 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 v\xff\x00\x0atSEMI 11-12 ;\x0atIDENTIFIER 13-15 y\xff\x01\x0atSEMI 15-16 ;\x0atIDENTIFIER 17-19 zo\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"def self.v\xffa; rescue; end", shape: b"(defs definee=(self_) name=\x22v\xff\x00\x22 body=(rescue rescue_bodies=[(rescue_body)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22v\xff\x00\x22 body=(rescue rescue_bodies=[(rescue_body keyword=13-19 begin=19-20 expression=13-20)] expression=13-20) keyword=0-3 operator=8-9 name=9-11 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 v\xff\x00\x0atSEMI 11-12 ;\x0akRESCUE 13-19 rescue\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"def self.v\xffa; y\xffa; rescue Vo => ko; zo; end", shape: b"(defs definee=(self_) name=\x22v\xff\x00\x22 body=(rescue body=(send method_name=\x22y\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22Vo\x22)]) exc_var=(lvasgn name=\x22ko\x22) body=(send method_name=\x22zo\x22 args=[]))]))", full: b"(defs definee=(self_ expression=4-8) name=\x22v\xff\x00\x22 body=(rescue body=(send method_name=\x22y\xff\x01\x22 args=[] selector=13-15 expression=13-15) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22Vo\x22 name=24-26 expression=24-26)] expression=24-26) exc_var=(lvasgn name=\x22ko\x22 name=30-32 expression=30-32) body=(send method_name=\x22zo\x22 args=[] selector=34-36 expression=34-36) keyword=17-23 assoc=27-29 begin=32-33 expression=17-36)] expression=13-36) keyword=0-3 operator=8-9 name=9-11 end=38-41 expression=0-41)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 v\xff\x00\x0atSEMI 11-12 ;\x0atIDENTIFIER 13-15 y\xff\x01\x0atSEMI 15-16 ;\x0akRESCUE 17-23 rescue\x0atCONSTANT 24-26 Vo\x0atASSOC 27-29 =>\x0atIDENTIFIER 30-32 ko\x0atSEMI 32-33 ;\x0atIDENTIFIER 34-36 zo\x0atSEMI 36-37 ;\x0akEND 38-41 end\x0aEOF 41-41 " },
    Rec { t: b"def self.v\xffa; ensure; end", shape: b"(defs definee=(self_) name=\x22v\xff\x00\x22 body=(ensure))", full: b"(defs definee=(self_ expression=4-8) name=\x22v\xff\x00\x22 body=(ensure keyword=13-19 expression=13-19) keyword=0-3 operator=8-9 name=9-11 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 v\xff\x00\x0atSEMI 11-12 ;\x0akENSURE 13-19 ensure\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"def self.v\xffa; y\xffa; ensure; zo; end", shape: b"(defs definee=(self_) name=\x22v\xff\x00\x22 body=(ensure body=(send method_name=\x22y\xff\x01\x22 args=[]) ensure=(send method_name=\x22zo\x22 args=[])))", full: b"(defs definee=(self_ expression=4-8) name=\x22v\xff\x00\x22 body=(ensure body=(send method_name=\x22y\xff\x01\x22 args=[] selector=13-15 expression=13-15) ensure=(send method_name=\x22zo\x22 args=[] selector=25-27 expression=25-27) keyword=17-23 expression=13-27) keyword=0-3 operator=8-9 name=9-11 end=29-32 expression=0-32)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 v\xff\x00\x0atSEMI 11-12 ;\x0atIDENTIFIER 13-15 y\xff\x01\x0atSEMI 15-16 ;\x0akENSURE 17-23 ensure\x0atSEMI 23-24 ;\x0atIDENTIFIER 25-27 zo\x0atSEMI 27-28 ;\x0akEND 29-32 end\x0aEOF 32-32 " },
    Rec { t: b"def self.v\xffa; y\xffa; rescue; zo; else; ko; ensure; jo; end", shape: b"(defs definee=(self_) name=\x22v\xff\x00\x22 body=(ensure body=(rescue body=(send method_name=\x22y\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22zo\x22 args=[]))] else_=(send method_name=\x22ko\x22 args=[])) ensure=(send method_name=\x22jo\x22 args=[])))", full: b"(defs definee=(self_ expression=4-8) name=\x22v\xff\x00\x22 body=(ensure body=(rescue body=(send method_name=\x22y\xff\x01\x22 args=[] selector=13-15 expression=13-15) rescue_bodies=[(rescue_body body=(send method_name=\x22zo\x22 args=[] selector=25-27 expression=25-27) keyword=17-23 begin=23-24 expression=17-27)] else_=(send method_name=\x22ko\x22 args=[] selector=35-37 expression=35-37) else=29-33 expression=13-37) ensure=(send method_name=\x22jo\x22 args=[] selector=47-49 expression=47-49) keyword=39-45 expression=13-49) keyword=0-3 operator=8-9 name=9-11 end=51-54 expression=0-54)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 v\xff\x00\x0atSEMI 11-12 ;\x0atIDENTIFIER 13-15 y\xff\x01\x0atSEMI 15-16 ;\x0akRESCUE 17-23 rescue\x0atSEMI 23-24 ;\x0atIDENTIFIER 25-27 zo\x0atSEMI 27-28 ;\x0akELSE 29-33 else\x0atSEMI 33-34 ;\x0atIDENTIFIER 35-37 ko\x0atSEMI 37-38 ;\x0akENSURE 39-45 ensure\x0atSEMI 45-46 ;\x0atIDENTIFIER 47-49 jo\x0atSEMI 49-50 ;\x0akEND 51-54 end\x0aEOF 54-54 " },
    Rec { t: b"def self.v\xffa; rescue; else; ensure; end", shape: b"(defs definee=(self_) name=\x22v\xff\x00\x22 body=(ensure body=(rescue rescue_bodies=[(rescue_body)])))", full: b"(defs definee=(self_ expression=4-8) name=\x22v\xff\x00\x22 body=(ensure body=(rescue rescue_bodies=[(rescue_body keyword=13-19 begin=19-20 expression=13-20)] else=21-25 expression=13-25) keyword=27-33 expression=13-33) keyword=0-3 operator=8-9 name=9-11 end=35-38 expression=0-38)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 v\xff\x00\x0atSEMI 11-12 ;\x0akRESCUE 13-19 rescue\x0atSEMI 19-20 ;\x0akELSE 21-25 else\x0atSEMI 25-26 ;\x0akENSURE 27-33 ensure\x0atSEMI 33-34 ;\x0akEND 35-38 end\x0aEOF 38-38 " },
    Rec { t: b"class V\xffa; end", shape: b"(class name=(const name=\x22V\xff\x00\x22))", full: b"(class name=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) keyword=0-5 end=10-13 expression=0-13)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atSEMI 8-9 ;\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"class V\xffa; y\xffa; end", shape: b"(class name=(const name=\x22V\xff\x00\x22) body=(send method_name=\x22y\xff\x01\x22 args=[]))", full: b"(class name=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) body=(send method_name=\x22y\xff\x01\x22 args=[] selector=10-12 expression=10-12) keyword=0-5 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atSEMI 8-9 ;\x0atIDENTIFIER 10-12 y\xff\x01\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"class V\xffa; y\xffa; z\xffa; end", shape: b"(class name=(const name=\x22V\xff\x00\x22) body=(begin statements=[(send method_name=\x22y\xff\x01\x22 args=[]) (send method_name=\x22z\xff\x02\x22 args=[])]))", full: b"(class name=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) body=(begin statements=[(send method_name=\x22y\xff\x01\x22 args=[] selector=10-12 expression=10-12) (send method_name=\x22z\xff\x02\x22 args=[] selector=14-16 expression=14-16)] expression=10-16) keyword=0-5 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atSEMI 8-9 ;\x0atIDENTIFIER 10-12 y\xff\x01\x0atSEMI 12-13 ;\x0atIDENTIFIER 14-16 z\xff\x02\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"class V\xffa; rescue; end", shape: b"(class name=(const name=\x22V\xff\x00\x22) body=(rescue rescue_bodies=[(rescue_body)]))", full: b"(class name=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) body=(rescue rescue_bodies=[(rescue_body keyword=10-16 begin=16-17 expression=10-17)] expression=10-17) keyword=0-5 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atSEMI 8-9 ;\x0akRESCUE 10-16 rescue\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"class V\xffa; y\xffa; rescue V\xfe\x00 => k\xffa; z\xffa; end", shape: b"(class name=(const name=\x22V\xff\x00\x22) body=(rescue body=(send method_name=\x22y\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x00\x22)]) exc_var=(lvasgn name=\x22k\xff\x02\x22) body=(send method_name=\x22z\xff\x03\x22 args=[]))]))", full: b"(class name=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) body=(rescue body=(send method_name=\x22y\xff\x01\x22 args=[] selector=10-12 expression=10-12) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x00\x22 name=21-23 expression=21-23)] expression=21-23) exc_var=(lvasgn name=\x22k\xff\x02\x22 name=27-29 expression=27-29) body=(send method_name=\x22z\xff\x03\x22 args=[] selector=31-33 expression=31-33) keyword=14-20 assoc=24-26 begin=29-30 expression=14-33)] expression=10-33) keyword=0-5 end=35-38 expression=0-38)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atSEMI 8-9 ;\x0atIDENTIFIER 10-12 y\xff\x01\x0atSEMI 12-13 ;\x0akRESCUE 14-20 rescue\x0atCONSTANT 21-23 V\xff\x00\x0atASSOC 24-26 =>\x0atIDENTIFIER 27-29 k\xff\x02\x0atSEMI 29-30 ;\x0atIDENTIFIER 31-33 z\xff\x03\x0atSEMI 33-34 ;\x0akEND 35-38 end\x0aEOF 38-38 " },
    Rec { t: b"class V\xffa; ensure; end", shape: b"(class name=(const name=\x22V\xff\x00\x22) body=(ensure))", full: b"(class name=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) body=(ensure keyword=10-16 expression=10-16) keyword=0-5 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atSEMI 8-9 ;\x0akENSURE 10-16 ensure\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"class V\xffa; y\xffa; ensure; z\xffa; end", shape: b"(class name=(const name=\x22V\xff\x00\x22) body=(ensure body=(send method_name=\x22y\xff\x01\x22 args=[]) ensure=(send method_name=\x22z\xff\x02\x22 args=[])))", full: b"(class name=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) body=(ensure body=(send method_name=\x22y\xff\x01\x22 args=[] selector=10-12 expression=10-12) ensure=(send method_name=\x22z\xff\x02\x22 args=[] selector=22-24 expression=22-24) keyword=14-20 expression=10-24) keyword=0-5 end=26-29 expression=0-29)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atSEMI 8-9 ;\x0atIDENTIFIER 10-12 y\xff\x01\x0atSEMI 12-13 ;\x0akENSURE 14-20 ensure\x0atSEMI 20-21 ;\x0atIDENTIFIER 22-24 z\xff\x02\x0atSEMI 24-25 ;\x0akEND 26-29 end\x0aEOF 29-29 " },
    Rec { t: b"class V\xffa; y\xffa; rescue; z\xffa; else; k\xffa; ensure; j\xffa; end", shape: b"(class name=(const name=\x22V\xff\x00\x22) body=(ensure body=(rescue body=(send method_name=\x22y\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22z\xff\x02\x22 args=[]))] else_=(send method_name=\x22k\xff\x03\x22 args=[])) ensure=(send method_name=\x22j\xff\x04\x22 args=[])))", full: b"(class name=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) body=(ensure body=(rescue body=(send method_name=\x22y\xff\x01\x22 args=[] selector=10-12 expression=10-12) rescue_bodies=[(rescue_body body=(send method_name=\x22z\xff\x02\x22 args=[] selector=22-24 expression=22-24) keyword=14-20 begin=20-21 expression=14-24)] else_=(send method_name=\x22k\xff\x03\x22 args=[] selector=32-34 expression=32-34) else=26-30 expression=10-34) ensure=(send method_name=\x22j\xff\x04\x22 args=[] selector=44-46 expression=44-46) keyword=36-42 expression=10-46) keyword=0-5 end=48-51 expression=0-51)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atSEMI 8-9 ;\x0atIDENTIFIER 10-12 y\xff\x01\x0atSEMI 12-13 ;\x0akRESCUE 14-20 rescue\x0atSEMI 20-21 ;\x0atIDENTIFIER 22-24 z\xff\x02\x0atSEMI 24-25 ;\x0akELSE 26-30 else\x0atSEMI 30-31 ;\x0atIDENTIFIER 32-34 k\xff\x03\x0atSEMI 34-35 ;\x0akENSURE 36-42 ensure\x0atSEMI 42-43 ;\x0atIDENTIFIER 44-46 j\xff\x04\x0atSEMI 46-47 ;\x0akEND 48-51 end\x0aEOF 51-51 " },
    Rec { t: b"class V\xffa; rescue; else; ensure; end", shape: b"(class name=(const name=\x22V\xff\x00\x22) body=(ensure body=(rescue rescue_bodies=[(rescue_body)])))", full: b"(class name=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) body=(ensure body=(rescue rescue_bodies=[(rescue_body keyword=10-16 begin=16-17 expression=10-17)] else=18-22 expression=10-22) keyword=24-30 expression=10-30) keyword=0-5 end=32-35 expression=0-35)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atSEMI 8-9 ;\x0akRESCUE 10-16 rescue\x0atSEMI 16-17 ;\x0akELSE 18-22 else\x0atSEMI 22-23 ;\x0akENSURE 24-30 ensure\x0atSEMI 30-31 ;\x0akEND 32-35 end\x0aEOF 35-35 " },
    Rec { t: b"class V\xffa < X\xffa; end", shape: b"(class name=(const name=\x22V\xff\x00\x22) superclass=(const name=\x22X\xff\x01\x22))", full: b"(class name=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) superclass=(const name=\x22X\xff\x01\x22 name=11-13 expression=11-13) keyword=0-5 operator=9-10 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atLT 9-10 <\x0atCONSTANT 11-13 X\xff\x01\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"class V\xffa < X\xffa; y\xffa; end", shape: b"(class name=(const name=\x22V\xff\x00\x22) superclass=(const name=\x22X\xff\x01\x22) body=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(class name=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) superclass=(const name=\x22X\xff\x01\x22 name=11-13 expression=11-13) body=(send method_name=\x22y\xff\x02\x22 args=[] selector=15-17 expression=15-17) keyword=0-5 operator=9-10 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atLT 9-10 <\x0atCONSTANT 11-13 X\xff\x01\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 y\xff\x02\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"class V\xffa < X\xffa; y\xffa; z\xffa; end", shape: b"(class name=(const name=\x22V\xff\x00\x22) superclass=(const name=\x22X\xff\x01\x22) body=(begin statements=[(send method_name=\x22y\xff\x02\x22 args=[]) (send method_name=\x22z\xff\x03\x22 args=[])]))", full: b"(class name=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) superclass=(const name=\x22X\xff\x01\x22 name=11-13 expression=11-13) body=(begin statements=[(send method_name=\x22y\xff\x02\x22 args=[] selector=15-17 expression=15-17) (send method_name=\x22z\xff\x03\x22 args=[] selector=19-21 expression=19-21)] expression=15-21) keyword=0-5 operator=9-10 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atLT 9-10 <\x0atCONSTANT 11-13 X\xff\x01\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 y\xff\x02\x0atSEMI 17-18 ;\x0atIDENTIFIER 19-21 z\xff\x03\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"class V\xffa < X\xffa; rescue; end", shape: b"(class name=(const name=\x22V\xff\x00\x22) superclass=(const name=\x22X\xff\x01\x22) body=(rescue rescue_bodies=[(rescue_body)]))", full: b"(class name=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) superclass=(const name=\x22X\xff\x01\x22 name=11-13 expression=11-13) body=(rescue rescue_bodies=[(rescue_body keyword=15-21 begin=21-22 expression=15-22)] expression=15-22) keyword=0-5 operator=9-10 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atLT 9-10 <\x0atCONSTANT 11-13 X\xff\x01\x0atSEMI 13-14 ;\x0akRESCUE 15-21 rescue\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"class V\xffa < X\xffa; y\xffa; rescue V\xfe\x00 => k\xffa; z\xffa; end", shape: b"(class name=(const name=\x22V\xff\x00\x22) superclass=(const name=\x22X\xff\x01\x22) body=(rescue body=(send method_name=\x22y\xff\x02\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x00\x22)]) exc_var=(lvasgn name=\x22k\xff\x03\x22) body=(send method_name=\x22z\xff\x04\x22 args=[]))]))", full: b"(class name=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) superclass=(const name=\x22X\xff\x01\x22 name=11-13 expression=11-13) body=(rescue body=(send method_name=\x22y\xff\x02\x22 args=[] selector=15-17 expression=15-17) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x00\x22 name=26-28 expression=26-28)] expression=26-28) exc_var=(lvasgn name=\x22k\xff\x03\x22 name=32-34 expression=32-34) body=(send method_name=\x22z\xff\x04\x22 args=[] selector=36-38 expression=36-38) keyword=19-25 assoc=29-31 begin=34-35 expression=19-38)] expression=15-38) keyword=0-5 operator=9-10 end=40-43 expression=0-43)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atLT 9-10 <\x0atCONSTANT 11-13 X\xff\x01\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 y\xff\x02\x0atSEMI 17-18 ;\x0akRESCUE 19-25 rescue\x0atCONSTANT 26-28 V\xff\x00\x0atASSOC 29-31 =>\x0atIDENTIFIER 32-34 k\xff\x03\x0atSEMI 34-35 ;\x0atIDENTIFIER 36-38 z\xff\x04\x0atSEMI 38-39 ;\x0akEND 40-43 end\x0aEOF 43-43 " },
    Rec { t: b"class V\xffa < X\xffa; ensure; end", shape: b"(class name=(const name=\x22V\xff\x00\x22) superclass=(const name=\x22X\xff\x01\x22) body=(ensure))", full: b"(class name=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) superclass=(const name=\x22X\xff\x01\x22 name=11-13 expression=11-13) body=(ensure keyword=15-21 expression=15-21) keyword=0-5 operator=9-10 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atLT 9-10 <\x0atCONSTANT 11-13 X\xff\x01\x0atSEMI 13-14 ;\x0akENSURE 15-21 ensure\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"class V\xffa < X\xffa; y\xffa; ensure; z\xffa; end", shape: b"(class name=(const name=\x22V\xff\x00\x22) superclass=(const name=\x22X\xff\x01\x22) body=(ensure body=(send method_name=\x22y\xff\x02\x22 args=[]) ensure=(send method_name=\x22z\xff\x03\x22 args=[])))", full: b"(class name=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) superclass=(const name=\x22X\xff\x01\x22 name=11-13 expression=11-13) body=(ensure body=(send method_name=\x22y\xff\x02\x22 args=[] selector=15-17 expression=15-17) ensure=(send method_name=\x22z\xff\x03\x22 args=[] selector=27-29 expression=27-29) keyword=19-25 expression=15-29) keyword=0-5 operator=9-10 end=31-34 expression=0-34)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atLT 9-10 <\x0atCONSTANT 11-13 X\xff\x01\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 y\xff\x02\x0atSEMI 17-18 ;\x0akENSURE 19-25 ensure\x0atSEMI 25-26 ;\x0atIDENTIFIER 27-29 z\xff\x03\x0atSEMI 29-30 ;\x0akEND 31-34 end\x0aEOF 34-34 " },
    Rec { t: b"class V\xffa < X\xffa; y\xffa; rescue; z\xffa; else; k\xffa; ensure; j\xffa; end", shape: b"(class name=(const name=\x22V\xff\x00\x22) superclass=(const name=\x22X\xff\x01\x22) body=(ensure body=(rescue body=(send method_name=\x22y\xff\x02\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22z\xff\x03\x22 args=[]))] else_=(send method_name=\x22k\xff\x04\x22 args=[])) ensure=(send method_name=\x22j\xff\x05\x22 args=[])))", full: b"(class name=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) superclass=(const name=\x22X\xff\x01\x22 name=11-13 expression=11-13) body=(ensure body=(rescue body=(send method_name=\x22y\xff\x02\x22 args=[] selector=15-17 expression=15-17) rescue_bodies=[(rescue_body body=(send method_name=\x22z\xff\x03\x22 args=[] selector=27-29 expression=27-29) keyword=19-25 begin=25-26 expression=19-29)] else_=(send method_name=\x22k\xff\x04\x22 args=[] selector=37-39 expression=37-39) else=31-35 expression=15-39) ensure=(send method_name=\x22j\xff\x05\x22 args=[] selector=49-51 expression=49-51) keyword=41-47 expression=15-51) keyword=0-5 operator=9-10 end=53-56 expression=0-56)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atLT 9-10 <\x0atCONSTANT 11-13 X\xff\x01\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 y\xff\x02\x0atSEMI 17-18 ;\x0akRESCUE 19-25 rescue\x0atSEMI 25-26 ;\x0atIDENTIFIER 27-29 z\xff\x03\x0atSEMI 29-30 ;\x0akELSE 31-35 else\x0atSEMI 35-36 ;\x0atIDENTIFIER 37-39 k\xff\x04\x0atSEMI 39-40 ;\x0akENSURE 41-47 ensure\x0atSEMI 47-48 ;\x0atIDENTIFIER 49-51 j\xff\x05\x0atSEMI 51-52 ;\x0akEND 53-56 end\x0aEOF 56-56 " },
    Rec { t: b"class V\xffa < X\xffa; rescue; else; ensure; end", shape: b"(class name=(const name=\x22V\xff\x00\x22) superclass=(const name=\x22X\xff\x01\x22) body=(ensure body=(rescue rescue_bodies=[(rescue_body)])))", full: b"(class name=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) superclass=(const name=\x22X\xff\x01\x22 name=11-13 expression=11-13) body=(ensure body=(rescue rescue_bodies=[(rescue_body keyword=15-21 begin=21-22 expression=15-22)] else=23-27 expression=15-27) keyword=29-35 expression=15-35) keyword=0-5 operator=9-10 end=37-40 expression=0-40)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atLT 9-10 <\x0atCONSTANT 11-13 X\xff\x01\x0atSEMI 13-14 ;\x0akRESCUE 15-21 rescue\x0atSEMI 21-22 ;\x0akELSE 23-27 else\x0atSEMI 27-28 ;\x0akENSURE 29-35 ensure\x0atSEMI 35-36 ;\x0akEND 37-40 end\x0aEOF 40-40 " },
    Rec { t: b"module V\xffa; end", shape: b"(module name=(const name=\x22V\xff\x00\x22))", full: b"(module name=(const name=\x22V\xff\x00\x22 name=7-9 expression=7-9) keyword=0-6 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akMODULE 0-6 module\x0atCONSTANT 7-9 V\xff\x00\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"module V\xffa; y\xffa; end", shape: b"(module name=(const name=\x22V\xff\x00\x22) body=(send method_name=\x22y\xff\x01\x22 args=[]))", full: b"(module name=(const name=\x22V\xff\x00\x22 name=7-9 expression=7-9) body=(send method_name=\x22y\xff\x01\x22 args=[] selector=11-13 expression=11-13) keyword=0-6 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akMODULE 0-6 module\x0atCONSTANT 7-9 V\xff\x00\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 y\xff\x01\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"module V\xffa; y\xffa; z\xffa; end", shape: b"(module name=(const name=\x22V\xff\x00\x22) body=(begin statements=[(send method_name=\x22y\xff\x01\x22 args=[]) (send method_name=\x22z\xff\x02\x22 args=[])]))", full: b"(module name=(const name=\x22V\xff\x00\x22 name=7-9 expression=7-9) body=(begin statements=[(send method_name=\x22y\xff\x01\x22 args=[] selector=11-13 expression=11-13) (send method_name=\x22z\xff\x02\x22 args=[] selector=15-17 expression=15-17)] expression=11-17) keyword=0-6 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akMODULE 0-6 module\x0atCONSTANT 7-9 V\xff\x00\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 y\xff\x01\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 z\xff\x02\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"module V\xffa; rescue; end", shape: b"(module name=(const name=\x22V\xff\x00\x22) body=(rescue rescue_bodies=[(rescue_body)]))", full: b"(module name=(const name=\x22V\xff\x00\x22 name=7-9 expression=7-9) body=(rescue rescue_bodies=[(rescue_body keyword=11-17 begin=17-18 expression=11-18)] expression=11-18) keyword=0-6 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akMODULE 0-6 module\x0atCONSTANT 7-9 V\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"module V\xffa; y\xffa; rescue V\xfe\x00 => k\xffa; z\xffa; end", shape: b"(module name=(const name=\x22V\xff\x00\x22) body=(rescue body=(send method_name=\x22y\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x00\x22)]) exc_var=(lvasgn name=\x22k\xff\x02\x22) body=(send method_name=\x22z\xff\x03\x22 args=[]))]))", full: b"(module name=(const name=\x22V\xff\x00\x22 name=7-9 expression=7-9) body=(rescue body=(send method_name=\x22y\xff\x01\x22 args=[] selector=11-13 expression=11-13) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x00\x22 name=22-24 expression=22-24)] expression=22-24) exc_var=(lvasgn name=\x22k\xff\x02\x22 name=28-30 expression=28-30) body=(send method_name=\x22z\xff\x03\x22 args=[] selector=32-34 expression=32-34) keyword=15-21 assoc=25-27 begin=30-31 expression=15-34)] expression=11-34) keyword=0-6 end=36-39 expression=0-39)", diag: b"", toks: b"\x0akMODULE 0-6 module\x0atCONSTANT 7-9 V\xff\x00\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 y\xff\x01\x0atSEMI 13-14 ;\x0akRESCUE 15-21 rescue\x0atCONSTANT 22-24 V\xff\x00\x0atASSOC 25-27 =>\x0atIDENTIFIER 28-30 k\xff\x02\x0atSEMI 30-31 ;\x0atIDENTIFIER 32-34 z\xff\x03\x0atSEMI 34-35 ;\x0akEND 36-39 end\x0aEOF 39-39 " },
    Rec { t: b"module V\xffa; ensure; end", shape: b"(module name=(const name=\x22V\xff\x00\x22) body=(ensure))", full: b"(module name=(const name=\x22V\xff\x00\x22 name=7-9 expression=7-9) body=(ensure keyword=11-17 expression=11-17) keyword=0-6 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akMODULE 0-6 module\x0atCONSTANT 7-9 V\xff\x00\x0atSEMI 9-10 ;\x0akENSURE 11-17 ensure\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"module V\xffa; y\xffa; ensure; z\xffa; end", shape: b"(module name=(const name=\x22V\xff\x00\x22) body=(ensure body=(send method_name=\x22y\xff\x01\x22 args=[]) ensure=(send method_name=\x22z\xff\x02\x22 args=[])))", full: b"(module name=(const name=\x22V\xff\x00\x22 name=7-9 expression=7-9) body=(ensure body=(send method_name=\x22y\xff\x01\x22 args=[] selector=11-13 expression=11-13) ensure=(send method_name=\x22z\xff\x02\x22 args=[] selector=23-25 expression=23-25) keyword=15-21 expression=11-25) keyword=0-6 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akMODULE 0-6 module\x0atCONSTANT 7-9 V\xff\x00\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 y\xff\x01\x0atSEMI 13-14 ;\x0akENSURE 15-21 ensure\x0atSEMI 21-22 ;\x0atIDENTIFIER 23-25 z\xff\x02\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"module V\xffa; y\xffa; rescue; z\xffa; else; k\xffa; ensure; j\xffa; end", shape: b"(module name=(const name=\x22V\xff\x00\x22) body=(ensure body=(rescue body=(send method_name=\x22y\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22z\xff\x02\x22 args=[]))] else_=(send method_name=\x22k\xff\x03\x22 args=[])) ensure=(send method_name=\x22j\xff\x04\x22 args=[])))", full: b"(module name=(const name=\x22V\xff\x00\x22 name=7-9 expression=7-9) body=(ensure body=(rescue body=(send method_name=\x22y\xff\x01\x22 args=[] selector=11-13 expression=11-13) rescue_bodies=[(rescue_body body=(send method_name=\x22z\xff\x02\x22 args=[] selector=23-25 expression=23-25) keyword=15-21 begin=21-22 expression=15-25)] else_=(send method_name=\x22k\xff\x03\x22 args=[] selector=33-35 expression=33-35) else=27-31 expression=11-35) ensure=(send method_name=\x22j\xff\x04\x22 args=[] selector=45-47 expression=45-47) keyword=37-43 expression=11-47) keyword=0-6 end=49-52 expression=0-52)", diag: b"", toks: b"\x0akMODULE 0-6 module\x0atCONSTANT 7-9 V\xff\x00\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 y\xff\x01\x0atSEMI 13-14 ;\x0akRESCUE 15-21 rescue\x0atSEMI 21-22 ;\x0atIDENTIFIER 23-25 z\xff\x02\x0atSEMI 25-26 ;\x0akELSE 27-31 else\x0atSEMI 31-32 ;\x0atIDENTIFIER 33-35 k\xff\x03\x0atSEMI 35-36 ;\x0akENSURE 37-43 ensure\x0atSEMI 43-44 ;\x0atIDENTIFIER 45-47 j\xff\x04\x0atSEMI 47-48 ;\x0akEND 49-52 end\x0aEOF 52-52 " },
    Rec { t: b"module V\xffa; rescue; else; ensure; end", shape: b"(module name=(const name=\x22V\xff\x00\x22) body=(ensure body=(rescue rescue_bodies=[(rescue_body)])))", full: b"(module name=(const name=\x22V\xff\x00\x22 name=7-9 expression=7-9) body=(ensure body=(rescue rescue_bodies=[(rescue_body keyword=11-17 begin=17-18 expression=11-18)] else=19-23 expression=11-23) keyword=25-31 expression=11-31) keyword=0-6 end=33-36 expression=0-36)", diag: b"", toks: b"\x0akMODULE 0-6 module\x0atCONSTANT 7-9 V\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSEMI 17-18 ;\x0akELSE 19-23 else\x0atSEMI 23-24 ;\x0akENSURE 25-31 ensure\x0atSEMI 31-32 ;\x0akEND 33-36 end\x0aEOF 36-36 " },
    Rec { t: b"class << v\xffa; end", shape: b"(s_class expr=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(s_class expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=9-11 expression=9-11) keyword=0-5 operator=6-8 end=13-16 expression=0-16)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atLSHFT 6-8 <<\x0atIDENTIFIER 9-11 v\xff\x00\x0atSEMI 11-12 ;\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"class << v\xffa; y\xffa; end", shape: b"(s_class expr=(send method_name=\x22v\xff\x00\x22 args=[]) body=(send method_name=\x22y\xff\x01\x22 args=[]))", full: b"(s_class expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=9-11 expression=9-11) body=(send method_name=\x22y\xff\x01\x22 args=[] selector=13-15 expression=13-15) keyword=0-5 operator=6-8 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atLSHFT 6-8 <<\x0atIDENTIFIER 9-11 v\xff\x00\x0atSEMI 11-12 ;\x0atIDENTIFIER 13-15 y\xff\x01\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"class << v\xffa; y\xffa; z\xffa; end", shape: b"(s_class expr=(send method_name=\x22v\xff\x00\x22 args=[]) body=(begin statements=[(send method_name=\x22y\xff\x01\x22 args=[]) (send method_name=\x22z\xff\x02\x22 args=[])]))", full: b"(s_class expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=9-11 expression=9-11) body=(begin statements=[(send method_name=\x22y\xff\x01\x22 args=[] selector=13-15 expression=13-15) (send method_name=\x22z\xff\x02\x22 args=[] selector=17-19 expression=17-19)] expression=13-19) keyword=0-5 operator=6-8 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atLSHFT 6-8 <<\x0atIDENTIFIER 9-11 v\xff\x00\x0atSEMI 11-12 ;\x0atIDENTIFIER 13-15 y\xff\x01\x0atSEMI 15-16 ;\x0atIDENTIFIER 17-19 z\xff\x02\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"class << v\xffa; rescue; end", shape: b"(s_class expr=(send method_name=\x22v\xff\x00\x22 args=[]) body=(rescue rescue_bodies=[(rescue_body)]))", full: b"(s_class expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=9-11 expression=9-11) body=(rescue rescue_bodies=[(rescue_body keyword=13-19 begin=19-20 expression=13-20)] expression=13-20) keyword=0-5 operator=6-8 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atLSHFT 6-8 <<\x0atIDENTIFIER 9-11 v\xff\x00\x0atSEMI 11-12 ;\x0akRESCUE 13-19 rescue\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"class << v\xffa; y\xffa; rescue V\xffa => k\xffa; z\xffa; end", shape: b"(s_class expr=(send method_name=\x22v\xff\x00\x22 args=[]) body=(rescue body=(send method_name=\x22y\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x02\x22)]) exc_var=(lvasgn name=\x22k\xff\x03\x22) body=(send method_name=\x22z\xff\x04\x22 args=[]))]))", full: b"(s_class expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=9-11 expression=9-11) body=(rescue body=(send method_name=\x22y\xff\x01\x22 args=[] selector=13-15 expression=13-15) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x02\x22 name=24-26 expression=24-26)] expression=24-26) exc_var=(lvasgn name=\x22k\xff\x03\x22 name=30-32 expression=30-32) body=(send method_name=\x22z\xff\x04\x22 args=[] selector=34-36 expression=34-36) keyword=17-23 assoc=27-29 begin=32-33 expression=17-36)] expression=13-36) keyword=0-5 operator=6-8 end=38-41 expression=0-41)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atLSHFT 6-8 <<\x0atIDENTIFIER 9-11 v\xff\x00\x0atSEMI 11-12 ;\x0atIDENTIFIER 13-15 y\xff\x01\x0atSEMI 15-16 ;\x0akRESCUE 17-23 rescue\x0atCONSTANT 24-26 V\xff\x02\x0atASSOC 27-29 =>\x0atIDENTIFIER 30-32 k\xff\x03\x0atSEMI 32-33 ;\x0atIDENTIFIER 34-36 z\xff\x04\x0atSEMI 36-37 ;\x0akEND 38-41 end\x0aEOF 41-41 " },
    Rec { t: b"class << v\xffa; ensure; end", shape: b"(s_class expr=(send method_name=\x22v\xff\x00\x22 args=[]) body=(ensure))", full: b"(s_class expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=9-11 expression=9-11) body=(ensure keyword=13-19 expression=13-19) keyword=0-5 operator=6-8 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atLSHFT 6-8 <<\x0atIDENTIFIER 9-11 v\xff\x00\x0atSEMI 11-12 ;\x0akENSURE 13-19 ensure\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"class << v\xffa; y\xffa; ensure; z\xffa; end", shape: b"(s_class expr=(send method_name=\x22v\xff\x00\x22 args=[]) body=(ensure body=(send method_name=\x22y\xff\x01\x22 args=[]) ensure=(send method_name=\x22z\xff\x02\x22 args=[])))", full: b"(s_class expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=9-11 expression=9-11) body=(ensure body=(send method_name=\x22y\xff\x01\x22 args=[] selector=13-15 expression=13-15) ensure=(send method_name=\x22z\xff\x02\x22 args=[] selector=25-27 expression=25-27) keyword=17-23 expression=13-27) keyword=0-5 operator=6-8 end=29-32 expression=0-32)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atLSHFT 6-8 <<\x0atIDENTIFIER 9-11 v\xff\x00\x0atSEMI 11-12 ;\x0atIDENTIFIER 13-15 y\xff\x01\x0atSEMI 15-16 ;\x0akENSURE 17-23 ensure\x0atSEMI 23-24 ;\x0atIDENTIFIER 25-27 z\xff\x02\x0atSEMI 27-28 ;\x0akEND 29-32 end\x0aEOF 32-32 " },
    Rec { t: b"class << v\xffa; y\xffa; rescue; z\xffa; else; k\xffa; ensure; j\xffa; end", shape: b"(s_class expr=(send method_name=\x22v\xff\x00\x22 args=[]) body=(ensure body=(rescue body=(send method_name=\x22y\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22z\xff\x02\x22 args=[]))] else_=(send method_name=\x22k\xff\x03\x22 args=[])) ensure=(send method_name=\x22j\xff\x04\x22 args=[])))", full: b"(s_class expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=9-11 expression=9-11) body=(ensure body=(rescue body=(send method_name=\x22y\xff\x01\x22 args=[] selector=13-15 expression=13-15) rescue_bodies=[(rescue_body body=(send method_name=\x22z\xff\x02\x22 args=[] selector=25-27 expression=25-27) keyword=17-23 begin=23-24 expression=17-27)] else_=(send method_name=\x22k\xff\x03\x22 args=[] selector=35-37 expression=35-37) else=29-33 expression=13-37) ensure=(send method_name=\x22j\xff\x04\x22 args=[] selector=47-49 expression=47-49) keyword=39-45 expression=13-49) keyword=0-5 operator=6-8 end=51-54 expression=0-54)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atLSHFT 6-8 <<\x0atIDENTIFIER 9-11 v\xff\x00\x0atSEMI 11-12 ;\x0atIDENTIFIER 13-15 y\xff\x01\x0atSEMI 15-16 ;\x0akRESCUE 17-23 rescue\x0atSEMI 23-24 ;\x0atIDENTIFIER 25-27 z\xff\x02\x0atSEMI 27-28 ;\x0akELSE 29-33 else\x0atSEMI 33-34 ;\x0atIDENTIFIER 35-37 k\xff\x03\x0atSEMI 37-38 ;\x0akENSURE 39-45 ensure\x0atSEMI 45-46 ;\x0atIDENTIFIER 47-49 j\xff\x04\x0atSEMI 49-50 ;\x0akEND 51-54 end\x0aEOF 54-54 " },
    Rec { t: b"class << v\xffa; rescue; else; ensure; end", shape: b"(s_class expr=(send method_name=\x22v\xff\x00\x22 args=[]) body=(ensure body=(rescue rescue_bodies=[(rescue_body)])))", full: b"(s_class expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=9-11 expression=9-11) body=(ensure body=(rescue rescue_bodies=[(rescue_body keyword=13-19 begin=19-20 expression=13-20)] else=21-25 expression=13-25) keyword=27-33 expression=13-33) keyword=0-5 operator=6-8 end=35-38 expression=0-38)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atLSHFT 6-8 <<\x0atIDENTIFIER 9-11 v\xff\x00\x0atSEMI 11-12 ;\x0akRESCUE 13-19 rescue\x0atSEMI 19-20 ;\x0akELSE 21-25 else\x0atSEMI 25-26 ;\x0akENSURE 27-33 ensure\x0atSEMI 33-34 ;\x0akEND 35-38 end\x0aEOF 38-38 " },
    Rec { t: b"v\xffa do y\xffa; end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(send method_name=\x22y\xff\x01\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) body=(send method_name=\x22y\xff\x01\x22 args=[] selector=6-8 expression=6-8) begin=3-5 end=10-13 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0atIDENTIFIER 6-8 y\xff\x01\x0atSEMI 8-9 ;\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"v\xffa do y\xffa; z\xffa; end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(begin statements=[(send method_name=\x22y\xff\x01\x22 args=[]) (send method_name=\x22z\xff\x02\x22 args=[])]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) body=(begin statements=[(send method_name=\x22y\xff\x01\x22 args=[] selector=6-8 expression=6-8) (send method_name=\x22z\xff\x02\x22 args=[] selector=10-12 expression=10-12)] expression=6-12) begin=3-5 end=14-17 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0atIDENTIFIER 6-8 y\xff\x01\x0atSEMI 8-9 ;\x0atIDENTIFIER 10-12 z\xff\x02\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"v\xffa do rescue; end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(rescue rescue_bodies=[(rescue_body)]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) body=(rescue rescue_bodies=[(rescue_body keyword=6-12 begin=12-13 expression=6-13)] expression=6-13) begin=3-5 end=14-17 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0akRESCUE 6-12 rescue\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"v\xffa do y\xffa; rescue V\xffa => k\xffa; z\xffa; end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(rescue body=(send method_name=\x22y\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x02\x22)]) exc_var=(lvasgn name=\x22k\xff\x03\x22) body=(send method_name=\x22z\xff\x04\x22 args=[]))]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) body=(rescue body=(send method_name=\x22y\xff\x01\x22 args=[] selector=6-8 expression=6-8) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x02\x22 name=17-19 expression=17-19)] expression=17-19) exc_var=(lvasgn name=\x22k\xff\x03\x22 name=23-25 expression=23-25) body=(send method_name=\x22z\xff\x04\x22 args=[] selector=27-29 expression=27-29) keyword=10-16 assoc=20-22 begin=25-26 expression=10-29)] expression=6-29) begin=3-5 end=31-34 expression=0-34)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0atIDENTIFIER 6-8 y\xff\x01\x0atSEMI 8-9 ;\x0akRESCUE 10-16 rescue\x0atCONSTANT 17-19 V\xff\x02\x0atASSOC 20-22 =>\x0atIDENTIFIER 23-25 k\xff\x03\x0atSEMI 25-26 ;\x0atIDENTIFIER 27-29 z\xff\x04\x0atSEMI 29-30 ;\x0akEND 31-34 end\x0aEOF 34-34 " },
    Rec { t: b"v\xffa do ensure; end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(ensure))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) body=(ensure keyword=6-12 expression=6-12) begin=3-5 end=14-17 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0akENSURE 6-12 ensure\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"v\xffa do y\xffa; ensure; z\xffa; end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(ensure body=(send method_name=\x22y\xff\x01\x22 args=[]) ensure=(send method_name=\x22z\xff\x02\x22 args=[])))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) body=(ensure body=(send method_name=\x22y\xff\x01\x22 args=[] selector=6-8 expression=6-8) ensure=(send method_name=\x22z\xff\x02\x22 args=[] selector=18-20 expression=18-20) keyword=10-16 expression=6-20) begin=3-5 end=22-25 expression=0-25)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0atIDENTIFIER 6-8 y\xff\x01\x0atSEMI 8-9 ;\x0akENSURE 10-16 ensure\x0atSEMI 16-17 ;\x0atIDENTIFIER 18-20 z\xff\x02\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"v\xffa do y\xffa; rescue; z\xffa; else; k\xffa; ensure; j\xffa; end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(ensure body=(rescue body=(send method_name=\x22y\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22z\xff\x02\x22 args=[]))] else_=(send method_name=\x22k\xff\x03\x22 args=[])) ensure=(send method_name=\x22j\xff\x04\x22 args=[])))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) body=(ensure body=(rescue body=(send method_name=\x22y\xff\x01\x22 args=[] selector=6-8 expression=6-8) rescue_bodies=[(rescue_body body=(send method_name=\x22z\xff\x02\x22 args=[] selector=18-20 expression=18-20) keyword=10-16 begin=16-17 expression=10-20)] else_=(send method_name=\x22k\xff\x03\x22 args=[] selector=28-30 expression=28-30) else=22-26 expression=6-30) ensure=(send method_name=\x22j\xff\x04\x22 args=[] selector=40-42 expression=40-42) keyword=32-38 expression=6-42) begin=3-5 end=44-47 expression=0-47)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0atIDENTIFIER 6-8 y\xff\x01\x0atSEMI 8-9 ;\x0akRESCUE 10-16 rescue\x0atSEMI 16-17 ;\x0atIDENTIFIER 18-20 z\xff\x02\x0atSEMI 20-21 ;\x0akELSE 22-26 else\x0atSEMI 26-27 ;\x0atIDENTIFIER 28-30 k\xff\x03\x0atSEMI 30-31 ;\x0akENSURE 32-38 ensure\x0atSEMI 38-39 ;\x0atIDENTIFIER 40-42 j\xff\x04\x0atSEMI 42-43 ;\x0akEND 44-47 end\x0aEOF 47-47 " },
    Rec { t: b"v\xffa do rescue; else; ensure; end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(ensure body=(rescue rescue_bodies=[(rescue_body)])))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) body=(ensure body=(rescue rescue_bodies=[(rescue_body keyword=6-12 begin=12-13 expression=6-13)] else=14-18 expression=6-18) keyword=20-26 expression=6-26) begin=3-5 end=28-31 expression=0-31)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0akRESCUE 6-12 rescue\x0atSEMI 12-13 ;\x0akELSE 14-18 else\x0atSEMI 18-19 ;\x0akENSURE 20-26 ensure\x0atSEMI 26-27 ;\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"v\xffa do |x\xffa| end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22)])]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22 expression=7-9)] expression=7-9)] expression=6-10 begin=6-7 end=9-10) begin=3-5 end=11-14 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0atPIPE 6-7 |\x0atIDENTIFIER 7-9 x\xff\x01\x0atPIPE 9-10 |\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"v\xffa do |x\xffa| yo; end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22)])]) body=(send method_name=\x22yo\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22 expression=7-9)] expression=7-9)] expression=6-10 begin=6-7 end=9-10) body=(send method_name=\x22yo\x22 args=[] selector=11-13 expression=11-13) begin=3-5 end=15-18 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0atPIPE 6-7 |\x0atIDENTIFIER 7-9 x\xff\x01\x0atPIPE 9-10 |\x0atIDENTIFIER 11-13 yo\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"v\xffa do |x\xffa| yo; zo; end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22)])]) body=(begin statements=[(send method_name=\x22yo\x22 args=[]) (send method_name=\x22zo\x22 args=[])]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22 expression=7-9)] expression=7-9)] expression=6-10 begin=6-7 end=9-10) body=(begin statements=[(send method_name=\x22yo\x22 args=[] selector=11-13 expression=11-13) (send method_name=\x22zo\x22 args=[] selector=15-17 expression=15-17)] expression=11-17) begin=3-5 end=19-22 expression=0-22)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0atPIPE 6-7 |\x0atIDENTIFIER 7-9 x\xff\x01\x0atPIPE 9-10 |\x0atIDENTIFIER 11-13 yo\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 zo\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"v\xffa do |x\xffa| rescue; end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22)])]) body=(rescue rescue_bodies=[(rescue_body)]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22 expression=7-9)] expression=7-9)] expression=6-10 begin=6-7 end=9-10) body=(rescue rescue_bodies=[(rescue_body keyword=11-17 begin=17-18 expression=11-18)] expression=11-18) begin=3-5 end=19-22 expression=0-22)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0atPIPE 6-7 |\x0atIDENTIFIER 7-9 x\xff\x01\x0atPIPE 9-10 |\x0akRESCUE 11-17 rescue\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"v\xffa do |x\xffa| yo; rescue Vo => ko; zo; end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22)])]) body=(rescue body=(send method_name=\x22yo\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22Vo\x22)]) exc_var=(lvasgn name=\x22ko\x22) body=(send method_name=\x22zo\x22 args=[]))]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22 expression=7-9)] expression=7-9)] expression=6-10 begin=6-7 end=9-10) body=(rescue body=(send method_name=\x22yo\x22 args=[] selector=11-13 expression=11-13) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22Vo\x22 name=22-24 expression=22-24)] expression=22-24) exc_var=(lvasgn name=\x22ko\x22 name=28-30 expression=28-30) body=(send method_name=\x22zo\x22 args=[] selector=32-34 expression=32-34) keyword=15-21 assoc=25-27 begin=30-31 expression=15-34)] expression=11-34) begin=3-5 end=36-39 expression=0-39)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0atPIPE 6-7 |\x0atIDENTIFIER 7-9 x\xff\x01\x0atPIPE 9-10 |\x0atIDENTIFIER 11-13 yo\x0atSEMI 13-14 ;\x0akRESCUE 15-21 rescue\x0atCONSTANT 22-24 Vo\x0atASSOC 25-27 =>\x0atIDENTIFIER 28-30 ko\x0atSEMI 30-31 ;\x0atIDENTIFIER 32-34 zo\x0atSEMI 34-35 ;\x0akEND 36-39 end\x0aEOF 39-39 " },
    Rec { t: b"v\xffa do |x\xffa| ensure; end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22)])]) body=(ensure))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22 expression=7-9)] expression=7-9)] expression=6-10 begin=6-7 end=9-10) body=(ensure keyword=11-17 expression=11-17) begin=3-5 end=19-22 expression=0-22)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0atPIPE 6-7 |\x0atIDENTIFIER 7-9 x\xff\x01\x0atPIPE 9-10 |\x0akENSURE 11-17 ensure\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"v\xffa do |x\xffa| yo; ensure; zo; end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22)])]) body=(ensure body=(send method_name=\x22yo\x22 args=[]) ensure=(send method_name=\x22zo\x22 args=[])))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22 expression=7-9)] expression=7-9)] expression=6-10 begin=6-7 end=9-10) body=(ensure body=(send method_name=\x22yo\x22 args=[] selector=11-13 expression=11-13) ensure=(send method_name=\x22zo\x22 args=[] selector=23-25 expression=23-25) keyword=15-21 expression=11-25) begin=3-5 end=27-30 expression=0-30)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0atPIPE 6-7 |\x0atIDENTIFIER 7-9 x\xff\x01\x0atPIPE 9-10 |\x0atIDENTIFIER 11-13 yo\x0atSEMI 13-14 ;\x0akENSURE 15-21 ensure\x0atSEMI 21-22 ;\x0atIDENTIFIER 23-25 zo\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"v\xffa do |x\xffa| yo; rescue; zo; else; ko; ensure; jo; end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22)])]) body=(ensure body=(rescue body=(send method_name=\x22yo\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22zo\x22 args=[]))] else_=(send method_name=\x22ko\x22 args=[])) ensure=(send method_name=\x22jo\x22 args=[])))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22 expression=7-9)] expression=7-9)] expression=6-10 begin=6-7 end=9-10) body=(ensure body=(rescue body=(send method_name=\x22yo\x22 args=[] selector=11-13 expression=11-13) rescue_bodies=[(rescue_body body=(send method_name=\x22zo\x22 args=[] selector=23-25 expression=23-25) keyword=15-21 begin=21-22 expression=15-25)] else_=(send method_name=\x22ko\x22 args=[] selector=33-35 expression=33-35) else=27-31 expression=11-35) ensure=(send method_name=\x22jo\x22 args=[] selector=45-47 expression=45-47) keyword=37-43 expression=11-47) begin=3-5 end=49-52 expression=0-52)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0atPIPE 6-7 |\x0atIDENTIFIER 7-9 x\xff\x01\x0atPIPE 9-10 |\x0atIDENTIFIER 11-13 yo\x0atSEMI 13-14 ;\x0akRESCUE 15-21 rescue\x0atSEMI 21-22 ;\x0atIDENTIFIER 23-25 zo\x0atSEMI 25-26 ;\x0akELSE 27-31 else\x0atSEMI 31-32 ;\x0atIDENTIFIER 33-35 ko\x0atSEMI 35-36 ;\x0akENSURE 37-43 ensure\x0atSEMI 43-44 ;\x0atIDENTIFIER 45-47 jo\x0atSEMI 47-48 ;\x0akEND 49-52 end\x0aEOF 52-52 " },
    Rec { t: b"v\xffa do |x\xffa| rescue; else; ensure; end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22)])]) body=(ensure body=(rescue rescue_bodies=[(rescue_body)])))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22 expression=7-9)] expression=7-9)] expression=6-10 begin=6-7 end=9-10) body=(ensure body=(rescue rescue_bodies=[(rescue_body keyword=11-17 begin=17-18 expression=11-18)] else=19-23 expression=11-23) keyword=25-31 expression=11-31) begin=3-5 end=33-36 expression=0-36)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0atPIPE 6-7 |\x0atIDENTIFIER 7-9 x\xff\x01\x0atPIPE 9-10 |\x0akRESCUE 11-17 rescue\x0atSEMI 17-18 ;\x0akELSE 19-23 else\x0atSEMI 23-24 ;\x0akENSURE 25-31 ensure\x0atSEMI 31-32 ;\x0akEND 33-36 end\x0aEOF 36-36 " },
    Rec { t: b"-> do end", shape: b"(block call=(lambda))", full: b"(block call=(lambda expression=0-2) begin=3-5 end=6-9 expression=0-9)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0akDO_LAMBDA 3-5 do\x0akEND 6-9 end\x0aEOF 9-9 " },
    Rec { t: b"-> do y\xffa; end", shape: b"(block call=(lambda) body=(send method_name=\x22y\xff\x00\x22 args=[]))", full: b"(block call=(lambda expression=0-2) body=(send method_name=\x22y\xff\x00\x22 args=[] selector=6-8 expression=6-8) begin=3-5 end=10-13 expression=0-13)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0akDO_LAMBDA 3-5 do\x0atIDENTIFIER 6-8 y\xff\x00\x0atSEMI 8-9 ;\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"-> do y\xffa; z\xffa; end", shape: b"(block call=(lambda) body=(begin statements=[(send method_name=\x22y\xff\x00\x22 args=[]) (send method_name=\x22z\xff\x01\x22 args=[])]))", full: b"(block call=(lambda expression=0-2) body=(begin statements=[(send method_name=\x22y\xff\x00\x22 args=[] selector=6-8 expression=6-8) (send method_name=\x22z\xff\x01\x22 args=[] selector=10-12 expression=10-12)] expression=6-12) begin=3-5 end=14-17 expression=0-17)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0akDO_LAMBDA 3-5 do\x0atIDENTIFIER 6-8 y\xff\x00\x0atSEMI 8-9 ;\x0atIDENTIFIER 10-12 z\xff\x01\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"-> do rescue; end", shape: b"(block call=(lambda) body=(rescue rescue_bodies=[(rescue_body)]))", full: b"(block call=(lambda expression=0-2) body=(rescue rescue_bodies=[(rescue_body keyword=6-12 begin=12-13 expression=6-13)] expression=6-13) begin=3-5 end=14-17 expression=0-17)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0akDO_LAMBDA 3-5 do\x0akRESCUE 6-12 rescue\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"-> do y\xffa; rescue V\xffa => ko; zo; end", shape: b"(block call=(lambda) body=(rescue body=(send method_name=\x22y\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22)]) exc_var=(lvasgn name=\x22ko\x22) body=(send method_name=\x22zo\x22 args=[]))]))", full: b"(block call=(lambda expression=0-2) body=(rescue body=(send method_name=\x22y\xff\x00\x22 args=[] selector=6-8 expression=6-8) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22 name=17-19 expression=17-19)] expression=17-19) exc_var=(lvasgn name=\x22ko\x22 name=23-25 expression=23-25) body=(send method_name=\x22zo\x22 args=[] selector=27-29 expression=27-29) keyword=10-16 assoc=20-22 begin=25-26 expression=10-29)] expression=6-29) begin=3-5 end=31-34 expression=0-34)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0akDO_LAMBDA 3-5 do\x0atIDENTIFIER 6-8 y\xff\x00\x0atSEMI 8-9 ;\x0akRESCUE 10-16 rescue\x0atCONSTANT 17-19 V\xff\x01\x0atASSOC 20-22 =>\x0atIDENTIFIER 23-25 ko\x0atSEMI 25-26 ;\x0atIDENTIFIER 27-29 zo\x0atSEMI 29-30 ;\x0akEND 31-34 end\x0aEOF 34-34 " },
    Rec { t: b"-> do ensure; end", shape: b"(block call=(lambda) body=(ensure))", full: b"(block call=(lambda expression=0-2) body=(ensure keyword=6-12 expression=6-12) begin=3-5 end=14-17 expression=0-17)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0akDO_LAMBDA 3-5 do\x0akENSURE 6-12 ensure\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"-> do y\xffa; ensure; z\xffa; end", shape: b"(block call=(lambda) body=(ensure body=(send method_name=\x22y\xff\x00\x22 args=[]) ensure=(send method_name=\x22z\xff\x01\x22 args=[])))", full: b"(block call=(lambda expression=0-2) body=(ensure body=(send method_name=\x22y\xff\x00\x22 args=[] selector=6-8 expression=6-8) ensure=(send method_name=\x22z\xff\x01\x22 args=[] selector=18-20 expression=18-20) keyword=10-16 expression=6-20) begin=3-5 end=22-25 expression=0-25)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0akDO_LAMBDA 3-5 do\x0atIDENTIFIER 6-8 y\xff\x00\x0atSEMI 8-9 ;\x0akENSURE 10-16 ensure\x0atSEMI 16-17 ;\x0atIDENTIFIER 18-20 z\xff\x01\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"-> do y\xffa; rescue; z\xffa; else; ko; ensure; jo; end", shape: b"(block call=(lambda) body=(ensure body=(rescue body=(send method_name=\x22y\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22z\xff\x01\x22 args=[]))] else_=(send method_name=\x22ko\x22 args=[])) ensure=(send method_name=\x22jo\x22 args=[])))", full: b"(block call=(lambda expression=0-2) body=(ensure body=(rescue body=(send method_name=\x22y\xff\x00\x22 args=[] selector=6-8 expression=6-8) rescue_bodies=[(rescue_body body=(send method_name=\x22z\xff\x01\x22 args=[] selector=18-20 expression=18-20) keyword=10-16 begin=16-17 expression=10-20)] else_=(send method_name=\x22ko\x22 args=[] selector=28-30 expression=28-30) else=22-26 expression=6-30) ensure=(send method_name=\x22jo\x22 args=[] selector=40-42 expression=40-42) keyword=32-38 expression=6-42) begin=3-5 end=44-47 expression=0-47)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0akDO_LAMBDA 3-5 do\x0atIDENTIFIER 6-8 y\xff\x00\x0atSEMI 8-9 ;\x0akRESCUE 10-16 rescue\x0atSEMI 16-17 ;\x0atIDENTIFIER 18-20 z\xff\x01\x0atSEMI 20-21 ;\x0akELSE 22-26 else\x0atSEMI 26-27 ;\x0atIDENTIFIER 28-30 ko\x0atSEMI 30-31 ;\x0akENSURE 32-38 ensure\x0atSEMI 38-39 ;\x0atIDENTIFIER 40-42 jo\x0atSEMI 42-43 ;\x0akEND 44-47 end\x0aEOF 47-47 " },
    Rec { t: b"-> do rescue; else; ensure; end", shape: b"(block call=(lambda) body=(ensure body=(rescue rescue_bodies=[(rescue_body)])))", full: b"(block call=(lambda expression=0-2) body=(ensure body=(rescue rescue_bodies=[(rescue_body keyword=6-12 begin=12-13 expression=6-13)] else=14-18 expression=6-18) keyword=20-26 expression=6-26) begin=3-5 end=28-31 expression=0-31)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0akDO_LAMBDA 3-5 do\x0akRESCUE 6-12 rescue\x0atSEMI 12-13 ;\x0akELSE 14-18 else\x0atSEMI 18-19 ;\x0akENSURE 20-26 ensure\x0atSEMI 26-27 ;\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"->(x\xffa) do end", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=3-5)] expression=2-6 begin=2-3 end=5-6) begin=7-9 end=10-13 expression=0-13)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atRPAREN 5-6 )\x0akDO_LAMBDA 7-9 do\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"->(x\xffa) do y\xffa; end", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22)]) body=(send method_name=\x22y\xff\x01\x22 args=[]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=3-5)] expression=2-6 begin=2-3 end=5-6) body=(send method_name=\x22y\xff\x01\x22 args=[] selector=10-12 expression=10-12) begin=7-9 end=14-17 expression=0-17)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atRPAREN 5-6 )\x0akDO_LAMBDA 7-9 do\x0atIDENTIFIER 10-12 y\xff\x01\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"->(x\xffa) do y\xffa; zo; end", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22)]) body=(begin statements=[(send method_name=\x22y\xff\x01\x22 args=[]) (send method_name=\x22zo\x22 args=[])]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=3-5)] expression=2-6 begin=2-3 end=5-6) body=(begin statements=[(send method_name=\x22y\xff\x01\x22 args=[] selector=10-12 expression=10-12) (send method_name=\x22zo\x22 args=[] selector=14-16 expression=14-16)] expression=10-16) begin=7-9 end=18-21 expression=0-21)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atRPAREN 5-6 )\x0akDO_LAMBDA 7-9 do\x0atIDENTIFIER 10-12 y\xff\x01\x0atSEMI 12-13 ;\x0atIDENTIFIER 14-16 zo\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"->(x\xffa) do rescue; end", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22)]) body=(rescue rescue_bodies=[(rescue_body)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=3-5)] expression=2-6 begin=2-3 end=5-6) body=(rescue rescue_bodies=[(rescue_body keyword=10-16 begin=16-17 expression=10-17)] expression=10-17) begin=7-9 end=18-21 expression=0-21)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atRPAREN 5-6 )\x0akDO_LAMBDA 7-9 do\x0akRESCUE 10-16 rescue\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"->(x\xffa) do y\xffa; rescue Vo => ko; zo; end", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22)]) body=(rescue body=(send method_name=\x22y\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22Vo\x22)]) exc_var=(lvasgn name=\x22ko\x22) body=(send method_name=\x22zo\x22 args=[]))]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=3-5)] expression=2-6 begin=2-3 end=5-6) body=(rescue body=(send method_name=\x22y\xff\x01\x22 args=[] selector=10-12 expression=10-12) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22Vo\x22 name=21-23 expression=21-23)] expression=21-23) exc_var=(lvasgn name=\x22ko\x22 name=27-29 expression=27-29) body=(send method_name=\x22zo\x22 args=[] selector=31-33 expression=31-33) keyword=14-20 assoc=24-26 begin=29-30 expression=14-33)] expression=10-33) begin=7-9 end=35-38 expression=0-38)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atRPAREN 5-6 )\x0akDO_LAMBDA 7-9 do\x0atIDENTIFIER 10-12 y\xff\x01\x0atSEMI 12-13 ;\x0akRESCUE 14-20 rescue\x0atCONSTANT 21-23 Vo\x0atASSOC 24-26 =>\x0atIDENTIFIER 27-29 ko\x0atSEMI 29-30 ;\x0atIDENTIFIER 31-33 zo\x0atSEMI 33-34 ;\x0akEND 35-38 end\x0aEOF 38-38 " },
    Rec { t: b"->(x\xffa) do ensure; end", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22)]) body=(ensure))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=3-5)] expression=2-6 begin=2-3 end=5-6) body=(ensure keyword=10-16 expression=10-16) begin=7-9 end=18-21 expression=0-21)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atRPAREN 5-6 )\x0akDO_LAMBDA 7-9 do\x0akENSURE 10-16 ensure\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"->(x\xffa) do y\xffa; ensure; zo; end", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22)]) body=(ensure body=(send method_name=\x22y\xff\x01\x22 args=[]) ensure=(send method_name=\x22zo\x22 args=[])))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=3-5)] expression=2-6 begin=2-3 end=5-6) body=(ensure body=(send method_name=\x22y\xff\x01\x22 args=[] selector=10-12 expression=10-12) ensure=(send method_name=\x22zo\x22 args=[] selector=22-24 expression=22-24) keyword=14-20 expression=10-24) begin=7-9 end=26-29 expression=0-29)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atRPAREN 5-6 )\x0akDO_LAMBDA 7-9 do\x0atIDENTIFIER 10-12 y\xff\x01\x0atSEMI 12-13 ;\x0akENSURE 14-20 ensure\x0atSEMI 20-21 ;\x0atIDENTIFIER 22-24 zo\x0atSEMI 24-25 ;\x0akEND 26-29 end\x0aEOF 29-29 " },
    Rec { t: b"->(x\xffa) do y\xffa; rescue; zo; else; ko; ensure; jo; end", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22)]) body=(ensure body=(rescue body=(send method_name=\x22y\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22zo\x22 args=[]))] else_=(send method_name=\x22ko\x22 args=[])) ensure=(send method_name=\x22jo\x22 args=[])))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=3-5)] expression=2-6 begin=2-3 end=5-6) body=(ensure body=(rescue body=(send method_name=\x22y\xff\x01\x22 args=[] selector=10-12 expression=10-12) rescue_bodies=[(rescue_body body=(send method_name=\x22zo\x22 args=[] selector=22-24 expression=22-24) keyword=14-20 begin=20-21 expression=14-24)] else_=(send method_name=\x22ko\x22 args=[] selector=32-34 expression=32-34) else=26-30 expression=10-34) ensure=(send method_name=\x22jo\x22 args=[] selector=44-46 expression=44-46) keyword=36-42 expression=10-46) begin=7-9 end=48-51 expression=0-51)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atRPAREN 5-6 )\x0akDO_LAMBDA 7-9 do\x0atIDENTIFIER 10-12 y\xff\x01\x0atSEMI 12-13 ;\x0akRESCUE 14-20 rescue\x0atSEMI 20-21 ;\x0atIDENTIFIER 22-24 zo\x0atSEMI 24-25 ;\x0akELSE 26-30 else\x0atSEMI 30-31 ;\x0atIDENTIFIER 32-34 ko\x0atSEMI 34-35 ;\x0akENSURE 36-42 ensure\x0atSEMI 42-43 ;\x0atIDENTIFIER 44-46 jo\x0atSEMI 46-47 ;\x0akEND 48-51 end\x0aEOF 51-51 " },
    Rec { t: b"->(x\xffa) do rescue; else; ensure; end", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22)]) body=(ensure body=(rescue rescue_bodies=[(rescue_body)])))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=3-5)] expression=2-6 begin=2-3 end=5-6) body=(ensure body=(rescue rescue_bodies=[(rescue_body keyword=10-16 begin=16-17 expression=10-17)] else=18-22 expression=10-22) keyword=24-30 expression=10-30) begin=7-9 end=32-35 expression=0-35)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atRPAREN 5-6 )\x0akDO_LAMBDA 7-9 do\x0akRESCUE 10-16 rescue\x0atSEMI 16-17 ;\x0akELSE 18-22 else\x0atSEMI 22-23 ;\x0akENSURE 24-30 ensure\x0atSEMI 30-31 ;\x0akEND 32-35 end\x0aEOF 35-35 " },
    Rec { t: b"v\xffa { |z\xffa| }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x01\x22)])]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x01\x22 expression=6-8)] expression=6-8)] expression=5-9 begin=5-6 end=8-9) begin=3-4 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 z\xff\x01\x0atPIPE 8-9 |\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"v\xffa { z\xffa; k\xffa }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(begin statements=[(send method_name=\x22z\xff\x01\x22 args=[]) (send method_name=\x22k\xff\x02\x22 args=[])]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) body=(begin statements=[(send method_name=\x22z\xff\x01\x22 args=[] selector=5-7 expression=5-7) (send method_name=\x22k\xff\x02\x22 args=[] selector=9-11 expression=9-11)] expression=5-11) begin=3-4 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atIDENTIFIER 5-7 z\xff\x01\x0atSEMI 7-8 ;\x0atIDENTIFIER 9-11 k\xff\x02\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"v\xffa do |z\xffa| ko end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x01\x22)])]) body=(send method_name=\x22ko\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x01\x22 expression=7-9)] expression=7-9)] expression=6-10 begin=6-7 end=9-10) body=(send method_name=\x22ko\x22 args=[] selector=11-13 expression=11-13) begin=3-5 end=14-17 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0atPIPE 6-7 |\x0atIDENTIFIER 7-9 z\xff\x01\x0atPIPE 9-10 |\x0atIDENTIFIER 11-13 ko\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"v\xffa { |;z\xffa| }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(shadowarg name=\x22z\xff\x01\x22)]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(shadowarg name=\x22z\xff\x01\x22 expression=7-9)] expression=5-10 begin=5-6 end=9-10) begin=3-4 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atSEMI 6-7 ;\x0atIDENTIFIER 7-9 z\xff\x01\x0atPIPE 9-10 |\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"v\xffa() { }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 begin=2-3 end=3-4 expression=0-4) begin=5-6 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atRPAREN 3-4 )\x0atLCURLY 5-6 {\x0atRCURLY 7-8 }\x0aEOF 8-8 " },
    Rec { t: b"v\xffa() { |z\xffa| }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x01\x22)])]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 begin=2-3 end=3-4 expression=0-4) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x01\x22 expression=8-10)] expression=8-10)] expression=7-11 begin=7-8 end=10-11) begin=5-6 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atRPAREN 3-4 )\x0atLCURLY 5-6 {\x0atPIPE 7-8 |\x0atIDENTIFIER 8-10 z\xff\x01\x0atPIPE 10-11 |\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"v\xffa() { z\xffa; k\xffa }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(begin statements=[(send method_name=\x22z\xff\x01\x22 args=[]) (send method_name=\x22k\xff\x02\x22 args=[])]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 begin=2-3 end=3-4 expression=0-4) body=(begin statements=[(send method_name=\x22z\xff\x01\x22 args=[] selector=7-9 expression=7-9) (send method_name=\x22k\xff\x02\x22 args=[] selector=11-13 expression=11-13)] expression=7-13) begin=5-6 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atRPAREN 3-4 )\x0atLCURLY 5-6 {\x0atIDENTIFIER 7-9 z\xff\x01\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 k\xff\x02\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"v\xffa() do end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 begin=2-3 end=3-4 expression=0-4) begin=5-7 end=8-11 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atRPAREN 3-4 )\x0akDO 5-7 do\x0akEND 8-11 end\x0aEOF 11-11 " },
    Rec { t: b"v\xffa() do |z\xffa| ko end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x01\x22)])]) body=(send method_name=\x22ko\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 begin=2-3 end=3-4 expression=0-4) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x01\x22 expression=9-11)] expression=9-11)] expression=8-12 begin=8-9 end=11-12) body=(send method_name=\x22ko\x22 args=[] selector=13-15 expression=13-15) begin=5-7 end=16-19 expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atRPAREN 3-4 )\x0akDO 5-7 do\x0atPIPE 8-9 |\x0atIDENTIFIER 9-11 z\xff\x01\x0atPIPE 11-12 |\x0atIDENTIFIER 13-15 ko\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"v\xffa() { || }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 begin=2-3 end=3-4 expression=0-4) args=(args args=[] expression=7-9 begin=7-8 end=8-9) begin=5-6 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atRPAREN 3-4 )\x0atLCURLY 5-6 {\x0atPIPE 7-8 |\x0atPIPE 8-9 |\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"v\xffa() { |;z\xffa| }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(shadowarg name=\x22z\xff\x01\x22)]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 begin=2-3 end=3-4 expression=0-4) args=(args args=[(shadowarg name=\x22z\xff\x01\x22 expression=9-11)] expression=7-12 begin=7-8 end=11-12) begin=5-6 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atRPAREN 3-4 )\x0atLCURLY 5-6 {\x0atPIPE 7-8 |\x0atSEMI 8-9 ;\x0atIDENTIFIER 9-11 z\xff\x01\x0atPIPE 11-12 |\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"v\xffa(x\xffa) { }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5)] selector=0-2 begin=2-3 end=5-6 expression=0-6) begin=7-8 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x01\x0atRPAREN 5-6 )\x0atLCURLY 7-8 {\x0atRCURLY 9-10 }\x0aEOF 10-10 " },
    Rec { t: b"v\xffa(x\xffa) { |zo| }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])]) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22)])]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5)] selector=0-2 begin=2-3 end=5-6 expression=0-6) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22 expression=10-12)] expression=10-12)] expression=9-13 begin=9-10 end=12-13) begin=7-8 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x01\x0atRPAREN 5-6 )\x0atLCURLY 7-8 {\x0atPIPE 9-10 |\x0atIDENTIFIER 10-12 zo\x0atPIPE 12-13 |\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"v\xffa(x\xffa) { z\xffa; k\xffa }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])]) body=(begin statements=[(send method_name=\x22z\xff\x02\x22 args=[]) (send method_name=\x22k\xff\x03\x22 args=[])]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5)] selector=0-2 begin=2-3 end=5-6 expression=0-6) body=(begin statements=[(send method_name=\x22z\xff\x02\x22 args=[] selector=9-11 expression=9-11) (send method_name=\x22k\xff\x03\x22 args=[] selector=13-15 expression=13-15)] expression=9-15) begin=7-8 end=16-17 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x01\x0atRPAREN 5-6 )\x0atLCURLY 7-8 {\x0atIDENTIFIER 9-11 z\xff\x02\x0atSEMI 11-12 ;\x0atIDENTIFIER 13-15 k\xff\x03\x0atRCURLY 16-17 }\x0aEOF 17-17 " },
    Rec { t: b"v\xffa(x\xffa) do end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5)] selector=0-2 begin=2-3 end=5-6 expression=0-6) begin=7-9 end=10-13 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x01\x0atRPAREN 5-6 )\x0akDO 7-9 do\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"v\xffa(x\xffa) do |zo| ko end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])]) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22)])]) body=(send method_name=\x22ko\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5)] selector=0-2 begin=2-3 end=5-6 expression=0-6) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22 expression=11-13)] expression=11-13)] expression=10-14 begin=10-11 end=13-14) body=(send method_name=\x22ko\x22 args=[] selector=15-17 expression=15-17) begin=7-9 end=18-21 expression=0-21)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x01\x0atRPAREN 5-6 )\x0akDO 7-9 do\x0atPIPE 10-11 |\x0atIDENTIFIER 11-13 zo\x0atPIPE 13-14 |\x0atIDENTIFIER 15-17 ko\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"v\xffa(x\xffa) { || }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])]) args=(args args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5)] selector=0-2 begin=2-3 end=5-6 expression=0-6) args=(args args=[] expression=9-11 begin=9-10 end=10-11) begin=7-8 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x01\x0atRPAREN 5-6 )\x0atLCURLY 7-8 {\x0atPIPE 9-10 |\x0atPIPE 10-11 |\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"v\xffa(x\xffa) { |;zo| }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])]) args=(args args=[(shadowarg name=\x22zo\x22)]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5)] selector=0-2 begin=2-3 end=5-6 expression=0-6) args=(args args=[(shadowarg name=\x22zo\x22 expression=11-13)] expression=9-14 begin=9-10 end=13-14) begin=7-8 end=15-16 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x01\x0atRPAREN 5-6 )\x0atLCURLY 7-8 {\x0atPIPE 9-10 |\x0atSEMI 10-11 ;\x0atIDENTIFIER 11-13 zo\x0atPIPE 13-14 |\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"v\xffa.x\xffa { }", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-3 selector=3-5 expression=0-5) begin=6-7 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atLCURLY 6-7 {\x0atRCURLY 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"v\xffa.x\xffa { |zo| }", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22)])]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-3 selector=3-5 expression=0-5) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22 expression=9-11)] expression=9-11)] expression=8-12 begin=8-9 end=11-12) begin=6-7 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atLCURLY 6-7 {\x0atPIPE 8-9 |\x0atIDENTIFIER 9-11 zo\x0atPIPE 11-12 |\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"v\xffa.x\xffa { z\xffa; k\xffa }", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) body=(begin statements=[(send method_name=\x22z\xff\x02\x22 args=[]) (send method_name=\x22k\xff\x03\x22 args=[])]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-3 selector=3-5 expression=0-5) body=(begin statements=[(send method_name=\x22z\xff\x02\x22 args=[] selector=8-10 expression=8-10) (send method_name=\x22k\xff\x03\x22 args=[] selector=12-14 expression=12-14)] expression=8-14) begin=6-7 end=15-16 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atLCURLY 6-7 {\x0atIDENTIFIER 8-10 z\xff\x02\x0atSEMI 10-11 ;\x0atIDENTIFIER 12-14 k\xff\x03\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"v\xffa.x\xffa do end", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-3 selector=3-5 expression=0-5) begin=6-8 end=9-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0akDO 6-8 do\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"v\xffa.x\xffa do |zo| ko end", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22)])]) body=(send method_name=\x22ko\x22 args=[]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-3 selector=3-5 expression=0-5) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22 expression=10-12)] expression=10-12)] expression=9-13 begin=9-10 end=12-13) body=(send method_name=\x22ko\x22 args=[] selector=14-16 expression=14-16) begin=6-8 end=17-20 expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0akDO 6-8 do\x0atPIPE 9-10 |\x0atIDENTIFIER 10-12 zo\x0atPIPE 12-13 |\x0atIDENTIFIER 14-16 ko\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"v\xffa.x\xffa { || }", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) args=(args args=[]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-3 selector=3-5 expression=0-5) args=(args args=[] expression=8-10 begin=8-9 end=9-10) begin=6-7 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atLCURLY 6-7 {\x0atPIPE 8-9 |\x0atPIPE 9-10 |\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"v\xffa.x\xffa { |;zo| }", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) args=(args args=[(shadowarg name=\x22zo\x22)]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-3 selector=3-5 expression=0-5) args=(args args=[(shadowarg name=\x22zo\x22 expression=10-12)] expression=8-13 begin=8-9 end=12-13) begin=6-7 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atLCURLY 6-7 {\x0atPIPE 8-9 |\x0atSEMI 9-10 ;\x0atIDENTIFIER 10-12 zo\x0atPIPE 12-13 |\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"v\xffa.x\xffa(y\xffa) { }", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[])]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[] selector=6-8 expression=6-8)] dot=2-3 selector=3-5 begin=5-6 end=8-9 expression=0-9) begin=10-11 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 y\xff\x02\x0atRPAREN 8-9 )\x0atLCURLY 10-11 {\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"v\xffa.x\xffa(yo) { |zo| }", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22yo\x22 args=[])]) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22)])]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22yo\x22 args=[] selector=6-8 expression=6-8)] dot=2-3 selector=3-5 begin=5-6 end=8-9 expression=0-9) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22 expression=13-15)] expression=13-15)] expression=12-16 begin=12-13 end=15-16) begin=10-11 end=17-18 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 yo\x0atRPAREN 8-9 )\x0atLCURLY 10-11 {\x0atPIPE 12-13 |\x0atIDENTIFIER 13-15 zo\x0atPIPE 15-16 |\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"v\xffa.x\xffa(y\xffa) { z\xffa; k\xffa }", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[])]) body=(begin statements=[(send method_name=\x22z\xff\x03\x22 args=[]) (send method_name=\x22k\xff\x04\x22 args=[])]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[] selector=6-8 expression=6-8)] dot=2-3 selector=3-5 begin=5-6 end=8-9 expression=0-9) body=(begin statements=[(send method_name=\x22z\xff\x03\x22 args=[] selector=12-14 expression=12-14) (send method_name=\x22k\xff\x04\x22 args=[] selector=16-18 expression=16-18)] expression=12-18) begin=10-11 end=19-20 expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 y\xff\x02\x0atRPAREN 8-9 )\x0atLCURLY 10-11 {\x0atIDENTIFIER 12-14 z\xff\x03\x0atSEMI 14-15 ;\x0atIDENTIFIER 16-18 k\xff\x04\x0atRCURLY 19-20 }\x0aEOF 20-20 " },
    Rec { t: b"v\xffa.x\xffa(y\xffa) do end", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[])]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[] selector=6-8 expression=6-8)] dot=2-3 selector=3-5 begin=5-6 end=8-9 expression=0-9) begin=10-12 end=13-16 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 y\xff\x02\x0atRPAREN 8-9 )\x0akDO 10-12 do\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"v\xffa.x\xffa(yo) do |zo| ko end", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22yo\x22 args=[])]) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22)])]) body=(send method_name=\x22ko\x22 args=[]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22yo\x22 args=[] selector=6-8 expression=6-8)] dot=2-3 selector=3-5 begin=5-6 end=8-9 expression=0-9) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22 expression=14-16)] expression=14-16)] expression=13-17 begin=13-14 end=16-17) body=(send method_name=\x22ko\x22 args=[] selector=18-20 expression=18-20) begin=10-12 end=21-24 expression=0-24)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 yo\x0atRPAREN 8-9 )\x0akDO 10-12 do\x0atPIPE 13-14 |\x0atIDENTIFIER 14-16 zo\x0atPIPE 16-17 |\x0atIDENTIFIER 18-20 ko\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"v\xffa.x\xffa(yo) { || }", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22yo\x22 args=[])]) args=(args args=[]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22yo\x22 args=[] selector=6-8 expression=6-8)] dot=2-3 selector=3-5 begin=5-6 end=8-9 expression=0-9) args=(args args=[] expression=12-14 begin=12-13 end=13-14) begin=10-11 end=15-16 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 yo\x0atRPAREN 8-9 )\x0atLCURLY 10-11 {\x0atPIPE 12-13 |\x0atPIPE 13-14 |\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"v\xffa.x\xffa(yo) { |;zo| }", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22yo\x22 args=[])]) args=(args args=[(shadowarg name=\x22zo\x22)]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22yo\x22 args=[] selector=6-8 expression=6-8)] dot=2-3 selector=3-5 begin=5-6 end=8-9 expression=0-9) args=(args args=[(shadowarg name=\x22zo\x22 expression=14-16)] expression=12-17 begin=12-13 end=16-17) begin=10-11 end=18-19 expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 yo\x0atRPAREN 8-9 )\x0atLCURLY 10-11 {\x0atPIPE 12-13 |\x0atSEMI 13-14 ;\x0atIDENTIFIER 14-16 zo\x0atPIPE 16-17 |\x0atRCURLY 18-19 }\x0aEOF 19-19 " },
    Rec { t: b"v\xffa&.x\xffa { }", shape: b"(block call=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]))", full: b"(block call=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-4 selector=4-6 expression=0-6) begin=7-8 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atANDDOT 2-4 &.\x0atIDENTIFIER 4-6 x\xff\x01\x0atLCURLY 7-8 {\x0atRCURLY 9-10 }\x0aEOF 10-10 " },
    Rec { t: b"v\xffa&.x\xffa { |zo| }", shape: b"(block call=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22)])]))", full: b"(block call=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-4 selector=4-6 expression=0-6) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22 expression=10-12)] expression=10-12)] expression=9-13 begin=9-10 end=12-13) begin=7-8 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atANDDOT 2-4 &.\x0atIDENTIFIER 4-6 x\xff\x01\x0atLCURLY 7-8 {\x0atPIPE 9-10 |\x0atIDENTIFIER 10-12 zo\x0atPIPE 12-13 |\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"v\xffa&.x\xffa { z\xffa; k\xffa }", shape: b"(block call=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) body=(begin statements=[(send method_name=\x22z\xff\x02\x22 args=[]) (send method_name=\x22k\xff\x03\x22 args=[])]))", full: b"(block call=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-4 selector=4-6 expression=0-6) body=(begin statements=[(send method_name=\x22z\xff\x02\x22 args=[] selector=9-11 expression=9-11) (send method_name=\x22k\xff\x03\x22 args=[] selector=13-15 expression=13-15)] expression=9-15) begin=7-8 end=16-17 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atANDDOT 2-4 &.\x0atIDENTIFIER 4-6 x\xff\x01\x0atLCURLY 7-8 {\x0atIDENTIFIER 9-11 z\xff\x02\x0atSEMI 11-12 ;\x0atIDENTIFIER 13-15 k\xff\x03\x0atRCURLY 16-17 }\x0aEOF 17-17 " },
    Rec { t: b"v\xffa&.x\xffa do end", shape: b"(block call=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]))", full: b"(block call=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-4 selector=4-6 expression=0-6) begin=7-9 end=10-13 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atANDDOT 2-4 &.\x0atIDENTIFIER 4-6 x\xff\x01\x0akDO 7-9 do\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"v\xffa&.x\xffa do |zo| ko end", shape: b"(block call=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22)])]) body=(send method_name=\x22ko\x22 args=[]))", full: b"(block call=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-4 selector=4-6 expression=0-6) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22 expression=11-13)] expression=11-13)] expression=10-14 begin=10-11 end=13-14) body=(send method_name=\x22ko\x22 args=[] selector=15-17 expression=15-17) begin=7-9 end=18-21 expression=0-21)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atANDDOT 2-4 &.\x0atIDENTIFIER 4-6 x\xff\x01\x0akDO 7-9 do\x0atPIPE 10-11 |\x0atIDENTIFIER 11-13 zo\x0atPIPE 13-14 |\x0atIDENTIFIER 15-17 ko\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"v\xffa&.x\xffa { || }", shape: b"(block call=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) args=(args args=[]))", full: b"(block call=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-4 selector=4-6 expression=0-6) args=(args args=[] expression=9-11 begin=9-10 end=10-11) begin=7-8 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atANDDOT 2-4 &.\x0atIDENTIFIER 4-6 x\xff\x01\x0atLCURLY 7-8 {\x0atPIPE 9-10 |\x0atPIPE 10-11 |\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"v\xffa&.x\xffa { |;zo| }", shape: b"(block call=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) args=(args args=[(shadowarg name=\x22zo\x22)]))", full: b"(block call=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-4 selector=4-6 expression=0-6) args=(args args=[(shadowarg name=\x22zo\x22 expression=11-13)] expression=9-14 begin=9-10 end=13-14) begin=7-8 end=15-16 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atANDDOT 2-4 &.\x0atIDENTIFIER 4-6 x\xff\x01\x0atLCURLY 7-8 {\x0atPIPE 9-10 |\x0atSEMI 10-11 ;\x0atIDENTIFIER 11-13 zo\x0atPIPE 13-14 |\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"v\xffa::x\xffa { }", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-4 selector=4-6 expression=0-6) begin=7-8 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atIDENTIFIER 4-6 x\xff\x01\x0atLCURLY 7-8 {\x0atRCURLY 9-10 }\x0aEOF 10-10 " },
    Rec { t: b"v\xffa::x\xffa { |zo| }", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22)])]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-4 selector=4-6 expression=0-6) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22 expression=10-12)] expression=10-12)] expression=9-13 begin=9-10 end=12-13) begin=7-8 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atIDENTIFIER 4-6 x\xff\x01\x0atLCURLY 7-8 {\x0atPIPE 9-10 |\x0atIDENTIFIER 10-12 zo\x0atPIPE 12-13 |\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"v\xffa::x\xffa { z\xffa; k\xffa }", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) body=(begin statements=[(send method_name=\x22z\xff\x02\x22 args=[]) (send method_name=\x22k\xff\x03\x22 args=[])]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-4 selector=4-6 expression=0-6) body=(begin statements=[(send method_name=\x22z\xff\x02\x22 args=[] selector=9-11 expression=9-11) (send method_name=\x22k\xff\x03\x22 args=[] selector=13-15 expression=13-15)] expression=9-15) begin=7-8 end=16-17 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atIDENTIFIER 4-6 x\xff\x01\x0atLCURLY 7-8 {\x0atIDENTIFIER 9-11 z\xff\x02\x0atSEMI 11-12 ;\x0atIDENTIFIER 13-15 k\xff\x03\x0atRCURLY 16-17 }\x0aEOF 17-17 " },
    Rec { t: b"v\xffa::x\xffa do end", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-4 selector=4-6 expression=0-6) begin=7-9 end=10-13 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atIDENTIFIER 4-6 x\xff\x01\x0akDO 7-9 do\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"v\xffa::x\xffa do |zo| ko end", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22)])]) body=(send method_name=\x22ko\x22 args=[]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-4 selector=4-6 expression=0-6) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22 expression=11-13)] expression=11-13)] expression=10-14 begin=10-11 end=13-14) body=(send method_name=\x22ko\x22 args=[] selector=15-17 expression=15-17) begin=7-9 end=18-21 expression=0-21)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atIDENTIFIER 4-6 x\xff\x01\x0akDO 7-9 do\x0atPIPE 10-11 |\x0atIDENTIFIER 11-13 zo\x0atPIPE 13-14 |\x0atIDENTIFIER 15-17 ko\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"v\xffa::x\xffa { || }", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) args=(args args=[]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-4 selector=4-6 expression=0-6) args=(args args=[] expression=9-11 begin=9-10 end=10-11) begin=7-8 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atIDENTIFIER 4-6 x\xff\x01\x0atLCURLY 7-8 {\x0atPIPE 9-10 |\x0atPIPE 10-11 |\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"v\xffa::x\xffa { |;zo| }", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) args=(args args=[(shadowarg name=\x22zo\x22)]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-4 selector=4-6 expression=0-6) args=(args args=[(shadowarg name=\x22zo\x22 expression=11-13)] expression=9-14 begin=9-10 end=13-14) begin=7-8 end=15-16 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atIDENTIFIER 4-6 x\xff\x01\x0atLCURLY 7-8 {\x0atPIPE 9-10 |\x0atSEMI 10-11 ;\x0atIDENTIFIER 11-13 zo\x0atPIPE 13-14 |\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"super { |z\xffa| }", shape: b"(block call=(z_super) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x00\x22)])]))", full: b"(block call=(z_super expression=0-5) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x00\x22 expression=9-11)] expression=9-11)] expression=8-12 begin=8-9 end=11-12) begin=6-7 end=13-14 expression=0-14)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atLCURLY 6-7 {\x0atPIPE 8-9 |\x0atIDENTIFIER 9-11 z\xff\x00\x0atPIPE 11-12 |\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"super { z\xffa; k\xffa }", shape: b"(block call=(z_super) body=(begin statements=[(send method_name=\x22z\xff\x00\x22 args=[]) (send method_name=\x22k\xff\x01\x22 args=[])]))", full: b"(block call=(z_super expression=0-5) body=(begin statements=[(send method_name=\x22z\xff\x00\x22 args=[] selector=8-10 expression=8-10) (send method_name=\x22k\xff\x01\x22 args=[] selector=12-14 expression=12-14)] expression=8-14) begin=6-7 end=15-16 expression=0-16)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atLCURLY 6-7 {\x0atIDENTIFIER 8-10 z\xff\x00\x0atSEMI 10-11 ;\x0atIDENTIFIER 12-14 k\xff\x01\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"super do end", shape: b"(block call=(z_super))", full: b"(block call=(z_super expression=0-5) begin=6-8 end=9-12 expression=0-12)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0akDO 6-8 do\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"super do |z\xffa| k\xffa end", shape: b"(block call=(z_super) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x00\x22)])]) body=(send method_name=\x22k\xff\x01\x22 args=[]))", full: b"(block call=(z_super expression=0-5) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x00\x22 expression=10-12)] expression=10-12)] expression=9-13 begin=9-10 end=12-13) body=(send method_name=\x22k\xff\x01\x22 args=[] selector=14-16 expression=14-16) begin=6-8 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0akDO 6-8 do\x0atPIPE 9-10 |\x0atIDENTIFIER 10-12 z\xff\x00\x0atPIPE 12-13 |\x0atIDENTIFIER 14-16 k\xff\x01\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"super { || }", shape: b"(block call=(z_super) args=(args args=[]))", full: b"(block call=(z_super expression=0-5) args=(args args=[] expression=8-10 begin=8-9 end=9-10) begin=6-7 end=11-12 expression=0-12)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atLCURLY 6-7 {\x0atPIPE 8-9 |\x0atPIPE 9-10 |\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"super { |;z\xffa| }", shape: b"(block call=(z_super) args=(args args=[(shadowarg name=\x22z\xff\x00\x22)]))", full: b"(block call=(z_super expression=0-5) args=(args args=[(shadowarg name=\x22z\xff\x00\x22 expression=10-12)] expression=8-13 begin=8-9 end=12-13) begin=6-7 end=14-15 expression=0-15)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atLCURLY 6-7 {\x0atPIPE 8-9 |\x0atSEMI 9-10 ;\x0atIDENTIFIER 10-12 z\xff\x00\x0atPIPE 12-13 |\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"super() { |z\xffa| }", shape: b"(block call=(super args=[]) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x00\x22)])]))", full: b"(block call=(super args=[] keyword=0-5 begin=5-6 end=6-7 expression=0-7) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x00\x22 expression=11-13)] expression=11-13)] expression=10-14 begin=10-11 end=13-14) begin=8-9 end=15-16 expression=0-16)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atLPAREN2 5-6 (\x0atRPAREN 6-7 )\x0atLCURLY 8-9 {\x0atPIPE 10-11 |\x0atIDENTIFIER 11-13 z\xff\x00\x0atPIPE 13-14 |\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"super() { z\xffa; k\xffa }", shape: b"(block call=(super args=[]) body=(begin statements=[(send method_name=\x22z\xff\x00\x22 args=[]) (send method_name=\x22k\xff\x01\x22 args=[])]))", full: b"(block call=(super args=[] keyword=0-5 begin=5-6 end=6-7 expression=0-7) body=(begin statements=[(send method_name=\x22z\xff\x00\x22 args=[] selector=10-12 expression=10-12) (send method_name=\x22k\xff\x01\x22 args=[] selector=14-16 expression=14-16)] expression=10-16) begin=8-9 end=17-18 expression=0-18)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atLPAREN2 5-6 (\x0atRPAREN 6-7 )\x0atLCURLY 8-9 {\x0atIDENTIFIER 10-12 z\xff\x00\x0atSEMI 12-13 ;\x0atIDENTIFIER 14-16 k\xff\x01\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"super() do end", shape: b"(block call=(super args=[]))", full: b"(block call=(super args=[] keyword=0-5 begin=5-6 end=6-7 expression=0-7) begin=8-10 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atLPAREN2 5-6 (\x0atRPAREN 6-7 )\x0akDO 8-10 do\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"super() do |z\xffa| k\xffa end", shape: b"(block call=(super args=[]) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x00\x22)])]) body=(send method_name=\x22k\xff\x01\x22 args=[]))", full: b"(block call=(super args=[] keyword=0-5 begin=5-6 end=6-7 expression=0-7) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x00\x22 expression=12-14)] expression=12-14)] expression=11-15 begin=11-12 end=14-15) body=(send method_name=\x22k\xff\x01\x22 args=[] selector=16-18 expression=16-18) begin=8-10 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atLPAREN2 5-6 (\x0atRPAREN 6-7 )\x0akDO 8-10 do\x0atPIPE 11-12 |\x0atIDENTIFIER 12-14 z\xff\x00\x0atPIPE 14-15 |\x0atIDENTIFIER 16-18 k\xff\x01\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"super() { || }", shape: b"(block call=(super args=[]) args=(args args=[]))", full: b"(block call=(super args=[] keyword=0-5 begin=5-6 end=6-7 expression=0-7) args=(args args=[] expression=10-12 begin=10-11 end=11-12) begin=8-9 end=13-14 expression=0-14)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atLPAREN2 5-6 (\x0atRPAREN 6-7 )\x0atLCURLY 8-9 {\x0atPIPE 10-11 |\x0atPIPE 11-12 |\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"super() { |;z\xffa| }", shape: b"(block call=(super args=[]) args=(args args=[(shadowarg name=\x22z\xff\x00\x22)]))", full: b"(block call=(super args=[] keyword=0-5 begin=5-6 end=6-7 expression=0-7) args=(args args=[(shadowarg name=\x22z\xff\x00\x22 expression=12-14)] expression=10-15 begin=10-11 end=14-15) begin=8-9 end=16-17 expression=0-17)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atLPAREN2 5-6 (\x0atRPAREN 6-7 )\x0atLCURLY 8-9 {\x0atPIPE 10-11 |\x0atSEMI 11-12 ;\x0atIDENTIFIER 12-14 z\xff\x00\x0atPIPE 14-15 |\x0atRCURLY 16-17 }\x0aEOF 17-17 " },
    Rec { t: b"super(x\xffa) { }", shape: b"(block call=(super args=[(send method_name=\x22x\xff\x00\x22 args=[])]))", full: b"(block call=(super args=[(send method_name=\x22x\xff\x00\x22 args=[] selector=6-8 expression=6-8)] keyword=0-5 begin=5-6 end=8-9 expression=0-9) begin=10-11 end=12-13 expression=0-13)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 x\xff\x00\x0atRPAREN 8-9 )\x0atLCURLY 10-11 {\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"super(x\xffa) { |z\xffa| }", shape: b"(block call=(super args=[(send method_name=\x22x\xff\x00\x22 args=[])]) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x01\x22)])]))", full: b"(block call=(super args=[(send method_name=\x22x\xff\x00\x22 args=[] selector=6-8 expression=6-8)] keyword=0-5 begin=5-6 end=8-9 expression=0-9) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x01\x22 expression=13-15)] expression=13-15)] expression=12-16 begin=12-13 end=15-16) begin=10-11 end=17-18 expression=0-18)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 x\xff\x00\x0atRPAREN 8-9 )\x0atLCURLY 10-11 {\x0atPIPE 12-13 |\x0atIDENTIFIER 13-15 z\xff\x01\x0atPIPE 15-16 |\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"super(x\xffa) { z\xffa; k\xffa }", shape: b"(block call=(super args=[(send method_name=\x22x\xff\x00\x22 args=[])]) body=(begin statements=[(send method_name=\x22z\xff\x01\x22 args=[]) (send method_name=\x22k\xff\x02\x22 args=[])]))", full: b"(block call=(super args=[(send method_name=\x22x\xff\x00\x22 args=[] selector=6-8 expression=6-8)] keyword=0-5 begin=5-6 end=8-9 expression=0-9) body=(begin statements=[(send method_name=\x22z\xff\x01\x22 args=[] selector=12-14 expression=12-14) (send method_name=\x22k\xff\x02\x22 args=[] selector=16-18 expression=16-18)] expression=12-18) begin=10-11 end=19-20 expression=0-20)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 x\xff\x00\x0atRPAREN 8-9 )\x0atLCURLY 10-11 {\x0atIDENTIFIER 12-14 z\xff\x01\x0atSEMI 14-15 ;\x0atIDENTIFIER 16-18 k\xff\x02\x0atRCURLY 19-20 }\x0aEOF 20-20 " },
    Rec { t: b"super(x\xffa) do end", shape: b"(block call=(super args=[(send method_name=\x22x\xff\x00\x22 args=[])]))", full: b"(block call=(super args=[(send method_name=\x22x\xff\x00\x22 args=[] selector=6-8 expression=6-8)] keyword=0-5 begin=5-6 end=8-9 expression=0-9) begin=10-12 end=13-16 expression=0-16)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 x\xff\x00\x0atRPAREN 8-9 )\x0akDO 10-12 do\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"super(x\xffa) do |z\xffa| ko end", shape: b"(block call=(super args=[(send method_name=\x22x\xff\x00\x22 args=[])]) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x01\x22)])]) body=(send method_name=\x22ko\x22 args=[]))", full: b"(block call=(super args=[(send method_name=\x22x\xff\x00\x22 args=[] selector=6-8 expression=6-8)] keyword=0-5 begin=5-6 end=8-9 expression=0-9) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x01\x22 expression=14-16)] expression=14-16)] expression=13-17 begin=13-14 end=16-17) body=(send method_name=\x22ko\x22 args=[] selector=18-20 expression=18-20) begin=10-12 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 x\xff\x00\x0atRPAREN 8-9 )\x0akDO 10-12 do\x0atPIPE 13-14 |\x0atIDENTIFIER 14-16 z\xff\x01\x0atPIPE 16-17 |\x0atIDENTIFIER 18-20 ko\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"super(x\xffa) { || }", shape: b"(block call=(super args=[(send method_name=\x22x\xff\x00\x22 args=[])]) args=(args args=[]))", full: b"(block call=(super args=[(send method_name=\x22x\xff\x00\x22 args=[] selector=6-8 expression=6-8)] keyword=0-5 begin=5-6 end=8-9 expression=0-9) args=(args args=[] expression=12-14 begin=12-13 end=13-14) begin=10-11 end=15-16 expression=0-16)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 x\xff\x00\x0atRPAREN 8-9 )\x0atLCURLY 10-11 {\x0atPIPE 12-13 |\x0atPIPE 13-14 |\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"super(x\xffa) { |;z\xffa| }", shape: b"(block call=(super args=[(send method_name=\x22x\xff\x00\x22 args=[])]) args=(args args=[(shadowarg name=\x22z\xff\x01\x22)]))", full: b"(block call=(super args=[(send method_name=\x22x\xff\x00\x22 args=[] selector=6-8 expression=6-8)] keyword=0-5 begin=5-6 end=8-9 expression=0-9) args=(args args=[(shadowarg name=\x22z\xff\x01\x22 expression=14-16)] expression=12-17 begin=12-13 end=16-17) begin=10-11 end=18-19 expression=0-19)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 x\xff\x00\x0atRPAREN 8-9 )\x0atLCURLY 10-11 {\x0atPIPE 12-13 |\x0atSEMI 13-14 ;\x0atIDENTIFIER 14-16 z\xff\x01\x0atPIPE 16-17 |\x0atRCURLY 18-19 }\x0aEOF 19-19 " },
    Rec { t: b"v\xffa.() { }", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22call\x22 args=[]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22call\x22 args=[] dot=2-3 begin=3-4 end=4-5 expression=0-5) begin=6-7 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atLPAREN2 3-4 (\x0atRPAREN 4-5 )\x0atLCURLY 6-7 {\x0atRCURLY 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"v\xffa.() { |z\xffa| }", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22call\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x01\x22)])]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22call\x22 args=[] dot=2-3 begin=3-4 end=4-5 expression=0-5) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x01\x22 expression=9-11)] expression=9-11)] expression=8-12 begin=8-9 end=11-12) begin=6-7 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atLPAREN2 3-4 (\x0atRPAREN 4-5 )\x0atLCURLY 6-7 {\x0atPIPE 8-9 |\x0atIDENTIFIER 9-11 z\xff\x01\x0atPIPE 11-12 |\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"v\xffa.() { z\xffa; k\xffa }", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22call\x22 args=[]) body=(begin statements=[(send method_name=\x22z\xff\x01\x22 args=[]) (send method_name=\x22k\xff\x02\x22 args=[])]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22call\x22 args=[] dot=2-3 begin=3-4 end=4-5 expression=0-5) body=(begin statements=[(send method_name=\x22z\xff\x01\x22 args=[] selector=8-10 expression=8-10) (send method_name=\x22k\xff\x02\x22 args=[] selector=12-14 expression=12-14)] expression=8-14) begin=6-7 end=15-16 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atLPAREN2 3-4 (\x0atRPAREN 4-5 )\x0atLCURLY 6-7 {\x0atIDENTIFIER 8-10 z\xff\x01\x0atSEMI 10-11 ;\x0atIDENTIFIER 12-14 k\xff\x02\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"v\xffa.() do end", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22call\x22 args=[]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22call\x22 args=[] dot=2-3 begin=3-4 end=4-5 expression=0-5) begin=6-8 end=9-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atLPAREN2 3-4 (\x0atRPAREN 4-5 )\x0akDO 6-8 do\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"v\xffa.() do |z\xffa| ko end", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22call\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x01\x22)])]) body=(send method_name=\x22ko\x22 args=[]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22call\x22 args=[] dot=2-3 begin=3-4 end=4-5 expression=0-5) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x01\x22 expression=10-12)] expression=10-12)] expression=9-13 begin=9-10 end=12-13) body=(send method_name=\x22ko\x22 args=[] selector=14-16 expression=14-16) begin=6-8 end=17-20 expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atLPAREN2 3-4 (\x0atRPAREN 4-5 )\x0akDO 6-8 do\x0atPIPE 9-10 |\x0atIDENTIFIER 10-12 z\xff\x01\x0atPIPE 12-13 |\x0atIDENTIFIER 14-16 ko\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"v\xffa.() { || }", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22call\x22 args=[]) args=(args args=[]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22call\x22 args=[] dot=2-3 begin=3-4 end=4-5 expression=0-5) args=(args args=[] expression=8-10 begin=8-9 end=9-10) begin=6-7 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atLPAREN2 3-4 (\x0atRPAREN 4-5 )\x0atLCURLY 6-7 {\x0atPIPE 8-9 |\x0atPIPE 9-10 |\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"v\xffa.() { |;z\xffa| }", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22call\x22 args=[]) args=(args args=[(shadowarg name=\x22z\xff\x01\x22)]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22call\x22 args=[] dot=2-3 begin=3-4 end=4-5 expression=0-5) args=(args args=[(shadowarg name=\x22z\xff\x01\x22 expression=10-12)] expression=8-13 begin=8-9 end=12-13) begin=6-7 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atLPAREN2 3-4 (\x0atRPAREN 4-5 )\x0atLCURLY 6-7 {\x0atPIPE 8-9 |\x0atSEMI 9-10 ;\x0atIDENTIFIER 10-12 z\xff\x01\x0atPIPE 12-13 |\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"V\xffa() { }", shape: b"(block call=(send method_name=\x22V\xff\x00\x22 args=[]))", full: b"(block call=(send method_name=\x22V\xff\x00\x22 args=[] selector=0-2 begin=2-3 end=3-4 expression=0-4) begin=5-6 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atLPAREN2 2-3 (\x0atRPAREN 3-4 )\x0atLCURLY 5-6 {\x0atRCURLY 7-8 }\x0aEOF 8-8 " },
    Rec { t: b"V\xffa() { |z\xffa| }", shape: b"(block call=(send method_name=\x22V\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x01\x22)])]))", full: b"(block call=(send method_name=\x22V\xff\x00\x22 args=[] selector=0-2 begin=2-3 end=3-4 expression=0-4) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x01\x22 expression=8-10)] expression=8-10)] expression=7-11 begin=7-8 end=10-11) begin=5-6 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atLPAREN2 2-3 (\x0atRPAREN 3-4 )\x0atLCURLY 5-6 {\x0atPIPE 7-8 |\x0atIDENTIFIER 8-10 z\xff\x01\x0atPIPE 10-11 |\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"V\xffa() { z\xffa; k\xffa }", shape: b"(block call=(send method_name=\x22V\xff\x00\x22 args=[]) body=(begin statements=[(send method_name=\x22z\xff\x01\x22 args=[]) (send method_name=\x22k\xff\x02\x22 args=[])]))", full: b"(block call=(send method_name=\x22V\xff\x00\x22 args=[] selector=0-2 begin=2-3 end=3-4 expression=0-4) body=(begin statements=[(send method_name=\x22z\xff\x01\x22 args=[] selector=7-9 expression=7-9) (send method_name=\x22k\xff\x02\x22 args=[] selector=11-13 expression=11-13)] expression=7-13) begin=5-6 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atLPAREN2 2-3 (\x0atRPAREN 3-4 )\x0atLCURLY 5-6 {\x0atIDENTIFIER 7-9 z\xff\x01\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 k\xff\x02\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"V\xffa() do end", shape: b"(block call=(send method_name=\x22V\xff\x00\x22 args=[]))", full: b"(block call=(send method_name=\x22V\xff\x00\x22 args=[] selector=0-2 begin=2-3 end=3-4 expression=0-4) begin=5-7 end=8-11 expression=0-11)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atLPAREN2 2-3 (\x0atRPAREN 3-4 )\x0akDO 5-7 do\x0akEND 8-11 end\x0aEOF 11-11 " },
    Rec { t: b"V\xffa() do |z\xffa| ko end", shape: b"(block call=(send method_name=\x22V\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x01\x22)])]) body=(send method_name=\x22ko\x22 args=[]))", full: b"(block call=(send method_name=\x22V\xff\x00\x22 args=[] selector=0-2 begin=2-3 end=3-4 expression=0-4) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x01\x22 expression=9-11)] expression=9-11)] expression=8-12 begin=8-9 end=11-12) body=(send method_name=\x22ko\x22 args=[] selector=13-15 expression=13-15) begin=5-7 end=16-19 expression=0-19)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atLPAREN2 2-3 (\x0atRPAREN 3-4 )\x0akDO 5-7 do\x0atPIPE 8-9 |\x0atIDENTIFIER 9-11 z\xff\x01\x0atPIPE 11-12 |\x0atIDENTIFIER 13-15 ko\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"V\xffa() { || }", shape: b"(block call=(send method_name=\x22V\xff\x00\x22 args=[]) args=(args args=[]))", full: b"(block call=(send method_name=\x22V\xff\x00\x22 args=[] selector=0-2 begin=2-3 end=3-4 expression=0-4) args=(args args=[] expression=7-9 begin=7-8 end=8-9) begin=5-6 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atLPAREN2 2-3 (\x0atRPAREN 3-4 )\x0atLCURLY 5-6 {\x0atPIPE 7-8 |\x0atPIPE 8-9 |\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"V\xffa() { |;z\xffa| }", shape: b"(block call=(send method_name=\x22V\xff\x00\x22 args=[]) args=(args args=[(shadowarg name=\x22z\xff\x01\x22)]))", full: b"(block call=(send method_name=\x22V\xff\x00\x22 args=[] selector=0-2 begin=2-3 end=3-4 expression=0-4) args=(args args=[(shadowarg name=\x22z\xff\x01\x22 expression=9-11)] expression=7-12 begin=7-8 end=11-12) begin=5-6 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atLPAREN2 2-3 (\x0atRPAREN 3-4 )\x0atLCURLY 5-6 {\x0atPIPE 7-8 |\x0atSEMI 8-9 ;\x0atIDENTIFIER 9-11 z\xff\x01\x0atPIPE 11-12 |\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"V\xffa::X\xffa() { }", shape: b"(block call=(send recv=(const name=\x22V\xff\x00\x22) method_name=\x22X\xff\x01\x22 args=[]))", full: b"(block call=(send recv=(const name=\x22V\xff\x00\x22 name=0-2 expression=0-2) method_name=\x22X\xff\x01\x22 args=[] dot=2-4 selector=4-6 begin=6-7 end=7-8 expression=0-8) begin=9-10 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atCOLON2 2-4 ::\x0atCONSTANT 4-6 X\xff\x01\x0atLPAREN2 6-7 (\x0atRPAREN 7-8 )\x0atLCURLY 9-10 {\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"V\xffa::X\xffa() { |zo| }", shape: b"(block call=(send recv=(const name=\x22V\xff\x00\x22) method_name=\x22X\xff\x01\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22)])]))", full: b"(block call=(send recv=(const name=\x22V\xff\x00\x22 name=0-2 expression=0-2) method_name=\x22X\xff\x01\x22 args=[] dot=2-4 selector=4-6 begin=6-7 end=7-8 expression=0-8) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22 expression=12-14)] expression=12-14)] expression=11-15 begin=11-12 end=14-15) begin=9-10 end=16-17 expression=0-17)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atCOLON2 2-4 ::\x0atCONSTANT 4-6 X\xff\x01\x0atLPAREN2 6-7 (\x0atRPAREN 7-8 )\x0atLCURLY 9-10 {\x0atPIPE 11-12 |\x0atIDENTIFIER 12-14 zo\x0atPIPE 14-15 |\x0atRCURLY 16-17 }\x0aEOF 17-17 " },
    Rec { t: b"V\xffa::X\xffa() { z\xffa; k\xffa }", shape: b"(block call=(send recv=(const name=\x22V\xff\x00\x22) method_name=\x22X\xff\x01\x22 args=[]) body=(begin statements=[(send method_name=\x22z\xff\x02\x22 args=[]) (send method_name=\x22k\xff\x03\x22 args=[])]))", full: b"(block call=(send recv=(const name=\x22V\xff\x00\x22 name=0-2 expression=0-2) method_name=\x22X\xff\x01\x22 args=[] dot=2-4 selector=4-6 begin=6-7 end=7-8 expression=0-8) body=(begin statements=[(send method_name=\x22z\xff\x02\x22 args=[] selector=11-13 expression=11-13) (send method_name=\x22k\xff\x03\x22 args=[] selector=15-17 expression=15-17)] expression=11-17) begin=9-10 end=18-19 expression=0-19)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atCOLON2 2-4 ::\x0atCONSTANT 4-6 X\xff\x01\x0atLPAREN2 6-7 (\x0atRPAREN 7-8 )\x0atLCURLY 9-10 {\x0atIDENTIFIER 11-13 z\xff\x02\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 k\xff\x03\x0atRCURLY 18-19 }\x0aEOF 19-19 " },
    Rec { t: b"V\xffa::X\xffa() do end", shape: b"(block call=(send recv=(const name=\x22V\xff\x00\x22) method_name=\x22X\xff\x01\x22 args=[]))", full: b"(block call=(send recv=(const name=\x22V\xff\x00\x22 name=0-2 expression=0-2) method_name=\x22X\xff\x01\x22 args=[] dot=2-4 selector=4-6 begin=6-7 end=7-8 expression=0-8) begin=9-11 end=12-15 expression=0-15)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atCOLON2 2-4 ::\x0atCONSTANT 4-6 X\xff\x01\x0atLPAREN2 6-7 (\x0atRPAREN 7-8 )\x0akDO 9-11 do\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"V\xffa::X\xffa() do |zo| ko end", shape: b"(block call=(send recv=(const name=\x22V\xff\x00\x22) method_name=\x22X\xff\x01\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22)])]) body=(send method_name=\x22ko\x22 args=[]))", full: b"(block call=(send recv=(const name=\x22V\xff\x00\x22 name=0-2 expression=0-2) method_name=\x22X\xff\x01\x22 args=[] dot=2-4 selector=4-6 begin=6-7 end=7-8 expression=0-8) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22 expression=13-15)] expression=13-15)] expression=12-16 begin=12-13 end=15-16) body=(send method_name=\x22ko\x22 args=[] selector=17-19 expression=17-19) begin=9-11 end=20-23 expression=0-23)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atCOLON2 2-4 ::\x0atCONSTANT 4-6 X\xff\x01\x0atLPAREN2 6-7 (\x0atRPAREN 7-8 )\x0akDO 9-11 do\x0atPIPE 12-13 |\x0atIDENTIFIER 13-15 zo\x0atPIPE 15-16 |\x0atIDENTIFIER 17-19 ko\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"V\xffa::X\xffa() { || }", shape: b"(block call=(send recv=(const name=\x22V\xff\x00\x22) method_name=\x22X\xff\x01\x22 args=[]) args=(args args=[]))", full: b"(block call=(send recv=(const name=\x22V\xff\x00\x22 name=0-2 expression=0-2) method_name=\x22X\xff\x01\x22 args=[] dot=2-4 selector=4-6 begin=6-7 end=7-8 expression=0-8) args=(args args=[] expression=11-13 begin=11-12 end=12-13) begin=9-10 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atCOLON2 2-4 ::\x0atCONSTANT 4-6 X\xff\x01\x0atLPAREN2 6-7 (\x0atRPAREN 7-8 )\x0atLCURLY 9-10 {\x0atPIPE 11-12 |\x0atPIPE 12-13 |\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"V\xffa::X\xffa() { |;zo| }", shape: b"(block call=(send recv=(const name=\x22V\xff\x00\x22) method_name=\x22X\xff\x01\x22 args=[]) args=(args args=[(shadowarg name=\x22zo\x22)]))", full: b"(block call=(send recv=(const name=\x22V\xff\x00\x22 name=0-2 expression=0-2) method_name=\x22X\xff\x01\x22 args=[] dot=2-4 selector=4-6 begin=6-7 end=7-8 expression=0-8) args=(args args=[(shadowarg name=\x22zo\x22 expression=13-15)] expression=11-16 begin=11-12 end=15-16) begin=9-10 end=17-18 expression=0-18)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atCOLON2 2-4 ::\x0atCONSTANT 4-6 X\xff\x01\x0atLPAREN2 6-7 (\x0atRPAREN 7-8 )\x0atLCURLY 9-10 {\x0atPIPE 11-12 |\x0atSEMI 12-13 ;\x0atIDENTIFIER 13-15 zo\x0atPIPE 15-16 |\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"v\xffa[\xffd].y\xffa { }", shape: b"(block call=(send recv=(index recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(int value=\x22\xff\x01\x22)]) method_name=\x22y\xff\x02\x22 args=[]))", full: b"(block call=(send recv=(index recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(int value=\x22\xff\x01\x22 expression=3-4)] begin=2-3 end=4-5 expression=0-5) method_name=\x22y\xff\x02\x22 args=[] dot=5-6 selector=6-8 expression=0-8) begin=9-10 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atINTEGER 3-4 \xff\x01\x0atRBRACK 4-5 ]\x0atDOT 5-6 .\x0atIDENTIFIER 6-8 y\xff\x02\x0atLCURLY 9-10 {\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"v\xffa[\xffd].y\xffa { |zo| }", shape: b"(block call=(send recv=(index recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(int value=\x22\xff\x01\x22)]) method_name=\x22y\xff\x02\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22)])]))", full: b"(block call=(send recv=(index recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(int value=\x22\xff\x01\x22 expression=3-4)] begin=2-3 end=4-5 expression=0-5) method_name=\x22y\xff\x02\x22 args=[] dot=5-6 selector=6-8 expression=0-8) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22 expression=12-14)] expression=12-14)] expression=11-15 begin=11-12 end=14-15) begin=9-10 end=16-17 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atINTEGER 3-4 \xff\x01\x0atRBRACK 4-5 ]\x0atDOT 5-6 .\x0atIDENTIFIER 6-8 y\xff\x02\x0atLCURLY 9-10 {\x0atPIPE 11-12 |\x0atIDENTIFIER 12-14 zo\x0atPIPE 14-15 |\x0atRCURLY 16-17 }\x0aEOF 17-17 " },
    Rec { t: b"v\xffa[\xffd].y\xffa { z\xffa; k\xffa }", shape: b"(block call=(send recv=(index recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(int value=\x22\xff\x01\x22)]) method_name=\x22y\xff\x02\x22 args=[]) body=(begin statements=[(send method_name=\x22z\xff\x03\x22 args=[]) (send method_name=\x22k\xff\x04\x22 args=[])]))", full: b"(block call=(send recv=(index recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(int value=\x22\xff\x01\x22 expression=3-4)] begin=2-3 end=4-5 expression=0-5) method_name=\x22y\xff\x02\x22 args=[] dot=5-6 selector=6-8 expression=0-8) body=(begin statements=[(send method_name=\x22z\xff\x03\x22 args=[] selector=11-13 expression=11-13) (send method_name=\x22k\xff\x04\x22 args=[] selector=15-17 expression=15-17)] expression=11-17) begin=9-10 end=18-19 expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atINTEGER 3-4 \xff\x01\x0atRBRACK 4-5 ]\x0atDOT 5-6 .\x0atIDENTIFIER 6-8 y\xff\x02\x0atLCURLY 9-10 {\x0atIDENTIFIER 11-13 z\xff\x03\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 k\xff\x04\x0atRCURLY 18-19 }\x0aEOF 19-19 " },
    Rec { t: b"v\xffa[\xffd].y\xffa do end", shape: b"(block call=(send recv=(index recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(int value=\x22\xff\x01\x22)]) method_name=\x22y\xff\x02\x22 args=[]))", full: b"(block call=(send recv=(index recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(int value=\x22\xff\x01\x22 expression=3-4)] begin=2-3 end=4-5 expression=0-5) method_name=\x22y\xff\x02\x22 args=[] dot=5-6 selector=6-8 expression=0-8) begin=9-11 end=12-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atINTEGER 3-4 \xff\x01\x0atRBRACK 4-5 ]\x0atDOT 5-6 .\x0atIDENTIFIER 6-8 y\xff\x02\x0akDO 9-11 do\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"v\xffa[\xffd].y\xffa do |zo| ko end", shape: b"(block call=(send recv=(index recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(int value=\x22\xff\x01\x22)]) method_name=\x22y\xff\x02\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22)])]) body=(send method_name=\x22ko\x22 args=[]))", full: b"(block call=(send recv=(index recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(int value=\x22\xff\x01\x22 expression=3-4)] begin=2-3 end=4-5 expression=0-5) method_name=\x22y\xff\x02\x22 args=[] dot=5-6 selector=6-8 expression=0-8) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22 expression=13-15)] expression=13-15)] expression=12-16 begin=12-13 end=15-16) body=(send method_name=\x22ko\x22 args=[] selector=17-19 expression=17-19) begin=9-11 end=20-23 expression=0-23)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atINTEGER 3-4 \xff\x01\x0atRBRACK 4-5 ]\x0atDOT 5-6 .\x0atIDENTIFIER 6-8 y\xff\x02\x0akDO 9-11 do\x0atPIPE 12-13 |\x0atIDENTIFIER 13-15 zo\x0atPIPE 15-16 |\x0atIDENTIFIER 17-19 ko\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"v\xffa[\xffd].y\xffa { || }", shape: b"(block call=(send recv=(index recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(int value=\x22\xff\x01\x22)]) method_name=\x22y\xff\x02\x22 args=[]) args=(args args=[]))", full: b"(block call=(send recv=(index recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(int value=\x22\xff\x01\x22 expression=3-4)] begin=2-3 end=4-5 expression=0-5) method_name=\x22y\xff\x02\x22 args=[] dot=5-6 selector=6-8 expression=0-8) args=(args args=[] expression=11-13 begin=11-12 end=12-13) begin=9-10 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atINTEGER 3-4 \xff\x01\x0atRBRACK 4-5 ]\x0atDOT 5-6 .\x0atIDENTIFIER 6-8 y\xff\x02\x0atLCURLY 9-10 {\x0atPIPE 11-12 |\x0atPIPE 12-13 |\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"v\xffa[\xffd].y\xffa { |;zo| }", shape: b"(block call=(send recv=(index recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(int value=\x22\xff\x01\x22)]) method_name=\x22y\xff\x02\x22 args=[]) args=(args args=[(shadowarg name=\x22zo\x22)]))", full: b"(block call=(send recv=(index recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(int value=\x22\xff\x01\x22 expression=3-4)] begin=2-3 end=4-5 expression=0-5) method_name=\x22y\xff\x02\x22 args=[] dot=5-6 selector=6-8 expression=0-8) args=(args args=[(shadowarg name=\x22zo\x22 expression=13-15)] expression=11-16 begin=11-12 end=15-16) begin=9-10 end=17-18 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atINTEGER 3-4 \xff\x01\x0atRBRACK 4-5 ]\x0atDOT 5-6 .\x0atIDENTIFIER 6-8 y\xff\x02\x0atLCURLY 9-10 {\x0atPIPE 11-12 |\x0atSEMI 12-13 ;\x0atIDENTIFIER 13-15 zo\x0atPIPE 15-16 |\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"v\xffa x\xffa do end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5)] selector=0-2 expression=0-5) begin=6-8 end=9-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 x\xff\x01\x0akDO_BLOCK 6-8 do\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"v\xffa x\xffa do |zo| ko end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])]) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22)])]) body=(send method_name=\x22ko\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5)] selector=0-2 expression=0-5) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22 expression=10-12)] expression=10-12)] expression=9-13 begin=9-10 end=12-13) body=(send method_name=\x22ko\x22 args=[] selector=14-16 expression=14-16) begin=6-8 end=17-20 expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 x\xff\x01\x0akDO_BLOCK 6-8 do\x0atPIPE 9-10 |\x0atIDENTIFIER 10-12 zo\x0atPIPE 12-13 |\x0atIDENTIFIER 14-16 ko\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"v\xffa x\xffa { }", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(block call=(send method_name=\x22x\xff\x01\x22 args=[]))])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(block call=(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) begin=6-7 end=8-9 expression=3-9)] selector=0-2 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 x\xff\x01\x0atLCURLY 6-7 {\x0atRCURLY 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"v\xffa x\xffa { } do end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(block call=(send method_name=\x22x\xff\x01\x22 args=[]))]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(block call=(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) begin=6-7 end=8-9 expression=3-9)] selector=0-2 expression=0-9) begin=10-12 end=13-16 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 x\xff\x01\x0atLCURLY 6-7 {\x0atRCURLY 8-9 }\x0akDO_BLOCK 10-12 do\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"v\xffa.x\xffa y\xffa do end", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[])]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[] selector=6-8 expression=6-8)] dot=2-3 selector=3-5 expression=0-8) begin=9-11 end=12-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atIDENTIFIER 6-8 y\xff\x02\x0akDO_BLOCK 9-11 do\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"v\xffa.x\xffa yo do |zo| ko end", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22yo\x22 args=[])]) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22)])]) body=(send method_name=\x22ko\x22 args=[]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22yo\x22 args=[] selector=6-8 expression=6-8)] dot=2-3 selector=3-5 expression=0-8) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22 expression=13-15)] expression=13-15)] expression=12-16 begin=12-13 end=15-16) body=(send method_name=\x22ko\x22 args=[] selector=17-19 expression=17-19) begin=9-11 end=20-23 expression=0-23)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atIDENTIFIER 6-8 yo\x0akDO_BLOCK 9-11 do\x0atPIPE 12-13 |\x0atIDENTIFIER 13-15 zo\x0atPIPE 15-16 |\x0atIDENTIFIER 17-19 ko\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"v\xffa.x\xffa y\xffa { }", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(block call=(send method_name=\x22y\xff\x02\x22 args=[]))])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(block call=(send method_name=\x22y\xff\x02\x22 args=[] selector=6-8 expression=6-8) begin=9-10 end=11-12 expression=6-12)] dot=2-3 selector=3-5 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atIDENTIFIER 6-8 y\xff\x02\x0atLCURLY 9-10 {\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"v\xffa.x\xffa y\xffa { } do end", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(block call=(send method_name=\x22y\xff\x02\x22 args=[]))]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(block call=(send method_name=\x22y\xff\x02\x22 args=[] selector=6-8 expression=6-8) begin=9-10 end=11-12 expression=6-12)] dot=2-3 selector=3-5 expression=0-12) begin=13-15 end=16-19 expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atIDENTIFIER 6-8 y\xff\x02\x0atLCURLY 9-10 {\x0atRCURLY 11-12 }\x0akDO_BLOCK 13-15 do\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"v\xffa&.x\xffa y\xffa do end", shape: b"(block call=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[])]))", full: b"(block call=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[] selector=7-9 expression=7-9)] dot=2-4 selector=4-6 expression=0-9) begin=10-12 end=13-16 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atANDDOT 2-4 &.\x0atIDENTIFIER 4-6 x\xff\x01\x0atIDENTIFIER 7-9 y\xff\x02\x0akDO_BLOCK 10-12 do\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"v\xffa&.x\xffa yo do |zo| ko end", shape: b"(block call=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22yo\x22 args=[])]) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22)])]) body=(send method_name=\x22ko\x22 args=[]))", full: b"(block call=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22yo\x22 args=[] selector=7-9 expression=7-9)] dot=2-4 selector=4-6 expression=0-9) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22 expression=14-16)] expression=14-16)] expression=13-17 begin=13-14 end=16-17) body=(send method_name=\x22ko\x22 args=[] selector=18-20 expression=18-20) begin=10-12 end=21-24 expression=0-24)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atANDDOT 2-4 &.\x0atIDENTIFIER 4-6 x\xff\x01\x0atIDENTIFIER 7-9 yo\x0akDO_BLOCK 10-12 do\x0atPIPE 13-14 |\x0atIDENTIFIER 14-16 zo\x0atPIPE 16-17 |\x0atIDENTIFIER 18-20 ko\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"v\xffa&.x\xffa y\xffa { }", shape: b"(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(block call=(send method_name=\x22y\xff\x02\x22 args=[]))])", full: b"(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(block call=(send method_name=\x22y\xff\x02\x22 args=[] selector=7-9 expression=7-9) begin=10-11 end=12-13 expression=7-13)] dot=2-4 selector=4-6 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atANDDOT 2-4 &.\x0atIDENTIFIER 4-6 x\xff\x01\x0atIDENTIFIER 7-9 y\xff\x02\x0atLCURLY 10-11 {\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"v\xffa&.x\xffa y\xffa { } do end", shape: b"(block call=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(block call=(send method_name=\x22y\xff\x02\x22 args=[]))]))", full: b"(block call=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(block call=(send method_name=\x22y\xff\x02\x22 args=[] selector=7-9 expression=7-9) begin=10-11 end=12-13 expression=7-13)] dot=2-4 selector=4-6 expression=0-13) begin=14-16 end=17-20 expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atANDDOT 2-4 &.\x0atIDENTIFIER 4-6 x\xff\x01\x0atIDENTIFIER 7-9 y\xff\x02\x0atLCURLY 10-11 {\x0atRCURLY 12-13 }\x0akDO_BLOCK 14-16 do\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"super x\xffa do end", shape: b"(block call=(super args=[(send method_name=\x22x\xff\x00\x22 args=[])]))", full: b"(block call=(super args=[(send method_name=\x22x\xff\x00\x22 args=[] selector=6-8 expression=6-8)] keyword=0-5 expression=0-8) begin=9-11 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atIDENTIFIER 6-8 x\xff\x00\x0akDO_BLOCK 9-11 do\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"super x\xffa do |z\xffa| ko end", shape: b"(block call=(super args=[(send method_name=\x22x\xff\x00\x22 args=[])]) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x01\x22)])]) body=(send method_name=\x22ko\x22 args=[]))", full: b"(block call=(super args=[(send method_name=\x22x\xff\x00\x22 args=[] selector=6-8 expression=6-8)] keyword=0-5 expression=0-8) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x01\x22 expression=13-15)] expression=13-15)] expression=12-16 begin=12-13 end=15-16) body=(send method_name=\x22ko\x22 args=[] selector=17-19 expression=17-19) begin=9-11 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atIDENTIFIER 6-8 x\xff\x00\x0akDO_BLOCK 9-11 do\x0atPIPE 12-13 |\x0atIDENTIFIER 13-15 z\xff\x01\x0atPIPE 15-16 |\x0atIDENTIFIER 17-19 ko\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"super x\xffa { }", shape: b"(super args=[(block call=(send method_name=\x22x\xff\x00\x22 args=[]))])", full: b"(super args=[(block call=(send method_name=\x22x\xff\x00\x22 args=[] selector=6-8 expression=6-8) begin=9-10 end=11-12 expression=6-12)] keyword=0-5 expression=0-12)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atIDENTIFIER 6-8 x\xff\x00\x0atLCURLY 9-10 {\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"super x\xffa { } do end", shape: b"(block call=(super args=[(block call=(send method_name=\x22x\xff\x00\x22 args=[]))]))", full: b"(block call=(super args=[(block call=(send method_name=\x22x\xff\x00\x22 args=[] selector=6-8 expression=6-8) begin=9-10 end=11-12 expression=6-12)] keyword=0-5 expression=0-12) begin=13-15 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atIDENTIFIER 6-8 x\xff\x00\x0atLCURLY 9-10 {\x0atRCURLY 11-12 }\x0akDO_BLOCK 13-15 do\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"v\xffa x\xffa, y\xffa do end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[]) (send method_name=\x22y\xff\x02\x22 args=[])]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) (send method_name=\x22y\xff\x02\x22 args=[] selector=7-9 expression=7-9)] selector=0-2 expression=0-9) begin=10-12 end=13-16 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 x\xff\x01\x0atCOMMA 5-6 ,\x0atIDENTIFIER 7-9 y\xff\x02\x0akDO_BLOCK 10-12 do\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"v\xffa x\xffa, yo do |zo| ko end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[]) (send method_name=\x22yo\x22 args=[])]) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22)])]) body=(send method_name=\x22ko\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) (send method_name=\x22yo\x22 args=[] selector=7-9 expression=7-9)] selector=0-2 expression=0-9) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22 expression=14-16)] expression=14-16)] expression=13-17 begin=13-14 end=16-17) body=(send method_name=\x22ko\x22 args=[] selector=18-20 expression=18-20) begin=10-12 end=21-24 expression=0-24)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 x\xff\x01\x0atCOMMA 5-6 ,\x0atIDENTIFIER 7-9 yo\x0akDO_BLOCK 10-12 do\x0atPIPE 13-14 |\x0atIDENTIFIER 14-16 zo\x0atPIPE 16-17 |\x0atIDENTIFIER 18-20 ko\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"v\xffa x\xffa, y\xffa { }", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[]) (block call=(send method_name=\x22y\xff\x02\x22 args=[]))])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) (block call=(send method_name=\x22y\xff\x02\x22 args=[] selector=7-9 expression=7-9) begin=10-11 end=12-13 expression=7-13)] selector=0-2 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 x\xff\x01\x0atCOMMA 5-6 ,\x0atIDENTIFIER 7-9 y\xff\x02\x0atLCURLY 10-11 {\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"v\xffa x\xffa, y\xffa { } do end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[]) (block call=(send method_name=\x22y\xff\x02\x22 args=[]))]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) (block call=(send method_name=\x22y\xff\x02\x22 args=[] selector=7-9 expression=7-9) begin=10-11 end=12-13 expression=7-13)] selector=0-2 expression=0-13) begin=14-16 end=17-20 expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 x\xff\x01\x0atCOMMA 5-6 ,\x0atIDENTIFIER 7-9 y\xff\x02\x0atLCURLY 10-11 {\x0atRCURLY 12-13 }\x0akDO_BLOCK 14-16 do\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"v\xffa x\xffa: \xffd do end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22x\xff\x01\x22) value=(int value=\x22\xff\x02\x22))])]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22x\xff\x01\x22 expression=3-5) value=(int value=\x22\xff\x02\x22 expression=7-8) operator=5-6 expression=3-8)] expression=3-8)] selector=0-2 expression=0-8) begin=9-11 end=12-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLABEL 3-6 x\xff\x01\x0atINTEGER 7-8 \xff\x02\x0akDO_BLOCK 9-11 do\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"v\xffa x\xffa: \xffd do |zo| ko end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22x\xff\x01\x22) value=(int value=\x22\xff\x02\x22))])]) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22)])]) body=(send method_name=\x22ko\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22x\xff\x01\x22 expression=3-5) value=(int value=\x22\xff\x02\x22 expression=7-8) operator=5-6 expression=3-8)] expression=3-8)] selector=0-2 expression=0-8) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22 expression=13-15)] expression=13-15)] expression=12-16 begin=12-13 end=15-16) body=(send method_name=\x22ko\x22 args=[] selector=17-19 expression=17-19) begin=9-11 end=20-23 expression=0-23)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLABEL 3-6 x\xff\x01\x0atINTEGER 7-8 \xff\x02\x0akDO_BLOCK 9-11 do\x0atPIPE 12-13 |\x0atIDENTIFIER 13-15 zo\x0atPIPE 15-16 |\x0atIDENTIFIER 17-19 ko\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"v\xffa *x\xffa do end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[]))]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6) operator=3-4 expression=3-6)] selector=0-2 expression=0-6) begin=7-9 end=10-13 expression=0-13)", diag: b"\x0aW 3-4 `*' interpreted as argument prefix", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atSTAR 3-4 *\x0atIDENTIFIER 4-6 x\xff\x01\x0akDO_BLOCK 7-9 do\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"v\xffa *x\xffa do |zo| ko end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[]))]) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22)])]) body=(send method_name=\x22ko\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6) operator=3-4 expression=3-6)] selector=0-2 expression=0-6) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22 expression=11-13)] expression=11-13)] expression=10-14 begin=10-11 end=13-14) body=(send method_name=\x22ko\x22 args=[] selector=15-17 expression=15-17) begin=7-9 end=18-21 expression=0-21)", diag: b"\x0aW 3-4 `*' interpreted as argument prefix", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atSTAR 3-4 *\x0atIDENTIFIER 4-6 x\xff\x01\x0akDO_BLOCK 7-9 do\x0atPIPE 10-11 |\x0atIDENTIFIER 11-13 zo\x0atPIPE 13-14 |\x0atIDENTIFIER 15-17 ko\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"v\xffa *x\xffa { }", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(splat value=(block call=(send method_name=\x22x\xff\x01\x22 args=[])))])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(splat value=(block call=(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6) begin=7-8 end=9-10 expression=4-10) operator=3-4 expression=3-10)] selector=0-2 expression=0-10)", diag: b"\x0aW 3-4 `*' interpreted as argument prefix", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atSTAR 3-4 *\x0atIDENTIFIER 4-6 x\xff\x01\x0atLCURLY 7-8 {\x0atRCURLY 9-10 }\x0aEOF 10-10 " },
    Rec { t: b"v\xffa *x\xffa { } do end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(splat value=(block call=(send method_name=\x22x\xff\x01\x22 args=[])))]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(splat value=(block call=(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6) begin=7-8 end=9-10 expression=4-10) operator=3-4 expression=3-10)] selector=0-2 expression=0-10) begin=11-13 end=14-17 expression=0-17)", diag: b"\x0aW 3-4 `*' interpreted as argument prefix", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atSTAR 3-4 *\x0atIDENTIFIER 4-6 x\xff\x01\x0atLCURLY 7-8 {\x0atRCURLY 9-10 }\x0akDO_BLOCK 11-13 do\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"v\xffa::x\xffa y\xffa do end", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[])]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[] selector=7-9 expression=7-9)] dot=2-4 selector=4-6 expression=0-9) begin=10-12 end=13-16 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atIDENTIFIER 4-6 x\xff\x01\x0atIDENTIFIER 7-9 y\xff\x02\x0akDO_BLOCK 10-12 do\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"v\xffa::x\xffa yo do |zo| ko end", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22yo\x22 args=[])]) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22)])]) body=(send method_name=\x22ko\x22 args=[]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22yo\x22 args=[] selector=7-9 expression=7-9)] dot=2-4 selector=4-6 expression=0-9) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22 expression=14-16)] expression=14-16)] expression=13-17 begin=13-14 end=16-17) body=(send method_name=\x22ko\x22 args=[] selector=18-20 expression=18-20) begin=10-12 end=21-24 expression=0-24)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atIDENTIFIER 4-6 x\xff\x01\x0atIDENTIFIER 7-9 yo\x0akDO_BLOCK 10-12 do\x0atPIPE 13-14 |\x0atIDENTIFIER 14-16 zo\x0atPIPE 16-17 |\x0atIDENTIFIER 18-20 ko\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"v\xffa::x\xffa y\xffa { }", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(block call=(send method_name=\x22y\xff\x02\x22 args=[]))])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(block call=(send method_name=\x22y\xff\x02\x22 args=[] selector=7-9 expression=7-9) begin=10-11 end=12-13 expression=7-13)] dot=2-4 selector=4-6 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atIDENTIFIER 4-6 x\xff\x01\x0atIDENTIFIER 7-9 y\xff\x02\x0atLCURLY 10-11 {\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"v\xffa::x\xffa y\xffa { } do end", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(block call=(send method_name=\x22y\xff\x02\x22 args=[]))]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(block call=(send method_name=\x22y\xff\x02\x22 args=[] selector=7-9 expression=7-9) begin=10-11 end=12-13 expression=7-13)] dot=2-4 selector=4-6 expression=0-13) begin=14-16 end=17-20 expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atIDENTIFIER 4-6 x\xff\x01\x0atIDENTIFIER 7-9 y\xff\x02\x0atLCURLY 10-11 {\x0atRCURLY 12-13 }\x0akDO_BLOCK 14-16 do\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"->() { }", shape: b"(block call=(lambda) args=(args args=[]))", full: b"(block call=(lambda expression=0-2) args=(args args=[] expression=2-4 begin=2-3 end=3-4) begin=5-6 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atRPAREN 3-4 )\x0atLAMBEG 5-6 {\x0atRCURLY 7-8 }\x0aEOF 8-8 " },
    Rec { t: b"->(x\xffa) { }", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=3-5)] expression=2-6 begin=2-3 end=5-6) begin=7-8 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atRPAREN 5-6 )\x0atLAMBEG 7-8 {\x0atRCURLY 9-10 }\x0aEOF 10-10 " },
    Rec { t: b"->x\xffa { }", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=2-4)] expression=2-4) begin=5-6 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atIDENTIFIER 2-4 x\xff\x00\x0atLAMBEG 5-6 {\x0atRCURLY 7-8 }\x0aEOF 8-8 " },
    Rec { t: b"->x\xffa, y\xffa { }", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22) (arg name=\x22y\xff\x01\x22)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=2-4) (arg name=\x22y\xff\x01\x22 expression=6-8)] expression=2-8) begin=9-10 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atIDENTIFIER 2-4 x\xff\x00\x0atCOMMA 4-5 ,\x0atIDENTIFIER 6-8 y\xff\x01\x0atLAMBEG 9-10 {\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"->(x\xffa; y\xffa) { }", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22) (shadowarg name=\x22y\xff\x01\x22)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=3-5) (shadowarg name=\x22y\xff\x01\x22 expression=7-9)] expression=2-10 begin=2-3 end=9-10) begin=11-12 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 y\xff\x01\x0atRPAREN 9-10 )\x0atLAMBEG 11-12 {\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"->(x\xffa, y\xffa; zo) { }", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22) (arg name=\x22y\xff\x01\x22) (shadowarg name=\x22zo\x22)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=3-5) (arg name=\x22y\xff\x01\x22 expression=7-9) (shadowarg name=\x22zo\x22 expression=11-13)] expression=2-14 begin=2-3 end=13-14) begin=15-16 end=17-18 expression=0-18)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atCOMMA 5-6 ,\x0atIDENTIFIER 7-9 y\xff\x01\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 zo\x0atRPAREN 13-14 )\x0atLAMBEG 15-16 {\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"->(;z\xffa) { }", shape: b"(block call=(lambda) args=(args args=[(shadowarg name=\x22z\xff\x00\x22)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(shadowarg name=\x22z\xff\x00\x22 expression=4-6)] expression=2-7 begin=2-3 end=6-7) begin=8-9 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atSEMI 3-4 ;\x0atIDENTIFIER 4-6 z\xff\x00\x0atRPAREN 6-7 )\x0atLAMBEG 8-9 {\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"->*x\xffa { }", shape: b"(block call=(lambda) args=(args args=[(restarg name=\x22x\xff\x00\x22)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(restarg name=\x22x\xff\x00\x22 operator=2-3 name=3-5 expression=2-5)] expression=2-5) begin=6-7 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atSTAR2 2-3 *\x0atIDENTIFIER 3-5 x\xff\x00\x0atLAMBEG 6-7 {\x0atRCURLY 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"->(*x\xffa, **y\xffa, &zo) { }", shape: b"(block call=(lambda) args=(args args=[(restarg name=\x22x\xff\x00\x22) (kwrestarg name=\x22y\xff\x01\x22) (blockarg name=\x22zo\x22)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(restarg name=\x22x\xff\x00\x22 operator=3-4 name=4-6 expression=3-6) (kwrestarg name=\x22y\xff\x01\x22 operator=8-10 name=10-12 expression=8-12) (blockarg name=\x22zo\x22 operator=14-15 name=15-17 expression=14-17)] expression=2-18 begin=2-3 end=17-18) begin=19-20 end=21-22 expression=0-22)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atSTAR 3-4 *\x0atIDENTIFIER 4-6 x\xff\x00\x0atCOMMA 6-7 ,\x0atDSTAR 8-10 **\x0atIDENTIFIER 10-12 y\xff\x01\x0atCOMMA 12-13 ,\x0atAMPER 14-15 &\x0atIDENTIFIER 15-17 zo\x0atRPAREN 17-18 )\x0atLAMBEG 19-20 {\x0atRCURLY 21-22 }\x0aEOF 22-22 " },
    Rec { t: b"->(x\xffa = \xffd) { }", shape: b"(block call=(lambda) args=(args args=[(optarg name=\x22x\xff\x00\x22 default=(int value=\x22\xff\x01\x22))]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(optarg name=\x22x\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=8-9) name=3-5 operator=6-7 expression=3-9)] expression=2-10 begin=2-3 end=9-10) begin=11-12 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atEQL 6-7 =\x0atINTEGER 8-9 \xff\x01\x0atRPAREN 9-10 )\x0atLAMBEG 11-12 {\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"->x\xffa = \xffd { }", shape: b"(block call=(lambda) args=(args args=[(optarg name=\x22x\xff\x00\x22 default=(int value=\x22\xff\x01\x22))]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(optarg name=\x22x\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=7-8) name=2-4 operator=5-6 expression=2-8)] expression=2-8) begin=9-10 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atIDENTIFIER 2-4 x\xff\x00\x0atEQL 5-6 =\x0atINTEGER 7-8 \xff\x01\x0atLAMBEG 9-10 {\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"->(x\xffa:) { }", shape: b"(block call=(lambda) args=(args args=[(kwarg name=\x22x\xff\x00\x22)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(kwarg name=\x22x\xff\x00\x22 name=3-5 expression=3-6)] expression=2-7 begin=2-3 end=6-7) begin=8-9 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atLABEL 3-6 x\xff\x00\x0atRPAREN 6-7 )\x0atLAMBEG 8-9 {\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"->(x\xffa: \xffd) { }", shape: b"(block call=(lambda) args=(args args=[(kwoptarg name=\x22x\xff\x00\x22 default=(int value=\x22\xff\x01\x22))]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(kwoptarg name=\x22x\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=7-8) name=3-5 expression=3-8)] expression=2-9 begin=2-3 end=8-9) begin=10-11 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atLABEL 3-6 x\xff\x00\x0atINTEGER 7-8 \xff\x01\x0atRPAREN 8-9 )\x0atLAMBEG 10-11 {\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"->x\xffa: { }", shape: b"(block call=(lambda) args=(args args=[(kwarg name=\x22x\xff\x00\x22)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(kwarg name=\x22x\xff\x00\x22 name=2-4 expression=2-5)] expression=2-5) begin=6-7 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLABEL 2-5 x\xff\x00\x0atLAMBEG 6-7 {\x0atRCURLY 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"->&x\xffa { }", shape: b"(block call=(lambda) args=(args args=[(blockarg name=\x22x\xff\x00\x22)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(blockarg name=\x22x\xff\x00\x22 operator=2-3 name=3-5 expression=2-5)] expression=2-5) begin=6-7 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atAMPER2 2-3 &\x0atIDENTIFIER 3-5 x\xff\x00\x0atLAMBEG 6-7 {\x0atRCURLY 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"->((x\xffa, y\xffa), zo) { }", shape: b"(block call=(lambda) args=(args args=[(mlhs items=[(arg name=\x22x\xff\x00\x22) (arg name=\x22y\xff\x01\x22)]) (arg name=\x22zo\x22)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(mlhs items=[(arg name=\x22x\xff\x00\x22 expression=4-6) (arg name=\x22y\xff\x01\x22 expression=8-10)] begin=3-4 end=10-11 expression=3-11) (arg name=\x22zo\x22 expression=13-15)] expression=2-16 begin=2-3 end=15-16) begin=17-18 end=19-20 expression=0-20)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atLPAREN 3-4 (\x0atIDENTIFIER 4-6 x\xff\x00\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-10 y\xff\x01\x0atRPAREN 10-11 )\x0atCOMMA 11-12 ,\x0atIDENTIFIER 13-15 zo\x0atRPAREN 15-16 )\x0atLAMBEG 17-18 {\x0atRCURLY 19-20 }\x0aEOF 20-20 " },
    Rec { t: b"->(*) { }", shape: b"(block call=(lambda) args=(args args=[(restarg)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(restarg operator=3-4 expression=3-4)] expression=2-5 begin=2-3 end=4-5) begin=6-7 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atSTAR 3-4 *\x0atRPAREN 4-5 )\x0atLAMBEG 6-7 {\x0atRCURLY 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"->(**) { }", shape: b"(block call=(lambda) args=(args args=[(kwrestarg)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(kwrestarg operator=3-5 expression=3-5)] expression=2-6 begin=2-3 end=5-6) begin=7-8 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atDSTAR 3-5 **\x0atRPAREN 5-6 )\x0atLAMBEG 7-8 {\x0atRCURLY 9-10 }\x0aEOF 10-10 " },
    Rec { t: b"->(**nil) { }", shape: b"(block call=(lambda) args=(args args=[(kwnilarg)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(kwnilarg name=5-8 expression=3-8)] expression=2-9 begin=2-3 end=8-9) begin=10-11 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atDSTAR 3-5 **\x0akNIL 5-8 nil\x0atRPAREN 8-9 )\x0atLAMBEG 10-11 {\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"->(x\xffa, *) { }", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22) (restarg)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=3-5) (restarg operator=7-8 expression=7-8)] expression=2-9 begin=2-3 end=8-9) begin=10-11 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atCOMMA 5-6 ,\x0atSTAR 7-8 *\x0atRPAREN 8-9 )\x0atLAMBEG 10-11 {\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"->(x\xffa,y\xffa=\xffd,*zo,ko,jo:,ho: \xffd,**go,&fo) { }", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22) (optarg name=\x22y\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (restarg name=\x22zo\x22) (arg name=\x22ko\x22) (kwarg name=\x22jo\x22) (kwoptarg name=\x22ho\x22 default=(int value=\x22\xff\x03\x22)) (kwrestarg name=\x22go\x22) (blockarg name=\x22fo\x22)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=3-5) (optarg name=\x22y\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=9-10) name=6-8 operator=8-9 expression=6-10) (restarg name=\x22zo\x22 operator=11-12 name=12-14 expression=11-14) (arg name=\x22ko\x22 expression=15-17) (kwarg name=\x22jo\x22 name=18-20 expression=18-21) (kwoptarg name=\x22ho\x22 default=(int value=\x22\xff\x03\x22 expression=26-27) name=22-24 expression=22-27) (kwrestarg name=\x22go\x22 operator=28-30 name=30-32 expression=28-32) (blockarg name=\x22fo\x22 operator=33-34 name=34-36 expression=33-36)] expression=2-37 begin=2-3 end=36-37) begin=38-39 end=40-41 expression=0-41)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atCOMMA 5-6 ,\x0atIDENTIFIER 6-8 y\xff\x01\x0atEQL 8-9 =\x0atINTEGER 9-10 \xff\x02\x0atCOMMA 10-11 ,\x0atSTAR 11-12 *\x0atIDENTIFIER 12-14 zo\x0atCOMMA 14-15 ,\x0atIDENTIFIER 15-17 ko\x0atCOMMA 17-18 ,\x0atLABEL 18-21 jo\x0atCOMMA 21-22 ,\x0atLABEL 22-25 ho\x0atINTEGER 26-27 \xff\x03\x0atCOMMA 27-28 ,\x0atDSTAR 28-30 **\x0atIDENTIFIER 30-32 go\x0atCOMMA 32-33 ,\x0atAMPER 33-34 &\x0atIDENTIFIER 34-36 fo\x0atRPAREN 36-37 )\x0atLAMBEG 38-39 {\x0atRCURLY 40-41 }\x0aEOF 41-41 " },
    Rec { t: b"-> { x\xffa }", shape: b"(block call=(lambda) body=(send method_name=\x22x\xff\x00\x22 args=[]))", full: b"(block call=(lambda expression=0-2) body=(send method_name=\x22x\xff\x00\x22 args=[] selector=5-7 expression=5-7) begin=3-4 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLAMBEG 3-4 {\x0atIDENTIFIER 5-7 x\xff\x00\x0atRCURLY 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"->() { x\xffa }", shape: b"(block call=(lambda) args=(args args=[]) body=(send method_name=\x22x\xff\x00\x22 args=[]))", full: b"(block call=(lambda expression=0-2) args=(args args=[] expression=2-4 begin=2-3 end=3-4) body=(send method_name=\x22x\xff\x00\x22 args=[] selector=7-9 expression=7-9) begin=5-6 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atRPAREN 3-4 )\x0atLAMBEG 5-6 {\x0atIDENTIFIER 7-9 x\xff\x00\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"->(x\xffa) { x\xfe\x00 }", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22)]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=3-5)] expression=2-6 begin=2-3 end=5-6) body=(lvar name=\x22x\xff\x00\x22 expression=9-11) begin=7-8 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atRPAREN 5-6 )\x0atLAMBEG 7-8 {\x0atIDENTIFIER 9-11 x\xff\x00\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"->x\xffa { x\xfe\x00 }", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22)]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=2-4)] expression=2-4) body=(lvar name=\x22x\xff\x00\x22 expression=7-9) begin=5-6 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atIDENTIFIER 2-4 x\xff\x00\x0atLAMBEG 5-6 {\x0atIDENTIFIER 7-9 x\xff\x00\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"->x\xffa, y\xffa { x\xfe\x00 }", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22) (arg name=\x22y\xff\x01\x22)]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=2-4) (arg name=\x22y\xff\x01\x22 expression=6-8)] expression=2-8) body=(lvar name=\x22x\xff\x00\x22 expression=11-13) begin=9-10 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atIDENTIFIER 2-4 x\xff\x00\x0atCOMMA 4-5 ,\x0atIDENTIFIER 6-8 y\xff\x01\x0atLAMBEG 9-10 {\x0atIDENTIFIER 11-13 x\xff\x00\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"->(x\xffa; y\xffa) { x\xfe\x00 }", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22) (shadowarg name=\x22y\xff\x01\x22)]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=3-5) (shadowarg name=\x22y\xff\x01\x22 expression=7-9)] expression=2-10 begin=2-3 end=9-10) body=(lvar name=\x22x\xff\x00\x22 expression=13-15) begin=11-12 end=16-17 expression=0-17)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 y\xff\x01\x0atRPAREN 9-10 )\x0atLAMBEG 11-12 {\x0atIDENTIFIER 13-15 x\xff\x00\x0atRCURLY 16-17 }\x0aEOF 17-17 " },
    Rec { t: b"->(x\xffa, y\xffa; zo) { x\xfe\x00 }", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22) (arg name=\x22y\xff\x01\x22) (shadowarg name=\x22zo\x22)]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=3-5) (arg name=\x22y\xff\x01\x22 expression=7-9) (shadowarg name=\x22zo\x22 expression=11-13)] expression=2-14 begin=2-3 end=13-14) body=(lvar name=\x22x\xff\x00\x22 expression=17-19) begin=15-16 end=20-21 expression=0-21)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atCOMMA 5-6 ,\x0atIDENTIFIER 7-9 y\xff\x01\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 zo\x0atRPAREN 13-14 )\x0atLAMBEG 15-16 {\x0atIDENTIFIER 17-19 x\xff\x00\x0atRCURLY 20-21 }\x0aEOF 21-21 " },
    Rec { t: b"->(;z\xffa) { x\xffa }", shape: b"(block call=(lambda) args=(args args=[(shadowarg name=\x22z\xff\x00\x22)]) body=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(shadowarg name=\x22z\xff\x00\x22 expression=4-6)] expression=2-7 begin=2-3 end=6-7) body=(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12) begin=8-9 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atSEMI 3-4 ;\x0atIDENTIFIER 4-6 z\xff\x00\x0atRPAREN 6-7 )\x0atLAMBEG 8-9 {\x0atIDENTIFIER 10-12 x\xff\x01\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"->*x\xffa { x\xfe\x00 }", shape: b"(block call=(lambda) args=(args args=[(restarg name=\x22x\xff\x00\x22)]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(restarg name=\x22x\xff\x00\x22 operator=2-3 name=3-5 expression=2-5)] expression=2-5) body=(lvar name=\x22x\xff\x00\x22 expression=8-10) begin=6-7 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atSTAR2 2-3 *\x0atIDENTIFIER 3-5 x\xff\x00\x0atLAMBEG 6-7 {\x0atIDENTIFIER 8-10 x\xff\x00\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"->(*x\xffa, **y\xffa, &zo) { x\xfe\x00 }", shape: b"(block call=(lambda) args=(args args=[(restarg name=\x22x\xff\x00\x22) (kwrestarg name=\x22y\xff\x01\x22) (blockarg name=\x22zo\x22)]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(restarg name=\x22x\xff\x00\x22 operator=3-4 name=4-6 expression=3-6) (kwrestarg name=\x22y\xff\x01\x22 operator=8-10 name=10-12 expression=8-12) (blockarg name=\x22zo\x22 operator=14-15 name=15-17 expression=14-17)] expression=2-18 begin=2-3 end=17-18) body=(lvar name=\x22x\xff\x00\x22 expression=21-23) begin=19-20 end=24-25 expression=0-25)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atSTAR 3-4 *\x0atIDENTIFIER 4-6 x\xff\x00\x0atCOMMA 6-7 ,\x0atDSTAR 8-10 **\x0atIDENTIFIER 10-12 y\xff\x01\x0atCOMMA 12-13 ,\x0atAMPER 14-15 &\x0atIDENTIFIER 15-17 zo\x0atRPAREN 17-18 )\x0atLAMBEG 19-20 {\x0atIDENTIFIER 21-23 x\xff\x00\x0atRCURLY 24-25 }\x0aEOF 25-25 " },
    Rec { t: b"->(x\xffa = \xffd) { x\xfe\x00 }", shape: b"(block call=(lambda) args=(args args=[(optarg name=\x22x\xff\x00\x22 default=(int value=\x22\xff\x01\x22))]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(optarg name=\x22x\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=8-9) name=3-5 operator=6-7 expression=3-9)] expression=2-10 begin=2-3 end=9-10) body=(lvar name=\x22x\xff\x00\x22 expression=13-15) begin=11-12 end=16-17 expression=0-17)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atEQL 6-7 =\x0atINTEGER 8-9 \xff\x01\x0atRPAREN 9-10 )\x0atLAMBEG 11-12 {\x0atIDENTIFIER 13-15 x\xff\x00\x0atRCURLY 16-17 }\x0aEOF 17-17 " },
    Rec { t: b"->x\xffa = \xffd { x\xfe\x00 }", shape: b"(block call=(lambda) args=(args args=[(optarg name=\x22x\xff\x00\x22 default=(int value=\x22\xff\x01\x22))]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(optarg name=\x22x\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=7-8) name=2-4 operator=5-6 expression=2-8)] expression=2-8) body=(lvar name=\x22x\xff\x00\x22 expression=11-13) begin=9-10 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atIDENTIFIER 2-4 x\xff\x00\x0atEQL 5-6 =\x0atINTEGER 7-8 \xff\x01\x0atLAMBEG 9-10 {\x0atIDENTIFIER 11-13 x\xff\x00\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"->(x\xffa:) { x\xfe\x00 }", shape: b"(block call=(lambda) args=(args args=[(kwarg name=\x22x\xff\x00\x22)]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(kwarg name=\x22x\xff\x00\x22 name=3-5 expression=3-6)] expression=2-7 begin=2-3 end=6-7) body=(lvar name=\x22x\xff\x00\x22 expression=10-12) begin=8-9 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atLABEL 3-6 x\xff\x00\x0atRPAREN 6-7 )\x0atLAMBEG 8-9 {\x0atIDENTIFIER 10-12 x\xff\x00\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"->(x\xffa: \xffd) { x\xfe\x00 }", shape: b"(block call=(lambda) args=(args args=[(kwoptarg name=\x22x\xff\x00\x22 default=(int value=\x22\xff\x01\x22))]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(kwoptarg name=\x22x\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=7-8) name=3-5 expression=3-8)] expression=2-9 begin=2-3 end=8-9) body=(lvar name=\x22x\xff\x00\x22 expression=12-14) begin=10-11 end=15-16 expression=0-16)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atLABEL 3-6 x\xff\x00\x0atINTEGER 7-8 \xff\x01\x0atRPAREN 8-9 )\x0atLAMBEG 10-11 {\x0atIDENTIFIER 12-14 x\xff\x00\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"->x\xffa: { x\xfe\x00 }", shape: b"(block call=(lambda) args=(args args=[(kwarg name=\x22x\xff\x00\x22)]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(kwarg name=\x22x\xff\x00\x22 name=2-4 expression=2-5)] expression=2-5) body=(lvar name=\x22x\xff\x00\x22 expression=8-10) begin=6-7 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLABEL 2-5 x\xff\x00\x0atLAMBEG 6-7 {\x0atIDENTIFIER 8-10 x\xff\x00\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"->&x\xffa { x\xfe\x00 }", shape: b"(block call=(lambda) args=(args args=[(blockarg name=\x22x\xff\x00\x22)]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(blockarg name=\x22x\xff\x00\x22 operator=2-3 name=3-5 expression=2-5)] expression=2-5) body=(lvar name=\x22x\xff\x00\x22 expression=8-10) begin=6-7 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atAMPER2 2-3 &\x0atIDENTIFIER 3-5 x\xff\x00\x0atLAMBEG 6-7 {\x0atIDENTIFIER 8-10 x\xff\x00\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"->((x\xffa, y\xffa), zo) { x\xfe\x00 }", shape: b"(block call=(lambda) args=(args args=[(mlhs items=[(arg name=\x22x\xff\x00\x22) (arg name=\x22y\xff\x01\x22)]) (arg name=\x22zo\x22)]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(mlhs items=[(arg name=\x22x\xff\x00\x22 expression=4-6) (arg name=\x22y\xff\x01\x22 expression=8-10)] begin=3-4 end=10-11 expression=3-11) (arg name=\x22zo\x22 expression=13-15)] expression=2-16 begin=2-3 end=15-16) body=(lvar name=\x22x\xff\x00\x22 expression=19-21) begin=17-18 end=22-23 expression=0-23)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atLPAREN 3-4 (\x0atIDENTIFIER 4-6 x\xff\x00\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-10 y\xff\x01\x0atRPAREN 10-11 )\x0atCOMMA 11-12 ,\x0atIDENTIFIER 13-15 zo\x0atRPAREN 15-16 )\x0atLAMBEG 17-18 {\x0atIDENTIFIER 19-21 x\xff\x00\x0atRCURLY 22-23 }\x0aEOF 23-23 " },
    Rec { t: b"->(*) { x\xffa }", shape: b"(block call=(lambda) args=(args args=[(restarg)]) body=(send method_name=\x22x\xff\x00\x22 args=[]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(restarg operator=3-4 expression=3-4)] expression=2-5 begin=2-3 end=4-5) body=(send method_name=\x22x\xff\x00\x22 args=[] selector=8-10 expression=8-10) begin=6-7 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atSTAR 3-4 *\x0atRPAREN 4-5 )\x0atLAMBEG 6-7 {\x0atIDENTIFIER 8-10 x\xff\x00\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"->(**) { x\xffa }", shape: b"(block call=(lambda) args=(args args=[(kwrestarg)]) body=(send method_name=\x22x\xff\x00\x22 args=[]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(kwrestarg operator=3-5 expression=3-5)] expression=2-6 begin=2-3 end=5-6) body=(send method_name=\x22x\xff\x00\x22 args=[] selector=9-11 expression=9-11) begin=7-8 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atDSTAR 3-5 **\x0atRPAREN 5-6 )\x0atLAMBEG 7-8 {\x0atIDENTIFIER 9-11 x\xff\x00\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"->(**nil) { x\xffa }", shape: b"(block call=(lambda) args=(args args=[(kwnilarg)]) body=(send method_name=\x22x\xff\x00\x22 args=[]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(kwnilarg name=5-8 expression=3-8)] expression=2-9 begin=2-3 end=8-9) body=(send method_name=\x22x\xff\x00\x22 args=[] selector=12-14 expression=12-14) begin=10-11 end=15-16 expression=0-16)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atDSTAR 3-5 **\x0akNIL 5-8 nil\x0atRPAREN 8-9 )\x0atLAMBEG 10-11 {\x0atIDENTIFIER 12-14 x\xff\x00\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"->(x\xffa, *) { x\xfe\x00 }", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22) (restarg)]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=3-5) (restarg operator=7-8 expression=7-8)] expression=2-9 begin=2-3 end=8-9) body=(lvar name=\x22x\xff\x00\x22 expression=12-14) begin=10-11 end=15-16 expression=0-16)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atCOMMA 5-6 ,\x0atSTAR 7-8 *\x0atRPAREN 8-9 )\x0atLAMBEG 10-11 {\x0atIDENTIFIER 12-14 x\xff\x00\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"->(x\xffa,y\xffa=\xffd,*zo,ko,jo:,ho: \xffd,**go,&fo) { x\xfe\x00 }", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22) (optarg name=\x22y\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (restarg name=\x22zo\x22) (arg name=\x22ko\x22) (kwarg name=\x22jo\x22) (kwoptarg name=\x22ho\x22 default=(int value=\x22\xff\x03\x22)) (kwrestarg name=\x22go\x22) (blockarg name=\x22fo\x22)]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=3-5) (optarg name=\x22y\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=9-10) name=6-8 operator=8-9 expression=6-10) (restarg name=\x22zo\x22 operator=11-12 name=12-14 expression=11-14) (arg name=\x22ko\x22 expression=15-17) (kwarg name=\x22jo\x22 name=18-20 expression=18-21) (kwoptarg name=\x22ho\x22 default=(int value=\x22\xff\x03\x22 expression=26-27) name=22-24 expression=22-27) (kwrestarg name=\x22go\x22 operator=28-30 name=30-32 expression=28-32) (blockarg name=\x22fo\x22 operator=33-34 name=34-36 expression=33-36)] expression=2-37 begin=2-3 end=36-37) body=(lvar name=\x22x\xff\x00\x22 expression=40-42) begin=38-39 end=43-44 expression=0-44)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atCOMMA 5-6 ,\x0atIDENTIFIER 6-8 y\xff\x01\x0atEQL 8-9 =\x0atINTEGER 9-10 \xff\x02\x0atCOMMA 10-11 ,\x0atSTAR 11-12 *\x0atIDENTIFIER 12-14 zo\x0atCOMMA 14-15 ,\x0atIDENTIFIER 15-17 ko\x0atCOMMA 17-18 ,\x0atLABEL 18-21 jo\x0atCOMMA 21-22 ,\x0atLABEL 22-25 ho\x0atINTEGER 26-27 \xff\x03\x0atCOMMA 27-28 ,\x0atDSTAR 28-30 **\x0atIDENTIFIER 30-32 go\x0atCOMMA 32-33 ,\x0atAMPER 33-34 &\x0atIDENTIFIER 34-36 fo\x0atRPAREN 36-37 )\x0atLAMBEG 38-39 {\x0atIDENTIFIER 40-42 x\xff\x00\x0atRCURLY 43-44 }\x0aEOF 44-44 " },
    Rec { t: b"->x\xffa do end", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=2-4)] expression=2-4) begin=5-7 end=8-11 expression=0-11)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atIDENTIFIER 2-4 x\xff\x00\x0akDO_LAMBDA 5-7 do\x0akEND 8-11 end\x0aEOF 11-11 " },
    Rec { t: b"->x\xffa, y\xffa do end", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22) (arg name=\x22y\xff\x01\x22)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=2-4) (arg name=\x22y\xff\x01\x22 expression=6-8)] expression=2-8) begin=9-11 end=12-15 expression=0-15)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atIDENTIFIER 2-4 x\xff\x00\x0atCOMMA 4-5 ,\x0atIDENTIFIER 6-8 y\xff\x01\x0akDO_LAMBDA 9-11 do\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"->(x\xffa; y\xffa) do end", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22) (shadowarg name=\x22y\xff\x01\x22)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=3-5) (shadowarg name=\x22y\xff\x01\x22 expression=7-9)] expression=2-10 begin=2-3 end=9-10) begin=11-13 end=14-17 expression=0-17)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 y\xff\x01\x0atRPAREN 9-10 )\x0akDO_LAMBDA 11-13 do\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"->(x\xffa, y\xffa; zo) do end", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22) (arg name=\x22y\xff\x01\x22) (shadowarg name=\x22zo\x22)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=3-5) (arg name=\x22y\xff\x01\x22 expression=7-9) (shadowarg name=\x22zo\x22 expression=11-13)] expression=2-14 begin=2-3 end=13-14) begin=15-17 end=18-21 expression=0-21)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atCOMMA 5-6 ,\x0atIDENTIFIER 7-9 y\xff\x01\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 zo\x0atRPAREN 13-14 )\x0akDO_LAMBDA 15-17 do\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"->(;z\xffa) do end", shape: b"(block call=(lambda) args=(args args=[(shadowarg name=\x22z\xff\x00\x22)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(shadowarg name=\x22z\xff\x00\x22 expression=4-6)] expression=2-7 begin=2-3 end=6-7) begin=8-10 end=11-14 expression=0-14)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atSEMI 3-4 ;\x0atIDENTIFIER 4-6 z\xff\x00\x0atRPAREN 6-7 )\x0akDO_LAMBDA 8-10 do\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"->*x\xffa do end", shape: b"(block call=(lambda) args=(args args=[(restarg name=\x22x\xff\x00\x22)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(restarg name=\x22x\xff\x00\x22 operator=2-3 name=3-5 expression=2-5)] expression=2-5) begin=6-8 end=9-12 expression=0-12)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atSTAR2 2-3 *\x0atIDENTIFIER 3-5 x\xff\x00\x0akDO_LAMBDA 6-8 do\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"->(*x\xffa, **y\xffa, &zo) do end", shape: b"(block call=(lambda) args=(args args=[(restarg name=\x22x\xff\x00\x22) (kwrestarg name=\x22y\xff\x01\x22) (blockarg name=\x22zo\x22)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(restarg name=\x22x\xff\x00\x22 operator=3-4 name=4-6 expression=3-6) (kwrestarg name=\x22y\xff\x01\x22 operator=8-10 name=10-12 expression=8-12) (blockarg name=\x22zo\x22 operator=14-15 name=15-17 expression=14-17)] expression=2-18 begin=2-3 end=17-18) begin=19-21 end=22-25 expression=0-25)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atSTAR 3-4 *\x0atIDENTIFIER 4-6 x\xff\x00\x0atCOMMA 6-7 ,\x0atDSTAR 8-10 **\x0atIDENTIFIER 10-12 y\xff\x01\x0atCOMMA 12-13 ,\x0atAMPER 14-15 &\x0atIDENTIFIER 15-17 zo\x0atRPAREN 17-18 )\x0akDO_LAMBDA 19-21 do\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"->(x\xffa = \xffd) do end", shape: b"(block call=(lambda) args=(args args=[(optarg name=\x22x\xff\x00\x22 default=(int value=\x22\xff\x01\x22))]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(optarg name=\x22x\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=8-9) name=3-5 operator=6-7 expression=3-9)] expression=2-10 begin=2-3 end=9-10) begin=11-13 end=14-17 expression=0-17)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atEQL 6-7 =\x0atINTEGER 8-9 \xff\x01\x0atRPAREN 9-10 )\x0akDO_LAMBDA 11-13 do\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"->x\xffa = \xffd do end", shape: b"(block call=(lambda) args=(args args=[(optarg name=\x22x\xff\x00\x22 default=(int value=\x22\xff\x01\x22))]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(optarg name=\x22x\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=7-8) name=2-4 operator=5-6 expression=2-8)] expression=2-8) begin=9-11 end=12-15 expression=0-15)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atIDENTIFIER 2-4 x\xff\x00\x0atEQL 5-6 =\x0atINTEGER 7-8 \xff\x01\x0akDO_LAMBDA 9-11 do\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"->(x\xffa:) do end", shape: b"(block call=(lambda) args=(args args=[(kwarg name=\x22x\xff\x00\x22)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(kwarg name=\x22x\xff\x00\x22 name=3-5 expression=3-6)] expression=2-7 begin=2-3 end=6-7) begin=8-10 end=11-14 expression=0-14)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atLABEL 3-6 x\xff\x00\x0atRPAREN 6-7 )\x0akDO_LAMBDA 8-10 do\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"->(x\xffa: \xffd) do end", shape: b"(block call=(lambda) args=(args args=[(kwoptarg name=\x22x\xff\x00\x22 default=(int value=\x22\xff\x01\x22))]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(kwoptarg name=\x22x\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=7-8) name=3-5 expression=3-8)] expression=2-9 begin=2-3 end=8-9) begin=10-12 end=13-16 expression=0-16)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atLABEL 3-6 x\xff\x00\x0atINTEGER 7-8 \xff\x01\x0atRPAREN 8-9 )\x0akDO_LAMBDA 10-12 do\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"->x\xffa: do end", shape: b"(block call=(lambda) args=(args args=[(kwarg name=\x22x\xff\x00\x22)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(kwarg name=\x22x\xff\x00\x22 name=2-4 expression=2-5)] expression=2-5) begin=6-8 end=9-12 expression=0-12)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLABEL 2-5 x\xff\x00\x0akDO_LAMBDA 6-8 do\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"->&x\xffa do end", shape: b"(block call=(lambda) args=(args args=[(blockarg name=\x22x\xff\x00\x22)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(blockarg name=\x22x\xff\x00\x22 operator=2-3 name=3-5 expression=2-5)] expression=2-5) begin=6-8 end=9-12 expression=0-12)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atAMPER2 2-3 &\x0atIDENTIFIER 3-5 x\xff\x00\x0akDO_LAMBDA 6-8 do\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"->((x\xffa, y\xffa), zo) do end", shape: b"(block call=(lambda) args=(args args=[(mlhs items=[(arg name=\x22x\xff\x00\x22) (arg name=\x22y\xff\x01\x22)]) (arg name=\x22zo\x22)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(mlhs items=[(arg name=\x22x\xff\x00\x22 expression=4-6) (arg name=\x22y\xff\x01\x22 expression=8-10)] begin=3-4 end=10-11 expression=3-11) (arg name=\x22zo\x22 expression=13-15)] expression=2-16 begin=2-3 end=15-16) begin=17-19 end=20-23 expression=0-23)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atLPAREN 3-4 (\x0atIDENTIFIER 4-6 x\xff\x00\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-10 y\xff\x01\x0atRPAREN 10-11 )\x0atCOMMA 11-12 ,\x0atIDENTIFIER 13-15 zo\x0atRPAREN 15-16 )\x0akDO_LAMBDA 17-19 do\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"->(*) do end", shape: b"(block call=(lambda) args=(args args=[(restarg)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(restarg operator=3-4 expression=3-4)] expression=2-5 begin=2-3 end=4-5) begin=6-8 end=9-12 expression=0-12)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atSTAR 3-4 *\x0atRPAREN 4-5 )\x0akDO_LAMBDA 6-8 do\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"->(**) do end", shape: b"(block call=(lambda) args=(args args=[(kwrestarg)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(kwrestarg operator=3-5 expression=3-5)] expression=2-6 begin=2-3 end=5-6) begin=7-9 end=10-13 expression=0-13)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atDSTAR 3-5 **\x0atRPAREN 5-6 )\x0akDO_LAMBDA 7-9 do\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"->(**nil) do end", shape: b"(block call=(lambda) args=(args args=[(kwnilarg)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(kwnilarg name=5-8 expression=3-8)] expression=2-9 begin=2-3 end=8-9) begin=10-12 end=13-16 expression=0-16)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atDSTAR 3-5 **\x0akNIL 5-8 nil\x0atRPAREN 8-9 )\x0akDO_LAMBDA 10-12 do\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"->(x\xffa, *) do end", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22) (restarg)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=3-5) (restarg operator=7-8 expression=7-8)] expression=2-9 begin=2-3 end=8-9) begin=10-12 end=13-16 expression=0-16)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atCOMMA 5-6 ,\x0atSTAR 7-8 *\x0atRPAREN 8-9 )\x0akDO_LAMBDA 10-12 do\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"->(x\xffa,y\xffa=\xffd,*zo,ko,jo:,ho: \xffd,**go,&fo) do end", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22) (optarg name=\x22y\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (restarg name=\x22zo\x22) (arg name=\x22ko\x22) (kwarg name=\x22jo\x22) (kwoptarg name=\x22ho\x22 default=(int value=\x22\xff\x03\x22)) (kwrestarg name=\x22go\x22) (blockarg name=\x22fo\x22)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=3-5) (optarg name=\x22y\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=9-10) name=6-8 operator=8-9 expression=6-10) (restarg name=\x22zo\x22 operator=11-12 name=12-14 expression=11-14) (arg name=\x22ko\x22 expression=15-17) (kwarg name=\x22jo\x22 name=18-20 expression=18-21) (kwoptarg name=\x22ho\x22 default=(int value=\x22\xff\x03\x22 expression=26-27) name=22-24 expression=22-27) (kwrestarg name=\x22go\x22 operator=28-30 name=30-32 expression=28-32) (blockarg name=\x22fo\x22 operator=33-34 name=34-36 expression=33-36)] expression=2-37 begin=2-3 end=36-37) begin=38-40 end=41-44 expression=0-44)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atCOMMA 5-6 ,\x0atIDENTIFIER 6-8 y\xff\x01\x0atEQL 8-9 =\x0atINTEGER 9-10 \xff\x02\x0atCOMMA 10-11 ,\x0atSTAR 11-12 *\x0atIDENTIFIER 12-14 zo\x0atCOMMA 14-15 ,\x0atIDENTIFIER 15-17 ko\x0atCOMMA 17-18 ,\x0atLABEL 18-21 jo\x0atCOMMA 21-22 ,\x0atLABEL 22-25 ho\x0atINTEGER 26-27 \xff\x03\x0atCOMMA 27-28 ,\x0atDSTAR 28-30 **\x0atIDENTIFIER 30-32 go\x0atCOMMA 32-33 ,\x0atAMPER 33-34 &\x0atIDENTIFIER 34-36 fo\x0atRPAREN 36-37 )\x0akDO_LAMBDA 38-40 do\x0akEND 41-44 end\x0aEOF 44-44 " },
    Rec { t: b"-> do x\xffa end", shape: b"(block call=(lambda) body=(send method_name=\x22x\xff\x00\x22 args=[]))", full: b"(block call=(lambda expression=0-2) body=(send method_name=\x22x\xff\x00\x22 args=[] selector=6-8 expression=6-8) begin=3-5 end=9-12 expression=0-12)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0akDO_LAMBDA 3-5 do\x0atIDENTIFIER 6-8 x\xff\x00\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"->() do x\xffa end", shape: b"(block call=(lambda) args=(args args=[]) body=(send method_name=\x22x\xff\x00\x22 args=[]))", full: b"(block call=(lambda expression=0-2) args=(args args=[] expression=2-4 begin=2-3 end=3-4) body=(send method_name=\x22x\xff\x00\x22 args=[] selector=8-10 expression=8-10) begin=5-7 end=11-14 expression=0-14)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atRPAREN 3-4 )\x0akDO_LAMBDA 5-7 do\x0atIDENTIFIER 8-10 x\xff\x00\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"->(x\xffa) do x\xfe\x00 end", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22)]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=3-5)] expression=2-6 begin=2-3 end=5-6) body=(lvar name=\x22x\xff\x00\x22 expression=10-12) begin=7-9 end=13-16 expression=0-16)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atRPAREN 5-6 )\x0akDO_LAMBDA 7-9 do\x0atIDENTIFIER 10-12 x\xff\x00\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"->x\xffa do x\xfe\x00 end", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22)]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=2-4)] expression=2-4) body=(lvar name=\x22x\xff\x00\x22 expression=8-10) begin=5-7 end=11-14 expression=0-14)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atIDENTIFIER 2-4 x\xff\x00\x0akDO_LAMBDA 5-7 do\x0atIDENTIFIER 8-10 x\xff\x00\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"->x\xffa, y\xffa do x\xfe\x00 end", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22) (arg name=\x22y\xff\x01\x22)]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=2-4) (arg name=\x22y\xff\x01\x22 expression=6-8)] expression=2-8) body=(lvar name=\x22x\xff\x00\x22 expression=12-14) begin=9-11 end=15-18 expression=0-18)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atIDENTIFIER 2-4 x\xff\x00\x0atCOMMA 4-5 ,\x0atIDENTIFIER 6-8 y\xff\x01\x0akDO_LAMBDA 9-11 do\x0atIDENTIFIER 12-14 x\xff\x00\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"->(x\xffa; y\xffa) do x\xfe\x00 end", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22) (shadowarg name=\x22y\xff\x01\x22)]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=3-5) (shadowarg name=\x22y\xff\x01\x22 expression=7-9)] expression=2-10 begin=2-3 end=9-10) body=(lvar name=\x22x\xff\x00\x22 expression=14-16) begin=11-13 end=17-20 expression=0-20)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 y\xff\x01\x0atRPAREN 9-10 )\x0akDO_LAMBDA 11-13 do\x0atIDENTIFIER 14-16 x\xff\x00\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"->(x\xffa, y\xffa; zo) do x\xfe\x00 end", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22) (arg name=\x22y\xff\x01\x22) (shadowarg name=\x22zo\x22)]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=3-5) (arg name=\x22y\xff\x01\x22 expression=7-9) (shadowarg name=\x22zo\x22 expression=11-13)] expression=2-14 begin=2-3 end=13-14) body=(lvar name=\x22x\xff\x00\x22 expression=18-20) begin=15-17 end=21-24 expression=0-24)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atCOMMA 5-6 ,\x0atIDENTIFIER 7-9 y\xff\x01\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 zo\x0atRPAREN 13-14 )\x0akDO_LAMBDA 15-17 do\x0atIDENTIFIER 18-20 x\xff\x00\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"->(;z\xffa) do x\xffa end", shape: b"(block call=(lambda) args=(args args=[(shadowarg name=\x22z\xff\x00\x22)]) body=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(shadowarg name=\x22z\xff\x00\x22 expression=4-6)] expression=2-7 begin=2-3 end=6-7) body=(send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13) begin=8-10 end=14-17 expression=0-17)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atSEMI 3-4 ;\x0atIDENTIFIER 4-6 z\xff\x00\x0atRPAREN 6-7 )\x0akDO_LAMBDA 8-10 do\x0atIDENTIFIER 11-13 x\xff\x01\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"->*x\xffa do x\xfe\x00 end", shape: b"(block call=(lambda) args=(args args=[(restarg name=\x22x\xff\x00\x22)]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(restarg name=\x22x\xff\x00\x22 operator=2-3 name=3-5 expression=2-5)] expression=2-5) body=(lvar name=\x22x\xff\x00\x22 expression=9-11) begin=6-8 end=12-15 expression=0-15)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atSTAR2 2-3 *\x0atIDENTIFIER 3-5 x\xff\x00\x0akDO_LAMBDA 6-8 do\x0atIDENTIFIER 9-11 x\xff\x00\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"->(*x\xffa, **y\xffa, &zo) do x\xfe\x00 end", shape: b"(block call=(lambda) args=(args args=[(restarg name=\x22x\xff\x00\x22) (kwrestarg name=\x22y\xff\x01\x22) (blockarg name=\x22zo\x22)]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(restarg name=\x22x\xff\x00\x22 operator=3-4 name=4-6 expression=3-6) (kwrestarg name=\x22y\xff\x01\x22 operator=8-10 name=10-12 expression=8-12) (blockarg name=\x22zo\x22 operator=14-15 name=15-17 expression=14-17)] expression=2-18 begin=2-3 end=17-18) body=(lvar name=\x22x\xff\x00\x22 expression=22-24) begin=19-21 end=25-28 expression=0-28)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atSTAR 3-4 *\x0atIDENTIFIER 4-6 x\xff\x00\x0atCOMMA 6-7 ,\x0atDSTAR 8-10 **\x0atIDENTIFIER 10-12 y\xff\x01\x0atCOMMA 12-13 ,\x0atAMPER 14-15 &\x0atIDENTIFIER 15-17 zo\x0atRPAREN 17-18 )\x0akDO_LAMBDA 19-21 do\x0atIDENTIFIER 22-24 x\xff\x00\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"->(x\xffa = \xffd) do x\xfe\x00 end", shape: b"(block call=(lambda) args=(args args=[(optarg name=\x22x\xff\x00\x22 default=(int value=\x22\xff\x01\x22))]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(optarg name=\x22x\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=8-9) name=3-5 operator=6-7 expression=3-9)] expression=2-10 begin=2-3 end=9-10) body=(lvar name=\x22x\xff\x00\x22 expression=14-16) begin=11-13 end=17-20 expression=0-20)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atEQL 6-7 =\x0atINTEGER 8-9 \xff\x01\x0atRPAREN 9-10 )\x0akDO_LAMBDA 11-13 do\x0atIDENTIFIER 14-16 x\xff\x00\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"->x\xffa = \xffd do x\xfe\x00 end", shape: b"(block call=(lambda) args=(args args=[(optarg name=\x22x\xff\x00\x22 default=(int value=\x22\xff\x01\x22))]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(optarg name=\x22x\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=7-8) name=2-4 operator=5-6 expression=2-8)] expression=2-8) body=(lvar name=\x22x\xff\x00\x22 expression=12-14) begin=9-11 end=15-18 expression=0-18)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atIDENTIFIER 2-4 x\xff\x00\x0atEQL 5-6 =\x0atINTEGER 7-8 \xff\x01\x0akDO_LAMBDA 9-11 do\x0atIDENTIFIER 12-14 x\xff\x00\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"->(x\xffa:) do x\xfe\x00 end", shape: b"(block call=(lambda) args=(args args=[(kwarg name=\x22x\xff\x00\x22)]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(kwarg name=\x22x\xff\x00\x22 name=3-5 expression=3-6)] expression=2-7 begin=2-3 end=6-7) body=(lvar name=\x22x\xff\x00\x22 expression=11-13) begin=8-10 end=14-17 expression=0-17)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atLABEL 3-6 x\xff\x00\x0atRPAREN 6-7 )\x0akDO_LAMBDA 8-10 do\x0atIDENTIFIER 11-13 x\xff\x00\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"->(x\xffa: \xffd) do x\xfe\x00 end", shape: b"(block call=(lambda) args=(args args=[(kwoptarg name=\x22x\xff\x00\x22 default=(int value=\x22\xff\x01\x22))]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(kwoptarg name=\x22x\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=7-8) name=3-5 expression=3-8)] expression=2-9 begin=2-3 end=8-9) body=(lvar name=\x22x\xff\x00\x22 expression=13-15) begin=10-12 end=16-19 expression=0-19)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atLABEL 3-6 x\xff\x00\x0atINTEGER 7-8 \xff\x01\x0atRPAREN 8-9 )\x0akDO_LAMBDA 10-12 do\x0atIDENTIFIER 13-15 x\xff\x00\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"->x\xffa: do x\xfe\x00 end", shape: b"(block call=(lambda) args=(args args=[(kwarg name=\x22x\xff\x00\x22)]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(kwarg name=\x22x\xff\x00\x22 name=2-4 expression=2-5)] expression=2-5) body=(lvar name=\x22x\xff\x00\x22 expression=9-11) begin=6-8 end=12-15 expression=0-15)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLABEL 2-5 x\xff\x00\x0akDO_LAMBDA 6-8 do\x0atIDENTIFIER 9-11 x\xff\x00\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"->&x\xffa do x\xfe\x00 end", shape: b"(block call=(lambda) args=(args args=[(blockarg name=\x22x\xff\x00\x22)]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(blockarg name=\x22x\xff\x00\x22 operator=2-3 name=3-5 expression=2-5)] expression=2-5) body=(lvar name=\x22x\xff\x00\x22 expression=9-11) begin=6-8 end=12-15 expression=0-15)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atAMPER2 2-3 &\x0atIDENTIFIER 3-5 x\xff\x00\x0akDO_LAMBDA 6-8 do\x0atIDENTIFIER 9-11 x\xff\x00\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"->((x\xffa, y\xffa), zo) do x\xfe\x00 end", shape: b"(block call=(lambda) args=(args args=[(mlhs items=[(arg name=\x22x\xff\x00\x22) (arg name=\x22y\xff\x01\x22)]) (arg name=\x22zo\x22)]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(mlhs items=[(arg name=\x22x\xff\x00\x22 expression=4-6) (arg name=\x22y\xff\x01\x22 expression=8-10)] begin=3-4 end=10-11 expression=3-11) (arg name=\x22zo\x22 expression=13-15)] expression=2-16 begin=2-3 end=15-16) body=(lvar name=\x22x\xff\x00\x22 expression=20-22) begin=17-19 end=23-26 expression=0-26)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atLPAREN 3-4 (\x0atIDENTIFIER 4-6 x\xff\x00\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-10 y\xff\x01\x0atRPAREN 10-11 )\x0atCOMMA 11-12 ,\x0atIDENTIFIER 13-15 zo\x0atRPAREN 15-16 )\x0akDO_LAMBDA 17-19 do\x0atIDENTIFIER 20-22 x\xff\x00\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"->(*) do x\xffa end", shape: b"(block call=(lambda) args=(args args=[(restarg)]) body=(send method_name=\x22x\xff\x00\x22 args=[]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(restarg operator=3-4 expression=3-4)] expression=2-5 begin=2-3 end=4-5) body=(send method_name=\x22x\xff\x00\x22 args=[] selector=9-11 expression=9-11) begin=6-8 end=12-15 expression=0-15)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atSTAR 3-4 *\x0atRPAREN 4-5 )\x0akDO_LAMBDA 6-8 do\x0atIDENTIFIER 9-11 x\xff\x00\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"->(**) do x\xffa end", shape: b"(block call=(lambda) args=(args args=[(kwrestarg)]) body=(send method_name=\x22x\xff\x00\x22 args=[]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(kwrestarg operator=3-5 expression=3-5)] expression=2-6 begin=2-3 end=5-6) body=(send method_name=\x22x\xff\x00\x22 args=[] selector=10-12 expression=10-12) begin=7-9 end=13-16 expression=0-16)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atDSTAR 3-5 **\x0atRPAREN 5-6 )\x0akDO_LAMBDA 7-9 do\x0atIDENTIFIER 10-12 x\xff\x00\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"->(**nil) do x\xffa end", shape: b"(block call=(lambda) args=(args args=[(kwnilarg)]) body=(send method_name=\x22x\xff\x00\x22 args=[]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(kwnilarg name=5-8 expression=3-8)] expression=2-9 begin=2-3 end=8-9) body=(send method_name=\x22x\xff\x00\x22 args=[] selector=13-15 expression=13-15) begin=10-12 end=16-19 expression=0-19)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atDSTAR 3-5 **\x0akNIL 5-8 nil\x0atRPAREN 8-9 )\x0akDO_LAMBDA 10-12 do\x0atIDENTIFIER 13-15 x\xff\x00\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"->(x\xffa, *) do x\xfe\x00 end", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22) (restarg)]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=3-5) (restarg operator=7-8 expression=7-8)] expression=2-9 begin=2-3 end=8-9) body=(lvar name=\x22x\xff\x00\x22 expression=13-15) begin=10-12 end=16-19 expression=0-19)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atCOMMA 5-6 ,\x0atSTAR 7-8 *\x0atRPAREN 8-9 )\x0akDO_LAMBDA 10-12 do\x0atIDENTIFIER 13-15 x\xff\x00\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"->(x\xffa,y\xffa=\xffd,*zo,ko,jo:,ho: \xffd,**go,&fo) do x\xfe\x00 end", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22) (optarg name=\x22y\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (restarg name=\x22zo\x22) (arg name=\x22ko\x22) (kwarg name=\x22jo\x22) (kwoptarg name=\x22ho\x22 default=(int value=\x22\xff\x03\x22)) (kwrestarg name=\x22go\x22) (blockarg name=\x22fo\x22)]) body=(lvar name=\x22x\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=3-5) (optarg name=\x22y\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=9-10) name=6-8 operator=8-9 expression=6-10) (restarg name=\x22zo\x22 operator=11-12 name=12-14 expression=11-14) (arg name=\x22ko\x22 expression=15-17) (kwarg name=\x22jo\x22 name=18-20 expression=18-21) (kwoptarg name=\x22ho\x22 default=(int value=\x22\xff\x03\x22 expression=26-27) name=22-24 expression=22-27) (kwrestarg name=\x22go\x22 operator=28-30 name=30-32 expression=28-32) (blockarg name=\x22fo\x22 operator=33-34 name=34-36 expression=33-36)] expression=2-37 begin=2-3 end=36-37) body=(lvar name=\x22x\xff\x00\x22 expression=41-43) begin=38-40 end=44-47 expression=0-47)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atCOMMA 5-6 ,\x0atIDENTIFIER 6-8 y\xff\x01\x0atEQL 8-9 =\x0atINTEGER 9-10 \xff\x02\x0atCOMMA 10-11 ,\x0atSTAR 11-12 *\x0atIDENTIFIER 12-14 zo\x0atCOMMA 14-15 ,\x0atIDENTIFIER 15-17 ko\x0atCOMMA 17-18 ,\x0atLABEL 18-21 jo\x0atCOMMA 21-22 ,\x0atLABEL 22-25 ho\x0atINTEGER 26-27 \xff\x03\x0atCOMMA 27-28 ,\x0atDSTAR 28-30 **\x0atIDENTIFIER 30-32 go\x0atCOMMA 32-33 ,\x0atAMPER 33-34 &\x0atIDENTIFIER 34-36 fo\x0atRPAREN 36-37 )\x0akDO_LAMBDA 38-40 do\x0atIDENTIFIER 41-43 x\xff\x00\x0akEND 44-47 end\x0aEOF 47-47 " },
    Rec { t: b"zo { |v\xffa| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22v\xff\x00\x22)])]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22v\xff\x00\x22 expression=6-8)] expression=6-8)] expression=5-9 begin=5-6 end=8-9) begin=3-4 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 v\xff\x00\x0atPIPE 8-9 |\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"zo { |v\xffa,| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(arg name=\x22v\xff\x00\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22v\xff\x00\x22 expression=6-8)] expression=5-10 begin=5-6 end=9-10) begin=3-4 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 v\xff\x00\x0atCOMMA 8-9 ,\x0atPIPE 9-10 |\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"zo { |v\xffa, x\xffa| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(arg name=\x22v\xff\x00\x22) (arg name=\x22x\xff\x01\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22v\xff\x00\x22 expression=6-8) (arg name=\x22x\xff\x01\x22 expression=10-12)] expression=5-13 begin=5-6 end=12-13) begin=3-4 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 v\xff\x00\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 x\xff\x01\x0atPIPE 12-13 |\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"zo { |*| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(restarg)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(restarg operator=6-7 expression=6-7)] expression=5-8 begin=5-6 end=7-8) begin=3-4 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atSTAR 6-7 *\x0atPIPE 7-8 |\x0atRCURLY 9-10 }\x0aEOF 10-10 " },
    Rec { t: b"zo { |*v\xffa| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(restarg name=\x22v\xff\x00\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(restarg name=\x22v\xff\x00\x22 operator=6-7 name=7-9 expression=6-9)] expression=5-10 begin=5-6 end=9-10) begin=3-4 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atSTAR 6-7 *\x0atIDENTIFIER 7-9 v\xff\x00\x0atPIPE 9-10 |\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"zo { |**v\xffa| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(kwrestarg name=\x22v\xff\x00\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(kwrestarg name=\x22v\xff\x00\x22 operator=6-8 name=8-10 expression=6-10)] expression=5-11 begin=5-6 end=10-11) begin=3-4 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atDSTAR 6-8 **\x0atIDENTIFIER 8-10 v\xff\x00\x0atPIPE 10-11 |\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"zo { |**| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(kwrestarg)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(kwrestarg operator=6-8 expression=6-8)] expression=5-9 begin=5-6 end=8-9) begin=3-4 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atDSTAR 6-8 **\x0atPIPE 8-9 |\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"zo { |&v\xffa| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(blockarg name=\x22v\xff\x00\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(blockarg name=\x22v\xff\x00\x22 operator=6-7 name=7-9 expression=6-9)] expression=5-10 begin=5-6 end=9-10) begin=3-4 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atAMPER 6-7 &\x0atIDENTIFIER 7-9 v\xff\x00\x0atPIPE 9-10 |\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"zo { |v\xffa, *| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(arg name=\x22v\xff\x00\x22) (restarg)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22v\xff\x00\x22 expression=6-8) (restarg operator=10-11 expression=10-11)] expression=5-12 begin=5-6 end=11-12) begin=3-4 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 v\xff\x00\x0atCOMMA 8-9 ,\x0atSTAR 10-11 *\x0atPIPE 11-12 |\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"zo { |v\xffa, *x\xffa| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(arg name=\x22v\xff\x00\x22) (restarg name=\x22x\xff\x01\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22v\xff\x00\x22 expression=6-8) (restarg name=\x22x\xff\x01\x22 operator=10-11 name=11-13 expression=10-13)] expression=5-14 begin=5-6 end=13-14) begin=3-4 end=15-16 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 v\xff\x00\x0atCOMMA 8-9 ,\x0atSTAR 10-11 *\x0atIDENTIFIER 11-13 x\xff\x01\x0atPIPE 13-14 |\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"zo { |v\xffa, *x\xffa, yo| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(arg name=\x22v\xff\x00\x22) (restarg name=\x22x\xff\x01\x22) (arg name=\x22yo\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22v\xff\x00\x22 expression=6-8) (restarg name=\x22x\xff\x01\x22 operator=10-11 name=11-13 expression=10-13) (arg name=\x22yo\x22 expression=15-17)] expression=5-18 begin=5-6 end=17-18) begin=3-4 end=19-20 expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 v\xff\x00\x0atCOMMA 8-9 ,\x0atSTAR 10-11 *\x0atIDENTIFIER 11-13 x\xff\x01\x0atCOMMA 13-14 ,\x0atIDENTIFIER 15-17 yo\x0atPIPE 17-18 |\x0atRCURLY 19-20 }\x0aEOF 20-20 " },
    Rec { t: b"zo { |*v\xffa, x\xffa| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(restarg name=\x22v\xff\x00\x22) (arg name=\x22x\xff\x01\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(restarg name=\x22v\xff\x00\x22 operator=6-7 name=7-9 expression=6-9) (arg name=\x22x\xff\x01\x22 expression=11-13)] expression=5-14 begin=5-6 end=13-14) begin=3-4 end=15-16 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atSTAR 6-7 *\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 x\xff\x01\x0atPIPE 13-14 |\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"zo { |v\xffa = \xffd| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22))]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=11-12) name=6-8 operator=9-10 expression=6-12)] expression=5-13 begin=5-6 end=12-13) begin=3-4 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 v\xff\x00\x0atEQL 9-10 =\x0atINTEGER 11-12 \xff\x01\x0atPIPE 12-13 |\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"zo { |v\xffa = \xffd, x\xffa| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22)) (arg name=\x22x\xff\x02\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=11-12) name=6-8 operator=9-10 expression=6-12) (arg name=\x22x\xff\x02\x22 expression=14-16)] expression=5-17 begin=5-6 end=16-17) begin=3-4 end=18-19 expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 v\xff\x00\x0atEQL 9-10 =\x0atINTEGER 11-12 \xff\x01\x0atCOMMA 12-13 ,\x0atIDENTIFIER 14-16 x\xff\x02\x0atPIPE 16-17 |\x0atRCURLY 18-19 }\x0aEOF 19-19 " },
    Rec { t: b"zo { |v\xffa, x\xffa = \xffd| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(arg name=\x22v\xff\x00\x22) (optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22))]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22v\xff\x00\x22 expression=6-8) (optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=15-16) name=10-12 operator=13-14 expression=10-16)] expression=5-17 begin=5-6 end=16-17) begin=3-4 end=18-19 expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 v\xff\x00\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 x\xff\x01\x0atEQL 13-14 =\x0atINTEGER 15-16 \xff\x02\x0atPIPE 16-17 |\x0atRCURLY 18-19 }\x0aEOF 19-19 " },
    Rec { t: b"zo { |v\xffa, x\xffa = \xffd, yo| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(arg name=\x22v\xff\x00\x22) (optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (arg name=\x22yo\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22v\xff\x00\x22 expression=6-8) (optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=15-16) name=10-12 operator=13-14 expression=10-16) (arg name=\x22yo\x22 expression=18-20)] expression=5-21 begin=5-6 end=20-21) begin=3-4 end=22-23 expression=0-23)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 v\xff\x00\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 x\xff\x01\x0atEQL 13-14 =\x0atINTEGER 15-16 \xff\x02\x0atCOMMA 16-17 ,\x0atIDENTIFIER 18-20 yo\x0atPIPE 20-21 |\x0atRCURLY 22-23 }\x0aEOF 23-23 " },
    Rec { t: b"zo { |v\xffa, x\xffa = \xffd, *yo| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(arg name=\x22v\xff\x00\x22) (optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (restarg name=\x22yo\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22v\xff\x00\x22 expression=6-8) (optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=15-16) name=10-12 operator=13-14 expression=10-16) (restarg name=\x22yo\x22 operator=18-19 name=19-21 expression=18-21)] expression=5-22 begin=5-6 end=21-22) begin=3-4 end=23-24 expression=0-24)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 v\xff\x00\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 x\xff\x01\x0atEQL 13-14 =\x0atINTEGER 15-16 \xff\x02\x0atCOMMA 16-17 ,\x0atSTAR 18-19 *\x0atIDENTIFIER 19-21 yo\x0atPIPE 21-22 |\x0atRCURLY 23-24 }\x0aEOF 24-24 " },
    Rec { t: b"zo { |v\xffa, x\xffa = \xffd, *yo, zo| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(arg name=\x22v\xff\x00\x22) (optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (restarg name=\x22yo\x22) (arg name=\x22zo\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22v\xff\x00\x22 expression=6-8) (optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=15-16) name=10-12 operator=13-14 expression=10-16) (restarg name=\x22yo\x22 operator=18-19 name=19-21 expression=18-21) (arg name=\x22zo\x22 expression=23-25)] expression=5-26 begin=5-6 end=25-26) begin=3-4 end=27-28 expression=0-28)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 v\xff\x00\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 x\xff\x01\x0atEQL 13-14 =\x0atINTEGER 15-16 \xff\x02\x0atCOMMA 16-17 ,\x0atSTAR 18-19 *\x0atIDENTIFIER 19-21 yo\x0atCOMMA 21-22 ,\x0atIDENTIFIER 23-25 zo\x0atPIPE 25-26 |\x0atRCURLY 27-28 }\x0aEOF 28-28 " },
    Rec { t: b"zo { |v\xffa = \xffd, *x\xffa| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22)) (restarg name=\x22x\xff\x02\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=11-12) name=6-8 operator=9-10 expression=6-12) (restarg name=\x22x\xff\x02\x22 operator=14-15 name=15-17 expression=14-17)] expression=5-18 begin=5-6 end=17-18) begin=3-4 end=19-20 expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 v\xff\x00\x0atEQL 9-10 =\x0atINTEGER 11-12 \xff\x01\x0atCOMMA 12-13 ,\x0atSTAR 14-15 *\x0atIDENTIFIER 15-17 x\xff\x02\x0atPIPE 17-18 |\x0atRCURLY 19-20 }\x0aEOF 20-20 " },
    Rec { t: b"zo { |v\xffa = \xffd, *x\xffa, yo| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22)) (restarg name=\x22x\xff\x02\x22) (arg name=\x22yo\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=11-12) name=6-8 operator=9-10 expression=6-12) (restarg name=\x22x\xff\x02\x22 operator=14-15 name=15-17 expression=14-17) (arg name=\x22yo\x22 expression=19-21)] expression=5-22 begin=5-6 end=21-22) begin=3-4 end=23-24 expression=0-24)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 v\xff\x00\x0atEQL 9-10 =\x0atINTEGER 11-12 \xff\x01\x0atCOMMA 12-13 ,\x0atSTAR 14-15 *\x0atIDENTIFIER 15-17 x\xff\x02\x0atCOMMA 17-18 ,\x0atIDENTIFIER 19-21 yo\x0atPIPE 21-22 |\x0atRCURLY 23-24 }\x0aEOF 24-24 " },
    Rec { t: b"zo { |v\xffa:| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(kwarg name=\x22v\xff\x00\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(kwarg name=\x22v\xff\x00\x22 name=6-8 expression=6-9)] expression=5-10 begin=5-6 end=9-10) begin=3-4 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atLABEL 6-9 v\xff\x00\x0atPIPE 9-10 |\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"zo { |v\xffa: \xffd| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(kwoptarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22))]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(kwoptarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=10-11) name=6-8 expression=6-11)] expression=5-12 begin=5-6 end=11-12) begin=3-4 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atLABEL 6-9 v\xff\x00\x0atINTEGER 10-11 \xff\x01\x0atPIPE 11-12 |\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"zo { |v\xffa:, x\xffa:| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(kwarg name=\x22v\xff\x00\x22) (kwarg name=\x22x\xff\x01\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(kwarg name=\x22v\xff\x00\x22 name=6-8 expression=6-9) (kwarg name=\x22x\xff\x01\x22 name=11-13 expression=11-14)] expression=5-15 begin=5-6 end=14-15) begin=3-4 end=16-17 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atLABEL 6-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atLABEL 11-14 x\xff\x01\x0atPIPE 14-15 |\x0atRCURLY 16-17 }\x0aEOF 17-17 " },
    Rec { t: b"zo { |v\xffa, x\xffa:| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(arg name=\x22v\xff\x00\x22) (kwarg name=\x22x\xff\x01\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22v\xff\x00\x22 expression=6-8) (kwarg name=\x22x\xff\x01\x22 name=10-12 expression=10-13)] expression=5-14 begin=5-6 end=13-14) begin=3-4 end=15-16 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 v\xff\x00\x0atCOMMA 8-9 ,\x0atLABEL 10-13 x\xff\x01\x0atPIPE 13-14 |\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"zo { |v\xffa, *x\xffa, yo:| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(arg name=\x22v\xff\x00\x22) (restarg name=\x22x\xff\x01\x22) (kwarg name=\x22yo\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22v\xff\x00\x22 expression=6-8) (restarg name=\x22x\xff\x01\x22 operator=10-11 name=11-13 expression=10-13) (kwarg name=\x22yo\x22 name=15-17 expression=15-18)] expression=5-19 begin=5-6 end=18-19) begin=3-4 end=20-21 expression=0-21)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 v\xff\x00\x0atCOMMA 8-9 ,\x0atSTAR 10-11 *\x0atIDENTIFIER 11-13 x\xff\x01\x0atCOMMA 13-14 ,\x0atLABEL 15-18 yo\x0atPIPE 18-19 |\x0atRCURLY 20-21 }\x0aEOF 21-21 " },
    Rec { t: b"zo { |v\xffa = \xffd, x\xffa: \xffd| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22)) (kwoptarg name=\x22x\xff\x02\x22 default=(int value=\x22\xff\x03\x22))]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=11-12) name=6-8 operator=9-10 expression=6-12) (kwoptarg name=\x22x\xff\x02\x22 default=(int value=\x22\xff\x03\x22 expression=18-19) name=14-16 expression=14-19)] expression=5-20 begin=5-6 end=19-20) begin=3-4 end=21-22 expression=0-22)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 v\xff\x00\x0atEQL 9-10 =\x0atINTEGER 11-12 \xff\x01\x0atCOMMA 12-13 ,\x0atLABEL 14-17 x\xff\x02\x0atINTEGER 18-19 \xff\x03\x0atPIPE 19-20 |\x0atRCURLY 21-22 }\x0aEOF 22-22 " },
    Rec { t: b"zo { |*v\xffa, x\xffa: \xffd| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(restarg name=\x22v\xff\x00\x22) (kwoptarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22))]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(restarg name=\x22v\xff\x00\x22 operator=6-7 name=7-9 expression=6-9) (kwoptarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=15-16) name=11-13 expression=11-16)] expression=5-17 begin=5-6 end=16-17) begin=3-4 end=18-19 expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atSTAR 6-7 *\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atLABEL 11-14 x\xff\x01\x0atINTEGER 15-16 \xff\x02\x0atPIPE 16-17 |\x0atRCURLY 18-19 }\x0aEOF 19-19 " },
    Rec { t: b"zo { |v\xffa:, **x\xffa| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(kwarg name=\x22v\xff\x00\x22) (kwrestarg name=\x22x\xff\x01\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(kwarg name=\x22v\xff\x00\x22 name=6-8 expression=6-9) (kwrestarg name=\x22x\xff\x01\x22 operator=11-13 name=13-15 expression=11-15)] expression=5-16 begin=5-6 end=15-16) begin=3-4 end=17-18 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atLABEL 6-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atDSTAR 11-13 **\x0atIDENTIFIER 13-15 x\xff\x01\x0atPIPE 15-16 |\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"zo { |v\xffa, **x\xffa| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(arg name=\x22v\xff\x00\x22) (kwrestarg name=\x22x\xff\x01\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22v\xff\x00\x22 expression=6-8) (kwrestarg name=\x22x\xff\x01\x22 operator=10-12 name=12-14 expression=10-14)] expression=5-15 begin=5-6 end=14-15) begin=3-4 end=16-17 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 v\xff\x00\x0atCOMMA 8-9 ,\x0atDSTAR 10-12 **\x0atIDENTIFIER 12-14 x\xff\x01\x0atPIPE 14-15 |\x0atRCURLY 16-17 }\x0aEOF 17-17 " },
    Rec { t: b"zo { |**nil| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(kwnilarg)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(kwnilarg name=8-11 expression=6-11)] expression=5-12 begin=5-6 end=11-12) begin=3-4 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atDSTAR 6-8 **\x0akNIL 8-11 nil\x0atPIPE 11-12 |\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"zo { |v\xffa, **nil| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(arg name=\x22v\xff\x00\x22) (kwnilarg)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22v\xff\x00\x22 expression=6-8) (kwnilarg name=12-15 expression=10-15)] expression=5-16 begin=5-6 end=15-16) begin=3-4 end=17-18 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 v\xff\x00\x0atCOMMA 8-9 ,\x0atDSTAR 10-12 **\x0akNIL 12-15 nil\x0atPIPE 15-16 |\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"zo { |v\xffa, &x\xffa| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(arg name=\x22v\xff\x00\x22) (blockarg name=\x22x\xff\x01\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22v\xff\x00\x22 expression=6-8) (blockarg name=\x22x\xff\x01\x22 operator=10-11 name=11-13 expression=10-13)] expression=5-14 begin=5-6 end=13-14) begin=3-4 end=15-16 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 v\xff\x00\x0atCOMMA 8-9 ,\x0atAMPER 10-11 &\x0atIDENTIFIER 11-13 x\xff\x01\x0atPIPE 13-14 |\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"zo { |v\xffa = \xffd, &x\xffa| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22)) (blockarg name=\x22x\xff\x02\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=11-12) name=6-8 operator=9-10 expression=6-12) (blockarg name=\x22x\xff\x02\x22 operator=14-15 name=15-17 expression=14-17)] expression=5-18 begin=5-6 end=17-18) begin=3-4 end=19-20 expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 v\xff\x00\x0atEQL 9-10 =\x0atINTEGER 11-12 \xff\x01\x0atCOMMA 12-13 ,\x0atAMPER 14-15 &\x0atIDENTIFIER 15-17 x\xff\x02\x0atPIPE 17-18 |\x0atRCURLY 19-20 }\x0aEOF 20-20 " },
    Rec { t: b"zo { |*v\xffa, &x\xffa| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(restarg name=\x22v\xff\x00\x22) (blockarg name=\x22x\xff\x01\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(restarg name=\x22v\xff\x00\x22 operator=6-7 name=7-9 expression=6-9) (blockarg name=\x22x\xff\x01\x22 operator=11-12 name=12-14 expression=11-14)] expression=5-15 begin=5-6 end=14-15) begin=3-4 end=16-17 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atSTAR 6-7 *\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atAMPER 11-12 &\x0atIDENTIFIER 12-14 x\xff\x01\x0atPIPE 14-15 |\x0atRCURLY 16-17 }\x0aEOF 17-17 " },
    Rec { t: b"zo { |v\xffa:, &x\xffa| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(kwarg name=\x22v\xff\x00\x22) (blockarg name=\x22x\xff\x01\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(kwarg name=\x22v\xff\x00\x22 name=6-8 expression=6-9) (blockarg name=\x22x\xff\x01\x22 operator=11-12 name=12-14 expression=11-14)] expression=5-15 begin=5-6 end=14-15) begin=3-4 end=16-17 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atLABEL 6-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atAMPER 11-12 &\x0atIDENTIFIER 12-14 x\xff\x01\x0atPIPE 14-15 |\x0atRCURLY 16-17 }\x0aEOF 17-17 " },
    Rec { t: b"zo { |**v\xffa, &x\xffa| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(kwrestarg name=\x22v\xff\x00\x22) (blockarg name=\x22x\xff\x01\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(kwrestarg name=\x22v\xff\x00\x22 operator=6-8 name=8-10 expression=6-10) (blockarg name=\x22x\xff\x01\x22 operator=12-13 name=13-15 expression=12-15)] expression=5-16 begin=5-6 end=15-16) begin=3-4 end=17-18 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atDSTAR 6-8 **\x0atIDENTIFIER 8-10 v\xff\x00\x0atCOMMA 10-11 ,\x0atAMPER 12-13 &\x0atIDENTIFIER 13-15 x\xff\x01\x0atPIPE 15-16 |\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"zo { |(v\xffa)| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22v\xff\x00\x22)])]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22v\xff\x00\x22 expression=7-9)] begin=6-7 end=9-10 expression=6-10)] expression=5-11 begin=5-6 end=10-11) begin=3-4 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atLPAREN 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atRPAREN 9-10 )\x0atPIPE 10-11 |\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"zo { |(v\xffa, x\xffa)| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22v\xff\x00\x22) (arg name=\x22x\xff\x01\x22)])]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (arg name=\x22x\xff\x01\x22 expression=11-13)] begin=6-7 end=13-14 expression=6-14)] expression=5-15 begin=5-6 end=14-15) begin=3-4 end=16-17 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atLPAREN 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 x\xff\x01\x0atRPAREN 13-14 )\x0atPIPE 14-15 |\x0atRCURLY 16-17 }\x0aEOF 17-17 " },
    Rec { t: b"zo { |(v\xffa, x\xffa), yo| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(mlhs items=[(arg name=\x22v\xff\x00\x22) (arg name=\x22x\xff\x01\x22)]) (arg name=\x22yo\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(mlhs items=[(arg name=\x22v\xff\x00\x22 expression=7-9) (arg name=\x22x\xff\x01\x22 expression=11-13)] begin=6-7 end=13-14 expression=6-14) (arg name=\x22yo\x22 expression=16-18)] expression=5-19 begin=5-6 end=18-19) begin=3-4 end=20-21 expression=0-21)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atLPAREN 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 x\xff\x01\x0atRPAREN 13-14 )\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-18 yo\x0atPIPE 18-19 |\x0atRCURLY 20-21 }\x0aEOF 21-21 " },
    Rec { t: b"zo { |v\xffa, (x\xffa, yo)| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(arg name=\x22v\xff\x00\x22) (mlhs items=[(arg name=\x22x\xff\x01\x22) (arg name=\x22yo\x22)])]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22v\xff\x00\x22 expression=6-8) (mlhs items=[(arg name=\x22x\xff\x01\x22 expression=11-13) (arg name=\x22yo\x22 expression=15-17)] begin=10-11 end=17-18 expression=10-18)] expression=5-19 begin=5-6 end=18-19) begin=3-4 end=20-21 expression=0-21)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 v\xff\x00\x0atCOMMA 8-9 ,\x0atLPAREN 10-11 (\x0atIDENTIFIER 11-13 x\xff\x01\x0atCOMMA 13-14 ,\x0atIDENTIFIER 15-17 yo\x0atRPAREN 17-18 )\x0atPIPE 18-19 |\x0atRCURLY 20-21 }\x0aEOF 21-21 " },
    Rec { t: b"zo { |(v\xffa, *)| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22v\xff\x00\x22) (restarg)])]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (restarg operator=11-12 expression=11-12)] begin=6-7 end=12-13 expression=6-13)] expression=5-14 begin=5-6 end=13-14) begin=3-4 end=15-16 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atLPAREN 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atSTAR 11-12 *\x0atRPAREN 12-13 )\x0atPIPE 13-14 |\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"zo { |(*v\xffa)| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(procarg0 args=[(restarg name=\x22v\xff\x00\x22)])]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(restarg name=\x22v\xff\x00\x22 operator=7-8 name=8-10 expression=7-10)] begin=6-7 end=10-11 expression=6-11)] expression=5-12 begin=5-6 end=11-12) begin=3-4 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atLPAREN 6-7 (\x0atSTAR 7-8 *\x0atIDENTIFIER 8-10 v\xff\x00\x0atRPAREN 10-11 )\x0atPIPE 11-12 |\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"zo { |(*)| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(procarg0 args=[(restarg)])]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(restarg operator=7-8 expression=7-8)] begin=6-7 end=8-9 expression=6-9)] expression=5-10 begin=5-6 end=9-10) begin=3-4 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atLPAREN 6-7 (\x0atSTAR 7-8 *\x0atRPAREN 8-9 )\x0atPIPE 9-10 |\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"zo { |(*, v\xffa)| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(procarg0 args=[(restarg) (arg name=\x22v\xff\x00\x22)])]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(restarg operator=7-8 expression=7-8) (arg name=\x22v\xff\x00\x22 expression=10-12)] begin=6-7 end=12-13 expression=6-13)] expression=5-14 begin=5-6 end=13-14) begin=3-4 end=15-16 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atLPAREN 6-7 (\x0atSTAR 7-8 *\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 v\xff\x00\x0atRPAREN 12-13 )\x0atPIPE 13-14 |\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"zo { |(v\xffa, *x\xffa, yo)| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22v\xff\x00\x22) (restarg name=\x22x\xff\x01\x22) (arg name=\x22yo\x22)])]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (restarg name=\x22x\xff\x01\x22 operator=11-12 name=12-14 expression=11-14) (arg name=\x22yo\x22 expression=16-18)] begin=6-7 end=18-19 expression=6-19)] expression=5-20 begin=5-6 end=19-20) begin=3-4 end=21-22 expression=0-22)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atLPAREN 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atSTAR 11-12 *\x0atIDENTIFIER 12-14 x\xff\x01\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-18 yo\x0atRPAREN 18-19 )\x0atPIPE 19-20 |\x0atRCURLY 21-22 }\x0aEOF 22-22 " },
    Rec { t: b"zo { |((v\xffa))| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(procarg0 args=[(mlhs items=[(arg name=\x22v\xff\x00\x22)])])]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(mlhs items=[(arg name=\x22v\xff\x00\x22 expression=8-10)] begin=7-8 end=10-11 expression=7-11)] begin=6-7 end=11-12 expression=6-12)] expression=5-13 begin=5-6 end=12-13) begin=3-4 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atLPAREN 6-7 (\x0atLPAREN 7-8 (\x0atIDENTIFIER 8-10 v\xff\x00\x0atRPAREN 10-11 )\x0atRPAREN 11-12 )\x0atPIPE 12-13 |\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"zo { |((v\xffa, x\xffa), yo)| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(procarg0 args=[(mlhs items=[(arg name=\x22v\xff\x00\x22) (arg name=\x22x\xff\x01\x22)]) (arg name=\x22yo\x22)])]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(mlhs items=[(arg name=\x22v\xff\x00\x22 expression=8-10) (arg name=\x22x\xff\x01\x22 expression=12-14)] begin=7-8 end=14-15 expression=7-15) (arg name=\x22yo\x22 expression=17-19)] begin=6-7 end=19-20 expression=6-20)] expression=5-21 begin=5-6 end=20-21) begin=3-4 end=22-23 expression=0-23)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atLPAREN 6-7 (\x0atLPAREN 7-8 (\x0atIDENTIFIER 8-10 v\xff\x00\x0atCOMMA 10-11 ,\x0atIDENTIFIER 12-14 x\xff\x01\x0atRPAREN 14-15 )\x0atCOMMA 15-16 ,\x0atIDENTIFIER 17-19 yo\x0atRPAREN 19-20 )\x0atPIPE 20-21 |\x0atRCURLY 22-23 }\x0aEOF 23-23 " },
    Rec { t: b"zo { |(v\xffa, (x\xffa, yo))| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22v\xff\x00\x22) (mlhs items=[(arg name=\x22x\xff\x01\x22) (arg name=\x22yo\x22)])])]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (mlhs items=[(arg name=\x22x\xff\x01\x22 expression=12-14) (arg name=\x22yo\x22 expression=16-18)] begin=11-12 end=18-19 expression=11-19)] begin=6-7 end=19-20 expression=6-20)] expression=5-21 begin=5-6 end=20-21) begin=3-4 end=22-23 expression=0-23)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atLPAREN 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atLPAREN 11-12 (\x0atIDENTIFIER 12-14 x\xff\x01\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-18 yo\x0atRPAREN 18-19 )\x0atRPAREN 19-20 )\x0atPIPE 20-21 |\x0atRCURLY 22-23 }\x0aEOF 23-23 " },
    Rec { t: b"zo { |v\xffa; x\xffa| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22v\xff\x00\x22)]) (shadowarg name=\x22x\xff\x01\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22v\xff\x00\x22 expression=6-8)] expression=6-8) (shadowarg name=\x22x\xff\x01\x22 expression=10-12)] expression=5-13 begin=5-6 end=12-13) begin=3-4 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 v\xff\x00\x0atSEMI 8-9 ;\x0atIDENTIFIER 10-12 x\xff\x01\x0atPIPE 12-13 |\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"zo { |v\xffa, x\xffa; yo, zo| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(arg name=\x22v\xff\x00\x22) (arg name=\x22x\xff\x01\x22) (shadowarg name=\x22yo\x22) (shadowarg name=\x22zo\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22v\xff\x00\x22 expression=6-8) (arg name=\x22x\xff\x01\x22 expression=10-12) (shadowarg name=\x22yo\x22 expression=14-16) (shadowarg name=\x22zo\x22 expression=18-20)] expression=5-21 begin=5-6 end=20-21) begin=3-4 end=22-23 expression=0-23)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 v\xff\x00\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 x\xff\x01\x0atSEMI 12-13 ;\x0atIDENTIFIER 14-16 yo\x0atCOMMA 16-17 ,\x0atIDENTIFIER 18-20 zo\x0atPIPE 20-21 |\x0atRCURLY 22-23 }\x0aEOF 23-23 " },
    Rec { t: b"zo { |; v\xffa| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(shadowarg name=\x22v\xff\x00\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(shadowarg name=\x22v\xff\x00\x22 expression=8-10)] expression=5-11 begin=5-6 end=10-11) begin=3-4 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 v\xff\x00\x0atPIPE 10-11 |\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"zo { |*v\xffa; x\xffa| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(restarg name=\x22v\xff\x00\x22) (shadowarg name=\x22x\xff\x01\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(restarg name=\x22v\xff\x00\x22 operator=6-7 name=7-9 expression=6-9) (shadowarg name=\x22x\xff\x01\x22 expression=11-13)] expression=5-14 begin=5-6 end=13-14) begin=3-4 end=15-16 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atSTAR 6-7 *\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 x\xff\x01\x0atPIPE 13-14 |\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"zo { |&v\xffa; x\xffa| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(blockarg name=\x22v\xff\x00\x22) (shadowarg name=\x22x\xff\x01\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(blockarg name=\x22v\xff\x00\x22 operator=6-7 name=7-9 expression=6-9) (shadowarg name=\x22x\xff\x01\x22 expression=11-13)] expression=5-14 begin=5-6 end=13-14) begin=3-4 end=15-16 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atAMPER 6-7 &\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 x\xff\x01\x0atPIPE 13-14 |\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"zo { |v\xffa:; x\xffa| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(kwarg name=\x22v\xff\x00\x22) (shadowarg name=\x22x\xff\x01\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(kwarg name=\x22v\xff\x00\x22 name=6-8 expression=6-9) (shadowarg name=\x22x\xff\x01\x22 expression=11-13)] expression=5-14 begin=5-6 end=13-14) begin=3-4 end=15-16 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atLABEL 6-9 v\xff\x00\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 x\xff\x01\x0atPIPE 13-14 |\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"zo { |v\xffa, (x\xffa, *yo), zo = \xffd, *ko, jo, ho:, go: \xffd, **fo, &eo| }", shape: b"(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(arg name=\x22v\xff\x00\x22) (mlhs items=[(arg name=\x22x\xff\x01\x22) (restarg name=\x22yo\x22)]) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22)) (restarg name=\x22ko\x22) (arg name=\x22jo\x22) (kwarg name=\x22ho\x22) (kwoptarg name=\x22go\x22 default=(int value=\x22\xff\x03\x22)) (kwrestarg name=\x22fo\x22) (blockarg name=\x22eo\x22)]))", full: b"(block call=(send method_name=\x22zo\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22v\xff\x00\x22 expression=6-8) (mlhs items=[(arg name=\x22x\xff\x01\x22 expression=11-13) (restarg name=\x22yo\x22 operator=15-16 name=16-18 expression=15-18)] begin=10-11 end=18-19 expression=10-19) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22 expression=26-27) name=21-23 operator=24-25 expression=21-27) (restarg name=\x22ko\x22 operator=29-30 name=30-32 expression=29-32) (arg name=\x22jo\x22 expression=34-36) (kwarg name=\x22ho\x22 name=38-40 expression=38-41) (kwoptarg name=\x22go\x22 default=(int value=\x22\xff\x03\x22 expression=47-48) name=43-45 expression=43-48) (kwrestarg name=\x22fo\x22 operator=50-52 name=52-54 expression=50-54) (blockarg name=\x22eo\x22 operator=56-57 name=57-59 expression=56-59)] expression=5-60 begin=5-6 end=59-60) begin=3-4 end=61-62 expression=0-62)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 zo\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 v\xff\x00\x0atCOMMA 8-9 ,\x0atLPAREN 10-11 (\x0atIDENTIFIER 11-13 x\xff\x01\x0atCOMMA 13-14 ,\x0atSTAR 15-16 *\x0atIDENTIFIER 16-18 yo\x0atRPAREN 18-19 )\x0atCOMMA 19-20 ,\x0atIDENTIFIER 21-23 zo\x0atEQL 24-25 =\x0atINTEGER 26-27 \xff\x02\x0atCOMMA 27-28 ,\x0atSTAR 29-30 *\x0atIDENTIFIER 30-32 ko\x0atCOMMA 32-33 ,\x0atIDENTIFIER 34-36 jo\x0atCOMMA 36-37 ,\x0atLABEL 38-41 ho\x0atCOMMA 41-42 ,\x0atLABEL 43-46 go\x0atINTEGER 47-48 \xff\x03\x0atCOMMA 48-49 ,\x0atDSTAR 50-52 **\x0atIDENTIFIER 52-54 fo\x0atCOMMA 54-55 ,\x0atAMPER 56-57 &\x0atIDENTIFIER 57-59 eo\x0atPIPE 59-60 |\x0atRCURLY 61-62 }\x0aEOF 62-62 " },
    Rec { t: b"def zo(v\xffa) end", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9)] expression=6-10 begin=6-7 end=9-10) keyword=0-3 name=4-6 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atRPAREN 9-10 )\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def zo v\xffa\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9)] expression=7-9) keyword=0-3 name=4-6 end=10-13 expression=0-13)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atIDENTIFIER 7-9 v\xff\x00\x0atNL 9-10 \x0a\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"def zo(v\xffa) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22)]) body=(int value=\x22\xff\x01\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9)] expression=6-10 begin=6-7 end=9-10) body=(int value=\x22\xff\x01\x22 expression=13-14) keyword=0-3 name=4-6 assignment=11-12 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atRPAREN 9-10 )\x0atEQL 11-12 =\x0atINTEGER 13-14 \xff\x01\x0aEOF 14-14 " },
    Rec { t: b"def self.zo(v\xffa); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=12-14)] expression=11-15 begin=11-12 end=14-15) keyword=0-3 operator=8-9 name=9-11 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atIDENTIFIER 12-14 v\xff\x00\x0atRPAREN 14-15 )\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"def zo(v\xffa, x\xffa) end", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (arg name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (arg name=\x22x\xff\x01\x22 expression=11-13)] expression=6-14 begin=6-7 end=13-14) keyword=0-3 name=4-6 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 x\xff\x01\x0atRPAREN 13-14 )\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"def zo v\xffa, x\xffa\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (arg name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (arg name=\x22x\xff\x01\x22 expression=11-13)] expression=7-13) keyword=0-3 name=4-6 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 x\xff\x01\x0atNL 13-14 \x0a\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"def zo(v\xffa, x\xffa) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (arg name=\x22x\xff\x01\x22)]) body=(int value=\x22\xff\x02\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (arg name=\x22x\xff\x01\x22 expression=11-13)] expression=6-14 begin=6-7 end=13-14) body=(int value=\x22\xff\x02\x22 expression=17-18) keyword=0-3 name=4-6 assignment=15-16 expression=0-18)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 x\xff\x01\x0atRPAREN 13-14 )\x0atEQL 15-16 =\x0atINTEGER 17-18 \xff\x02\x0aEOF 18-18 " },
    Rec { t: b"def self.zo(v\xffa, x\xffa); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (arg name=\x22x\xff\x01\x22)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=12-14) (arg name=\x22x\xff\x01\x22 expression=16-18)] expression=11-19 begin=11-12 end=18-19) keyword=0-3 operator=8-9 name=9-11 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atIDENTIFIER 12-14 v\xff\x00\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-18 x\xff\x01\x0atRPAREN 18-19 )\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"def zo(*) end", shape: b"(def name=\x22zo\x22 args=(args args=[(restarg)]))", full: b"(def name=\x22zo\x22 args=(args args=[(restarg operator=7-8 expression=7-8)] expression=6-9 begin=6-7 end=8-9) keyword=0-3 name=4-6 end=10-13 expression=0-13)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atSTAR 7-8 *\x0atRPAREN 8-9 )\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"def zo(*) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(restarg)]) body=(int value=\x22\xff\x00\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(restarg operator=7-8 expression=7-8)] expression=6-9 begin=6-7 end=8-9) body=(int value=\x22\xff\x00\x22 expression=12-13) keyword=0-3 name=4-6 assignment=10-11 expression=0-13)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atSTAR 7-8 *\x0atRPAREN 8-9 )\x0atEQL 10-11 =\x0atINTEGER 12-13 \xff\x00\x0aEOF 13-13 " },
    Rec { t: b"def self.zo(*); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(restarg)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(restarg operator=12-13 expression=12-13)] expression=11-14 begin=11-12 end=13-14) keyword=0-3 operator=8-9 name=9-11 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atSTAR 12-13 *\x0atRPAREN 13-14 )\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"def zo(*v\xffa) end", shape: b"(def name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22 operator=7-8 name=8-10 expression=7-10)] expression=6-11 begin=6-7 end=10-11) keyword=0-3 name=4-6 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atSTAR 7-8 *\x0atIDENTIFIER 8-10 v\xff\x00\x0atRPAREN 10-11 )\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def zo *v\xffa\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22 operator=7-8 name=8-10 expression=7-10)] expression=7-10) keyword=0-3 name=4-6 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atSTAR2 7-8 *\x0atIDENTIFIER 8-10 v\xff\x00\x0atNL 10-11 \x0a\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def zo(*v\xffa) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22)]) body=(int value=\x22\xff\x01\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22 operator=7-8 name=8-10 expression=7-10)] expression=6-11 begin=6-7 end=10-11) body=(int value=\x22\xff\x01\x22 expression=14-15) keyword=0-3 name=4-6 assignment=12-13 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atSTAR 7-8 *\x0atIDENTIFIER 8-10 v\xff\x00\x0atRPAREN 10-11 )\x0atEQL 12-13 =\x0atINTEGER 14-15 \xff\x01\x0aEOF 15-15 " },
    Rec { t: b"def self.zo(*v\xffa); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22 operator=12-13 name=13-15 expression=12-15)] expression=11-16 begin=11-12 end=15-16) keyword=0-3 operator=8-9 name=9-11 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atSTAR 12-13 *\x0atIDENTIFIER 13-15 v\xff\x00\x0atRPAREN 15-16 )\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"def zo(**v\xffa) end", shape: b"(def name=\x22zo\x22 args=(args args=[(kwrestarg name=\x22v\xff\x00\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(kwrestarg name=\x22v\xff\x00\x22 operator=7-9 name=9-11 expression=7-11)] expression=6-12 begin=6-7 end=11-12) keyword=0-3 name=4-6 end=13-16 expression=0-16)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atDSTAR 7-9 **\x0atIDENTIFIER 9-11 v\xff\x00\x0atRPAREN 11-12 )\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"def zo **v\xffa\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(kwrestarg name=\x22v\xff\x00\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(kwrestarg name=\x22v\xff\x00\x22 operator=7-9 name=9-11 expression=7-11)] expression=7-11) keyword=0-3 name=4-6 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atPOW 7-9 **\x0atIDENTIFIER 9-11 v\xff\x00\x0atNL 11-12 \x0a\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def zo(**v\xffa) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(kwrestarg name=\x22v\xff\x00\x22)]) body=(int value=\x22\xff\x01\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(kwrestarg name=\x22v\xff\x00\x22 operator=7-9 name=9-11 expression=7-11)] expression=6-12 begin=6-7 end=11-12) body=(int value=\x22\xff\x01\x22 expression=15-16) keyword=0-3 name=4-6 assignment=13-14 expression=0-16)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atDSTAR 7-9 **\x0atIDENTIFIER 9-11 v\xff\x00\x0atRPAREN 11-12 )\x0atEQL 13-14 =\x0atINTEGER 15-16 \xff\x01\x0aEOF 16-16 " },
    Rec { t: b"def self.zo(**v\xffa); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(kwrestarg name=\x22v\xff\x00\x22)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(kwrestarg name=\x22v\xff\x00\x22 operator=12-14 name=14-16 expression=12-16)] expression=11-17 begin=11-12 end=16-17) keyword=0-3 operator=8-9 name=9-11 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atDSTAR 12-14 **\x0atIDENTIFIER 14-16 v\xff\x00\x0atRPAREN 16-17 )\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"def zo(**) end", shape: b"(def name=\x22zo\x22 args=(args args=[(kwrestarg)]))", full: b"(def name=\x22zo\x22 args=(args args=[(kwrestarg operator=7-9 expression=7-9)] expression=6-10 begin=6-7 end=9-10) keyword=0-3 name=4-6 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atDSTAR 7-9 **\x0atRPAREN 9-10 )\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def zo(**) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(kwrestarg)]) body=(int value=\x22\xff\x00\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(kwrestarg operator=7-9 expression=7-9)] expression=6-10 begin=6-7 end=9-10) body=(int value=\x22\xff\x00\x22 expression=13-14) keyword=0-3 name=4-6 assignment=11-12 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atDSTAR 7-9 **\x0atRPAREN 9-10 )\x0atEQL 11-12 =\x0atINTEGER 13-14 \xff\x00\x0aEOF 14-14 " },
    Rec { t: b"def self.zo(**); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(kwrestarg)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(kwrestarg operator=12-14 expression=12-14)] expression=11-15 begin=11-12 end=14-15) keyword=0-3 operator=8-9 name=9-11 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atDSTAR 12-14 **\x0atRPAREN 14-15 )\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"def zo(&v\xffa) end", shape: b"(def name=\x22zo\x22 args=(args args=[(blockarg name=\x22v\xff\x00\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(blockarg name=\x22v\xff\x00\x22 operator=7-8 name=8-10 expression=7-10)] expression=6-11 begin=6-7 end=10-11) keyword=0-3 name=4-6 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atAMPER 7-8 &\x0atIDENTIFIER 8-10 v\xff\x00\x0atRPAREN 10-11 )\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def zo &v\xffa\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(blockarg name=\x22v\xff\x00\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(blockarg name=\x22v\xff\x00\x22 operator=7-8 name=8-10 expression=7-10)] expression=7-10) keyword=0-3 name=4-6 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atAMPER2 7-8 &\x0atIDENTIFIER 8-10 v\xff\x00\x0atNL 10-11 \x0a\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def zo(&v\xffa) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(blockarg name=\x22v\xff\x00\x22)]) body=(int value=\x22\xff\x01\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(blockarg name=\x22v\xff\x00\x22 operator=7-8 name=8-10 expression=7-10)] expression=6-11 begin=6-7 end=10-11) body=(int value=\x22\xff\x01\x22 expression=14-15) keyword=0-3 name=4-6 assignment=12-13 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atAMPER 7-8 &\x0atIDENTIFIER 8-10 v\xff\x00\x0atRPAREN 10-11 )\x0atEQL 12-13 =\x0atINTEGER 14-15 \xff\x01\x0aEOF 15-15 " },
    Rec { t: b"def self.zo(&v\xffa); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(blockarg name=\x22v\xff\x00\x22)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(blockarg name=\x22v\xff\x00\x22 operator=12-13 name=13-15 expression=12-15)] expression=11-16 begin=11-12 end=15-16) keyword=0-3 operator=8-9 name=9-11 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atAMPER 12-13 &\x0atIDENTIFIER 13-15 v\xff\x00\x0atRPAREN 15-16 )\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"def zo(&) end", shape: b"(def name=\x22zo\x22 args=(args args=[(blockarg)]))", full: b"(def name=\x22zo\x22 args=(args args=[(blockarg operator=7-8 expression=7-8)] expression=6-9 begin=6-7 end=8-9) keyword=0-3 name=4-6 end=10-13 expression=0-13)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atAMPER 7-8 &\x0atRPAREN 8-9 )\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"def zo(&) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(blockarg)]) body=(int value=\x22\xff\x00\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(blockarg operator=7-8 expression=7-8)] expression=6-9 begin=6-7 end=8-9) body=(int value=\x22\xff\x00\x22 expression=12-13) keyword=0-3 name=4-6 assignment=10-11 expression=0-13)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atAMPER 7-8 &\x0atRPAREN 8-9 )\x0atEQL 10-11 =\x0atINTEGER 12-13 \xff\x00\x0aEOF 13-13 " },
    Rec { t: b"def self.zo(&); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(blockarg)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(blockarg operator=12-13 expression=12-13)] expression=11-14 begin=11-12 end=13-14) keyword=0-3 operator=8-9 name=9-11 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atAMPER 12-13 &\x0atRPAREN 13-14 )\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"def zo(...) end", shape: b"(def name=\x22zo\x22 args=(args args=[(forward_arg)]))", full: b"(def name=\x22zo\x22 args=(args args=[(forward_arg expression=7-10)] expression=6-11 begin=6-7 end=10-11) keyword=0-3 name=4-6 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atBDOT3 7-10 ...\x0atRPAREN 10-11 )\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def zo(...) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(forward_arg)]) body=(int value=\x22\xff\x00\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(forward_arg expression=7-10)] expression=6-11 begin=6-7 end=10-11) body=(int value=\x22\xff\x00\x22 expression=14-15) keyword=0-3 name=4-6 assignment=12-13 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atBDOT3 7-10 ...\x0atRPAREN 10-11 )\x0atEQL 12-13 =\x0atINTEGER 14-15 \xff\x00\x0aEOF 15-15 " },
    Rec { t: b"def self.zo(...); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(forward_arg)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(forward_arg expression=12-15)] expression=11-16 begin=11-12 end=15-16) keyword=0-3 operator=8-9 name=9-11 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atBDOT3 12-15 ...\x0atRPAREN 15-16 )\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"def zo(v\xffa, ...) end", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (forward_arg)]))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (forward_arg expression=11-14)] expression=6-15 begin=6-7 end=14-15) keyword=0-3 name=4-6 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atBDOT3 11-14 ...\x0atRPAREN 14-15 )\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"def zo(v\xffa, ...) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (forward_arg)]) body=(int value=\x22\xff\x01\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (forward_arg expression=11-14)] expression=6-15 begin=6-7 end=14-15) body=(int value=\x22\xff\x01\x22 expression=18-19) keyword=0-3 name=4-6 assignment=16-17 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atBDOT3 11-14 ...\x0atRPAREN 14-15 )\x0atEQL 16-17 =\x0atINTEGER 18-19 \xff\x01\x0aEOF 19-19 " },
    Rec { t: b"def self.zo(v\xffa, ...); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (forward_arg)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=12-14) (forward_arg expression=16-19)] expression=11-20 begin=11-12 end=19-20) keyword=0-3 operator=8-9 name=9-11 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atIDENTIFIER 12-14 v\xff\x00\x0atCOMMA 14-15 ,\x0atBDOT3 16-19 ...\x0atRPAREN 19-20 )\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"def zo(v\xffa, *) end", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (restarg)]))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (restarg operator=11-12 expression=11-12)] expression=6-13 begin=6-7 end=12-13) keyword=0-3 name=4-6 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atSTAR 11-12 *\x0atRPAREN 12-13 )\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"def zo(v\xffa, *) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (restarg)]) body=(int value=\x22\xff\x01\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (restarg operator=11-12 expression=11-12)] expression=6-13 begin=6-7 end=12-13) body=(int value=\x22\xff\x01\x22 expression=16-17) keyword=0-3 name=4-6 assignment=14-15 expression=0-17)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atSTAR 11-12 *\x0atRPAREN 12-13 )\x0atEQL 14-15 =\x0atINTEGER 16-17 \xff\x01\x0aEOF 17-17 " },
    Rec { t: b"def self.zo(v\xffa, *); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (restarg)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=12-14) (restarg operator=16-17 expression=16-17)] expression=11-18 begin=11-12 end=17-18) keyword=0-3 operator=8-9 name=9-11 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atIDENTIFIER 12-14 v\xff\x00\x0atCOMMA 14-15 ,\x0atSTAR 16-17 *\x0atRPAREN 17-18 )\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"def zo(v\xffa, *x\xffa, yo) end", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (restarg name=\x22x\xff\x01\x22) (arg name=\x22yo\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (restarg name=\x22x\xff\x01\x22 operator=11-12 name=12-14 expression=11-14) (arg name=\x22yo\x22 expression=16-18)] expression=6-19 begin=6-7 end=18-19) keyword=0-3 name=4-6 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atSTAR 11-12 *\x0atIDENTIFIER 12-14 x\xff\x01\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-18 yo\x0atRPAREN 18-19 )\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"def zo v\xffa, *x\xffa, yo\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (restarg name=\x22x\xff\x01\x22) (arg name=\x22yo\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (restarg name=\x22x\xff\x01\x22 operator=11-12 name=12-14 expression=11-14) (arg name=\x22yo\x22 expression=16-18)] expression=7-18) keyword=0-3 name=4-6 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atSTAR 11-12 *\x0atIDENTIFIER 12-14 x\xff\x01\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-18 yo\x0atNL 18-19 \x0a\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"def zo(v\xffa, *x\xffa, yo) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (restarg name=\x22x\xff\x01\x22) (arg name=\x22yo\x22)]) body=(int value=\x22\xff\x02\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (restarg name=\x22x\xff\x01\x22 operator=11-12 name=12-14 expression=11-14) (arg name=\x22yo\x22 expression=16-18)] expression=6-19 begin=6-7 end=18-19) body=(int value=\x22\xff\x02\x22 expression=22-23) keyword=0-3 name=4-6 assignment=20-21 expression=0-23)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atSTAR 11-12 *\x0atIDENTIFIER 12-14 x\xff\x01\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-18 yo\x0atRPAREN 18-19 )\x0atEQL 20-21 =\x0atINTEGER 22-23 \xff\x02\x0aEOF 23-23 " },
    Rec { t: b"def self.zo(v\xffa, *x\xffa, yo); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (restarg name=\x22x\xff\x01\x22) (arg name=\x22yo\x22)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=12-14) (restarg name=\x22x\xff\x01\x22 operator=16-17 name=17-19 expression=16-19) (arg name=\x22yo\x22 expression=21-23)] expression=11-24 begin=11-12 end=23-24) keyword=0-3 operator=8-9 name=9-11 end=26-29 expression=0-29)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atIDENTIFIER 12-14 v\xff\x00\x0atCOMMA 14-15 ,\x0atSTAR 16-17 *\x0atIDENTIFIER 17-19 x\xff\x01\x0atCOMMA 19-20 ,\x0atIDENTIFIER 21-23 yo\x0atRPAREN 23-24 )\x0atSEMI 24-25 ;\x0akEND 26-29 end\x0aEOF 29-29 " },
    Rec { t: b"def zo(*v\xffa, x\xffa) end", shape: b"(def name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22) (arg name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22 operator=7-8 name=8-10 expression=7-10) (arg name=\x22x\xff\x01\x22 expression=12-14)] expression=6-15 begin=6-7 end=14-15) keyword=0-3 name=4-6 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atSTAR 7-8 *\x0atIDENTIFIER 8-10 v\xff\x00\x0atCOMMA 10-11 ,\x0atIDENTIFIER 12-14 x\xff\x01\x0atRPAREN 14-15 )\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"def zo *v\xffa, x\xffa\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22) (arg name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22 operator=7-8 name=8-10 expression=7-10) (arg name=\x22x\xff\x01\x22 expression=12-14)] expression=7-14) keyword=0-3 name=4-6 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atSTAR2 7-8 *\x0atIDENTIFIER 8-10 v\xff\x00\x0atCOMMA 10-11 ,\x0atIDENTIFIER 12-14 x\xff\x01\x0atNL 14-15 \x0a\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"def zo(*v\xffa, x\xffa) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22) (arg name=\x22x\xff\x01\x22)]) body=(int value=\x22\xff\x02\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22 operator=7-8 name=8-10 expression=7-10) (arg name=\x22x\xff\x01\x22 expression=12-14)] expression=6-15 begin=6-7 end=14-15) body=(int value=\x22\xff\x02\x22 expression=18-19) keyword=0-3 name=4-6 assignment=16-17 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atSTAR 7-8 *\x0atIDENTIFIER 8-10 v\xff\x00\x0atCOMMA 10-11 ,\x0atIDENTIFIER 12-14 x\xff\x01\x0atRPAREN 14-15 )\x0atEQL 16-17 =\x0atINTEGER 18-19 \xff\x02\x0aEOF 19-19 " },
    Rec { t: b"def self.zo(*v\xffa, x\xffa); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22) (arg name=\x22x\xff\x01\x22)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22 operator=12-13 name=13-15 expression=12-15) (arg name=\x22x\xff\x01\x22 expression=17-19)] expression=11-20 begin=11-12 end=19-20) keyword=0-3 operator=8-9 name=9-11 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atSTAR 12-13 *\x0atIDENTIFIER 13-15 v\xff\x00\x0atCOMMA 15-16 ,\x0atIDENTIFIER 17-19 x\xff\x01\x0atRPAREN 19-20 )\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"def zo(v\xffa = \xffd) end", shape: b"(def name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22))]))", full: b"(def name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=12-13) name=7-9 operator=10-11 expression=7-13)] expression=6-14 begin=6-7 end=13-14) keyword=0-3 name=4-6 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atEQL 10-11 =\x0atINTEGER 12-13 \xff\x01\x0atRPAREN 13-14 )\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"def zo v\xffa = \xffd\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22))]))", full: b"(def name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=12-13) name=7-9 operator=10-11 expression=7-13)] expression=7-13) keyword=0-3 name=4-6 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atIDENTIFIER 7-9 v\xff\x00\x0atEQL 10-11 =\x0atINTEGER 12-13 \xff\x01\x0atNL 13-14 \x0a\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"def zo(v\xffa = \xffd) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22))]) body=(int value=\x22\xff\x02\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=12-13) name=7-9 operator=10-11 expression=7-13)] expression=6-14 begin=6-7 end=13-14) body=(int value=\x22\xff\x02\x22 expression=17-18) keyword=0-3 name=4-6 assignment=15-16 expression=0-18)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atEQL 10-11 =\x0atINTEGER 12-13 \xff\x01\x0atRPAREN 13-14 )\x0atEQL 15-16 =\x0atINTEGER 17-18 \xff\x02\x0aEOF 18-18 " },
    Rec { t: b"def self.zo(v\xffa = \xffd); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22))]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=17-18) name=12-14 operator=15-16 expression=12-18)] expression=11-19 begin=11-12 end=18-19) keyword=0-3 operator=8-9 name=9-11 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atIDENTIFIER 12-14 v\xff\x00\x0atEQL 15-16 =\x0atINTEGER 17-18 \xff\x01\x0atRPAREN 18-19 )\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"def zo(v\xffa = \xffd, x\xffa) end", shape: b"(def name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22)) (arg name=\x22x\xff\x02\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=12-13) name=7-9 operator=10-11 expression=7-13) (arg name=\x22x\xff\x02\x22 expression=15-17)] expression=6-18 begin=6-7 end=17-18) keyword=0-3 name=4-6 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atEQL 10-11 =\x0atINTEGER 12-13 \xff\x01\x0atCOMMA 13-14 ,\x0atIDENTIFIER 15-17 x\xff\x02\x0atRPAREN 17-18 )\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"def zo v\xffa = \xffd, x\xffa\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22)) (arg name=\x22x\xff\x02\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=12-13) name=7-9 operator=10-11 expression=7-13) (arg name=\x22x\xff\x02\x22 expression=15-17)] expression=7-17) keyword=0-3 name=4-6 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atIDENTIFIER 7-9 v\xff\x00\x0atEQL 10-11 =\x0atINTEGER 12-13 \xff\x01\x0atCOMMA 13-14 ,\x0atIDENTIFIER 15-17 x\xff\x02\x0atNL 17-18 \x0a\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"def zo(v\xffa = \xffd, x\xffa) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22)) (arg name=\x22x\xff\x02\x22)]) body=(int value=\x22\xff\x03\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=12-13) name=7-9 operator=10-11 expression=7-13) (arg name=\x22x\xff\x02\x22 expression=15-17)] expression=6-18 begin=6-7 end=17-18) body=(int value=\x22\xff\x03\x22 expression=21-22) keyword=0-3 name=4-6 assignment=19-20 expression=0-22)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atEQL 10-11 =\x0atINTEGER 12-13 \xff\x01\x0atCOMMA 13-14 ,\x0atIDENTIFIER 15-17 x\xff\x02\x0atRPAREN 17-18 )\x0atEQL 19-20 =\x0atINTEGER 21-22 \xff\x03\x0aEOF 22-22 " },
    Rec { t: b"def self.zo(v\xffa = \xffd, x\xffa); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22)) (arg name=\x22x\xff\x02\x22)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=17-18) name=12-14 operator=15-16 expression=12-18) (arg name=\x22x\xff\x02\x22 expression=20-22)] expression=11-23 begin=11-12 end=22-23) keyword=0-3 operator=8-9 name=9-11 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atIDENTIFIER 12-14 v\xff\x00\x0atEQL 15-16 =\x0atINTEGER 17-18 \xff\x01\x0atCOMMA 18-19 ,\x0atIDENTIFIER 20-22 x\xff\x02\x0atRPAREN 22-23 )\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"def zo(v\xffa, x\xffa = \xffd, yo) end", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (arg name=\x22yo\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=16-17) name=11-13 operator=14-15 expression=11-17) (arg name=\x22yo\x22 expression=19-21)] expression=6-22 begin=6-7 end=21-22) keyword=0-3 name=4-6 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 x\xff\x01\x0atEQL 14-15 =\x0atINTEGER 16-17 \xff\x02\x0atCOMMA 17-18 ,\x0atIDENTIFIER 19-21 yo\x0atRPAREN 21-22 )\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"def zo v\xffa, x\xffa = \xffd, yo\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (arg name=\x22yo\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=16-17) name=11-13 operator=14-15 expression=11-17) (arg name=\x22yo\x22 expression=19-21)] expression=7-21) keyword=0-3 name=4-6 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 x\xff\x01\x0atEQL 14-15 =\x0atINTEGER 16-17 \xff\x02\x0atCOMMA 17-18 ,\x0atIDENTIFIER 19-21 yo\x0atNL 21-22 \x0a\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"def zo(v\xffa, x\xffa = \xffd, yo) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (arg name=\x22yo\x22)]) body=(int value=\x22\xff\x03\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=16-17) name=11-13 operator=14-15 expression=11-17) (arg name=\x22yo\x22 expression=19-21)] expression=6-22 begin=6-7 end=21-22) body=(int value=\x22\xff\x03\x22 expression=25-26) keyword=0-3 name=4-6 assignment=23-24 expression=0-26)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 x\xff\x01\x0atEQL 14-15 =\x0atINTEGER 16-17 \xff\x02\x0atCOMMA 17-18 ,\x0atIDENTIFIER 19-21 yo\x0atRPAREN 21-22 )\x0atEQL 23-24 =\x0atINTEGER 25-26 \xff\x03\x0aEOF 26-26 " },
    Rec { t: b"def self.zo(v\xffa, x\xffa = \xffd, yo); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (arg name=\x22yo\x22)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=12-14) (optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=21-22) name=16-18 operator=19-20 expression=16-22) (arg name=\x22yo\x22 expression=24-26)] expression=11-27 begin=11-12 end=26-27) keyword=0-3 operator=8-9 name=9-11 end=29-32 expression=0-32)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atIDENTIFIER 12-14 v\xff\x00\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-18 x\xff\x01\x0atEQL 19-20 =\x0atINTEGER 21-22 \xff\x02\x0atCOMMA 22-23 ,\x0atIDENTIFIER 24-26 yo\x0atRPAREN 26-27 )\x0atSEMI 27-28 ;\x0akEND 29-32 end\x0aEOF 32-32 " },
    Rec { t: b"def zo(v\xffa, x\xffa = \xffd, *yo, zo) end", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (restarg name=\x22yo\x22) (arg name=\x22zo\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=16-17) name=11-13 operator=14-15 expression=11-17) (restarg name=\x22yo\x22 operator=19-20 name=20-22 expression=19-22) (arg name=\x22zo\x22 expression=24-26)] expression=6-27 begin=6-7 end=26-27) keyword=0-3 name=4-6 end=28-31 expression=0-31)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 x\xff\x01\x0atEQL 14-15 =\x0atINTEGER 16-17 \xff\x02\x0atCOMMA 17-18 ,\x0atSTAR 19-20 *\x0atIDENTIFIER 20-22 yo\x0atCOMMA 22-23 ,\x0atIDENTIFIER 24-26 zo\x0atRPAREN 26-27 )\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"def zo v\xffa, x\xffa = \xffd, *yo, zo\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (restarg name=\x22yo\x22) (arg name=\x22zo\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=16-17) name=11-13 operator=14-15 expression=11-17) (restarg name=\x22yo\x22 operator=19-20 name=20-22 expression=19-22) (arg name=\x22zo\x22 expression=24-26)] expression=7-26) keyword=0-3 name=4-6 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 x\xff\x01\x0atEQL 14-15 =\x0atINTEGER 16-17 \xff\x02\x0atCOMMA 17-18 ,\x0atSTAR 19-20 *\x0atIDENTIFIER 20-22 yo\x0atCOMMA 22-23 ,\x0atIDENTIFIER 24-26 zo\x0atNL 26-27 \x0a\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"def zo(v\xffa, x\xffa = \xffd, *yo, zo) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (restarg name=\x22yo\x22) (arg name=\x22zo\x22)]) body=(int value=\x22\xff\x03\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=16-17) name=11-13 operator=14-15 expression=11-17) (restarg name=\x22yo\x22 operator=19-20 name=20-22 expression=19-22) (arg name=\x22zo\x22 expression=24-26)] expression=6-27 begin=6-7 end=26-27) body=(int value=\x22\xff\x03\x22 expression=30-31) keyword=0-3 name=4-6 assignment=28-29 expression=0-31)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 x\xff\x01\x0atEQL 14-15 =\x0atINTEGER 16-17 \xff\x02\x0atCOMMA 17-18 ,\x0atSTAR 19-20 *\x0atIDENTIFIER 20-22 yo\x0atCOMMA 22-23 ,\x0atIDENTIFIER 24-26 zo\x0atRPAREN 26-27 )\x0atEQL 28-29 =\x0atINTEGER 30-31 \xff\x03\x0aEOF 31-31 " },
    Rec { t: b"def self.zo(v\xffa, x\xffa = \xffd, *yo, zo); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (restarg name=\x22yo\x22) (arg name=\x22zo\x22)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=12-14) (optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=21-22) name=16-18 operator=19-20 expression=16-22) (restarg name=\x22yo\x22 operator=24-25 name=25-27 expression=24-27) (arg name=\x22zo\x22 expression=29-31)] expression=11-32 begin=11-12 end=31-32) keyword=0-3 operator=8-9 name=9-11 end=34-37 expression=0-37)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atIDENTIFIER 12-14 v\xff\x00\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-18 x\xff\x01\x0atEQL 19-20 =\x0atINTEGER 21-22 \xff\x02\x0atCOMMA 22-23 ,\x0atSTAR 24-25 *\x0atIDENTIFIER 25-27 yo\x0atCOMMA 27-28 ,\x0atIDENTIFIER 29-31 zo\x0atRPAREN 31-32 )\x0atSEMI 32-33 ;\x0akEND 34-37 end\x0aEOF 37-37 " },
    Rec { t: b"def zo(v\xffa = \xffd, *x\xffa, yo) end", shape: b"(def name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22)) (restarg name=\x22x\xff\x02\x22) (arg name=\x22yo\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=12-13) name=7-9 operator=10-11 expression=7-13) (restarg name=\x22x\xff\x02\x22 operator=15-16 name=16-18 expression=15-18) (arg name=\x22yo\x22 expression=20-22)] expression=6-23 begin=6-7 end=22-23) keyword=0-3 name=4-6 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atEQL 10-11 =\x0atINTEGER 12-13 \xff\x01\x0atCOMMA 13-14 ,\x0atSTAR 15-16 *\x0atIDENTIFIER 16-18 x\xff\x02\x0atCOMMA 18-19 ,\x0atIDENTIFIER 20-22 yo\x0atRPAREN 22-23 )\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"def zo v\xffa = \xffd, *x\xffa, yo\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22)) (restarg name=\x22x\xff\x02\x22) (arg name=\x22yo\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=12-13) name=7-9 operator=10-11 expression=7-13) (restarg name=\x22x\xff\x02\x22 operator=15-16 name=16-18 expression=15-18) (arg name=\x22yo\x22 expression=20-22)] expression=7-22) keyword=0-3 name=4-6 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atIDENTIFIER 7-9 v\xff\x00\x0atEQL 10-11 =\x0atINTEGER 12-13 \xff\x01\x0atCOMMA 13-14 ,\x0atSTAR 15-16 *\x0atIDENTIFIER 16-18 x\xff\x02\x0atCOMMA 18-19 ,\x0atIDENTIFIER 20-22 yo\x0atNL 22-23 \x0a\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"def zo(v\xffa = \xffd, *x\xffa, yo) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22)) (restarg name=\x22x\xff\x02\x22) (arg name=\x22yo\x22)]) body=(int value=\x22\xff\x03\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=12-13) name=7-9 operator=10-11 expression=7-13) (restarg name=\x22x\xff\x02\x22 operator=15-16 name=16-18 expression=15-18) (arg name=\x22yo\x22 expression=20-22)] expression=6-23 begin=6-7 end=22-23) body=(int value=\x22\xff\x03\x22 expression=26-27) keyword=0-3 name=4-6 assignment=24-25 expression=0-27)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atEQL 10-11 =\x0atINTEGER 12-13 \xff\x01\x0atCOMMA 13-14 ,\x0atSTAR 15-16 *\x0atIDENTIFIER 16-18 x\xff\x02\x0atCOMMA 18-19 ,\x0atIDENTIFIER 20-22 yo\x0atRPAREN 22-23 )\x0atEQL 24-25 =\x0atINTEGER 26-27 \xff\x03\x0aEOF 27-27 " },
    Rec { t: b"def self.zo(v\xffa = \xffd, *x\xffa, yo); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22)) (restarg name=\x22x\xff\x02\x22) (arg name=\x22yo\x22)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=17-18) name=12-14 operator=15-16 expression=12-18) (restarg name=\x22x\xff\x02\x22 operator=20-21 name=21-23 expression=20-23) (arg name=\x22yo\x22 expression=25-27)] expression=11-28 begin=11-12 end=27-28) keyword=0-3 operator=8-9 name=9-11 end=30-33 expression=0-33)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atIDENTIFIER 12-14 v\xff\x00\x0atEQL 15-16 =\x0atINTEGER 17-18 \xff\x01\x0atCOMMA 18-19 ,\x0atSTAR 20-21 *\x0atIDENTIFIER 21-23 x\xff\x02\x0atCOMMA 23-24 ,\x0atIDENTIFIER 25-27 yo\x0atRPAREN 27-28 )\x0atSEMI 28-29 ;\x0akEND 30-33 end\x0aEOF 33-33 " },
    Rec { t: b"def zo(v\xffa:) end", shape: b"(def name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22 name=7-9 expression=7-10)] expression=6-11 begin=6-7 end=10-11) keyword=0-3 name=4-6 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atLABEL 7-10 v\xff\x00\x0atRPAREN 10-11 )\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def zo v\xffa:\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22 name=7-9 expression=7-10)] expression=7-10) keyword=0-3 name=4-6 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLABEL 7-10 v\xff\x00\x0atNL 10-11 \x0a\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def zo(v\xffa:) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22)]) body=(int value=\x22\xff\x01\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22 name=7-9 expression=7-10)] expression=6-11 begin=6-7 end=10-11) body=(int value=\x22\xff\x01\x22 expression=14-15) keyword=0-3 name=4-6 assignment=12-13 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atLABEL 7-10 v\xff\x00\x0atRPAREN 10-11 )\x0atEQL 12-13 =\x0atINTEGER 14-15 \xff\x01\x0aEOF 15-15 " },
    Rec { t: b"def self.zo(v\xffa:); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22 name=12-14 expression=12-15)] expression=11-16 begin=11-12 end=15-16) keyword=0-3 operator=8-9 name=9-11 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atLABEL 12-15 v\xff\x00\x0atRPAREN 15-16 )\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"def zo(v\xffa: \xffd) end", shape: b"(def name=\x22zo\x22 args=(args args=[(kwoptarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22))]))", full: b"(def name=\x22zo\x22 args=(args args=[(kwoptarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=11-12) name=7-9 expression=7-12)] expression=6-13 begin=6-7 end=12-13) keyword=0-3 name=4-6 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atLABEL 7-10 v\xff\x00\x0atINTEGER 11-12 \xff\x01\x0atRPAREN 12-13 )\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"def zo v\xffa: \xffd\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(kwoptarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22))]))", full: b"(def name=\x22zo\x22 args=(args args=[(kwoptarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=11-12) name=7-9 expression=7-12)] expression=7-12) keyword=0-3 name=4-6 end=13-16 expression=0-16)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLABEL 7-10 v\xff\x00\x0atINTEGER 11-12 \xff\x01\x0atNL 12-13 \x0a\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"def zo(v\xffa: \xffd) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(kwoptarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22))]) body=(int value=\x22\xff\x02\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(kwoptarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=11-12) name=7-9 expression=7-12)] expression=6-13 begin=6-7 end=12-13) body=(int value=\x22\xff\x02\x22 expression=16-17) keyword=0-3 name=4-6 assignment=14-15 expression=0-17)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atLABEL 7-10 v\xff\x00\x0atINTEGER 11-12 \xff\x01\x0atRPAREN 12-13 )\x0atEQL 14-15 =\x0atINTEGER 16-17 \xff\x02\x0aEOF 17-17 " },
    Rec { t: b"def self.zo(v\xffa: \xffd); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(kwoptarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22))]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(kwoptarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=16-17) name=12-14 expression=12-17)] expression=11-18 begin=11-12 end=17-18) keyword=0-3 operator=8-9 name=9-11 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atLABEL 12-15 v\xff\x00\x0atINTEGER 16-17 \xff\x01\x0atRPAREN 17-18 )\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"def zo(v\xffa:, x\xffa:) end", shape: b"(def name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22) (kwarg name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22 name=7-9 expression=7-10) (kwarg name=\x22x\xff\x01\x22 name=12-14 expression=12-15)] expression=6-16 begin=6-7 end=15-16) keyword=0-3 name=4-6 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atLABEL 7-10 v\xff\x00\x0atCOMMA 10-11 ,\x0atLABEL 12-15 x\xff\x01\x0atRPAREN 15-16 )\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"def zo v\xffa:, x\xffa:\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22) (kwarg name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22 name=7-9 expression=7-10) (kwarg name=\x22x\xff\x01\x22 name=12-14 expression=12-15)] expression=7-15) keyword=0-3 name=4-6 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLABEL 7-10 v\xff\x00\x0atCOMMA 10-11 ,\x0atLABEL 12-15 x\xff\x01\x0atNL 15-16 \x0a\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"def zo(v\xffa:, x\xffa:) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22) (kwarg name=\x22x\xff\x01\x22)]) body=(int value=\x22\xff\x02\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22 name=7-9 expression=7-10) (kwarg name=\x22x\xff\x01\x22 name=12-14 expression=12-15)] expression=6-16 begin=6-7 end=15-16) body=(int value=\x22\xff\x02\x22 expression=19-20) keyword=0-3 name=4-6 assignment=17-18 expression=0-20)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atLABEL 7-10 v\xff\x00\x0atCOMMA 10-11 ,\x0atLABEL 12-15 x\xff\x01\x0atRPAREN 15-16 )\x0atEQL 17-18 =\x0atINTEGER 19-20 \xff\x02\x0aEOF 20-20 " },
    Rec { t: b"def self.zo(v\xffa:, x\xffa:); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22) (kwarg name=\x22x\xff\x01\x22)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22 name=12-14 expression=12-15) (kwarg name=\x22x\xff\x01\x22 name=17-19 expression=17-20)] expression=11-21 begin=11-12 end=20-21) keyword=0-3 operator=8-9 name=9-11 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atLABEL 12-15 v\xff\x00\x0atCOMMA 15-16 ,\x0atLABEL 17-20 x\xff\x01\x0atRPAREN 20-21 )\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"def zo(v\xffa, x\xffa:) end", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (kwarg name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (kwarg name=\x22x\xff\x01\x22 name=11-13 expression=11-14)] expression=6-15 begin=6-7 end=14-15) keyword=0-3 name=4-6 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atLABEL 11-14 x\xff\x01\x0atRPAREN 14-15 )\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"def zo v\xffa, x\xffa:\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (kwarg name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (kwarg name=\x22x\xff\x01\x22 name=11-13 expression=11-14)] expression=7-14) keyword=0-3 name=4-6 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atLABEL 11-14 x\xff\x01\x0atNL 14-15 \x0a\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"def zo(v\xffa, x\xffa:) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (kwarg name=\x22x\xff\x01\x22)]) body=(int value=\x22\xff\x02\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (kwarg name=\x22x\xff\x01\x22 name=11-13 expression=11-14)] expression=6-15 begin=6-7 end=14-15) body=(int value=\x22\xff\x02\x22 expression=18-19) keyword=0-3 name=4-6 assignment=16-17 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atLABEL 11-14 x\xff\x01\x0atRPAREN 14-15 )\x0atEQL 16-17 =\x0atINTEGER 18-19 \xff\x02\x0aEOF 19-19 " },
    Rec { t: b"def self.zo(v\xffa, x\xffa:); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (kwarg name=\x22x\xff\x01\x22)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=12-14) (kwarg name=\x22x\xff\x01\x22 name=16-18 expression=16-19)] expression=11-20 begin=11-12 end=19-20) keyword=0-3 operator=8-9 name=9-11 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atIDENTIFIER 12-14 v\xff\x00\x0atCOMMA 14-15 ,\x0atLABEL 16-19 x\xff\x01\x0atRPAREN 19-20 )\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"def zo(v\xffa = \xffd, x\xffa: \xffd) end", shape: b"(def name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22)) (kwoptarg name=\x22x\xff\x02\x22 default=(int value=\x22\xff\x03\x22))]))", full: b"(def name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=12-13) name=7-9 operator=10-11 expression=7-13) (kwoptarg name=\x22x\xff\x02\x22 default=(int value=\x22\xff\x03\x22 expression=19-20) name=15-17 expression=15-20)] expression=6-21 begin=6-7 end=20-21) keyword=0-3 name=4-6 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atEQL 10-11 =\x0atINTEGER 12-13 \xff\x01\x0atCOMMA 13-14 ,\x0atLABEL 15-18 x\xff\x02\x0atINTEGER 19-20 \xff\x03\x0atRPAREN 20-21 )\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"def zo v\xffa = \xffd, x\xffa: \xffd\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22)) (kwoptarg name=\x22x\xff\x02\x22 default=(int value=\x22\xff\x03\x22))]))", full: b"(def name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=12-13) name=7-9 operator=10-11 expression=7-13) (kwoptarg name=\x22x\xff\x02\x22 default=(int value=\x22\xff\x03\x22 expression=19-20) name=15-17 expression=15-20)] expression=7-20) keyword=0-3 name=4-6 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atIDENTIFIER 7-9 v\xff\x00\x0atEQL 10-11 =\x0atINTEGER 12-13 \xff\x01\x0atCOMMA 13-14 ,\x0atLABEL 15-18 x\xff\x02\x0atINTEGER 19-20 \xff\x03\x0atNL 20-21 \x0a\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"def zo(v\xffa = \xffd, x\xffa: \xffd) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22)) (kwoptarg name=\x22x\xff\x02\x22 default=(int value=\x22\xff\x03\x22))]) body=(int value=\x22\xff\x04\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=12-13) name=7-9 operator=10-11 expression=7-13) (kwoptarg name=\x22x\xff\x02\x22 default=(int value=\x22\xff\x03\x22 expression=19-20) name=15-17 expression=15-20)] expression=6-21 begin=6-7 end=20-21) body=(int value=\x22\xff\x04\x22 expression=24-25) keyword=0-3 name=4-6 assignment=22-23 expression=0-25)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atEQL 10-11 =\x0atINTEGER 12-13 \xff\x01\x0atCOMMA 13-14 ,\x0atLABEL 15-18 x\xff\x02\x0atINTEGER 19-20 \xff\x03\x0atRPAREN 20-21 )\x0atEQL 22-23 =\x0atINTEGER 24-25 \xff\x04\x0aEOF 25-25 " },
    Rec { t: b"def self.zo(v\xffa = \xffd, x\xffa: \xffd); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22)) (kwoptarg name=\x22x\xff\x02\x22 default=(int value=\x22\xff\x03\x22))]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(optarg name=\x22v\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=17-18) name=12-14 operator=15-16 expression=12-18) (kwoptarg name=\x22x\xff\x02\x22 default=(int value=\x22\xff\x03\x22 expression=24-25) name=20-22 expression=20-25)] expression=11-26 begin=11-12 end=25-26) keyword=0-3 operator=8-9 name=9-11 end=28-31 expression=0-31)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atIDENTIFIER 12-14 v\xff\x00\x0atEQL 15-16 =\x0atINTEGER 17-18 \xff\x01\x0atCOMMA 18-19 ,\x0atLABEL 20-23 x\xff\x02\x0atINTEGER 24-25 \xff\x03\x0atRPAREN 25-26 )\x0atSEMI 26-27 ;\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"def zo(*v\xffa, x\xffa: \xffd) end", shape: b"(def name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22) (kwoptarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22))]))", full: b"(def name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22 operator=7-8 name=8-10 expression=7-10) (kwoptarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=16-17) name=12-14 expression=12-17)] expression=6-18 begin=6-7 end=17-18) keyword=0-3 name=4-6 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atSTAR 7-8 *\x0atIDENTIFIER 8-10 v\xff\x00\x0atCOMMA 10-11 ,\x0atLABEL 12-15 x\xff\x01\x0atINTEGER 16-17 \xff\x02\x0atRPAREN 17-18 )\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"def zo *v\xffa, x\xffa: \xffd\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22) (kwoptarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22))]))", full: b"(def name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22 operator=7-8 name=8-10 expression=7-10) (kwoptarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=16-17) name=12-14 expression=12-17)] expression=7-17) keyword=0-3 name=4-6 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atSTAR2 7-8 *\x0atIDENTIFIER 8-10 v\xff\x00\x0atCOMMA 10-11 ,\x0atLABEL 12-15 x\xff\x01\x0atINTEGER 16-17 \xff\x02\x0atNL 17-18 \x0a\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"def zo(*v\xffa, x\xffa: \xffd) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22) (kwoptarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22))]) body=(int value=\x22\xff\x03\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22 operator=7-8 name=8-10 expression=7-10) (kwoptarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=16-17) name=12-14 expression=12-17)] expression=6-18 begin=6-7 end=17-18) body=(int value=\x22\xff\x03\x22 expression=21-22) keyword=0-3 name=4-6 assignment=19-20 expression=0-22)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atSTAR 7-8 *\x0atIDENTIFIER 8-10 v\xff\x00\x0atCOMMA 10-11 ,\x0atLABEL 12-15 x\xff\x01\x0atINTEGER 16-17 \xff\x02\x0atRPAREN 17-18 )\x0atEQL 19-20 =\x0atINTEGER 21-22 \xff\x03\x0aEOF 22-22 " },
    Rec { t: b"def self.zo(*v\xffa, x\xffa: \xffd); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22) (kwoptarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22))]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22 operator=12-13 name=13-15 expression=12-15) (kwoptarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=21-22) name=17-19 expression=17-22)] expression=11-23 begin=11-12 end=22-23) keyword=0-3 operator=8-9 name=9-11 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atSTAR 12-13 *\x0atIDENTIFIER 13-15 v\xff\x00\x0atCOMMA 15-16 ,\x0atLABEL 17-20 x\xff\x01\x0atINTEGER 21-22 \xff\x02\x0atRPAREN 22-23 )\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"def zo(v\xffa:, **x\xffa) end", shape: b"(def name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22) (kwrestarg name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22 name=7-9 expression=7-10) (kwrestarg name=\x22x\xff\x01\x22 operator=12-14 name=14-16 expression=12-16)] expression=6-17 begin=6-7 end=16-17) keyword=0-3 name=4-6 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atLABEL 7-10 v\xff\x00\x0atCOMMA 10-11 ,\x0atDSTAR 12-14 **\x0atIDENTIFIER 14-16 x\xff\x01\x0atRPAREN 16-17 )\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"def zo v\xffa:, **x\xffa\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22) (kwrestarg name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22 name=7-9 expression=7-10) (kwrestarg name=\x22x\xff\x01\x22 operator=12-14 name=14-16 expression=12-16)] expression=7-16) keyword=0-3 name=4-6 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLABEL 7-10 v\xff\x00\x0atCOMMA 10-11 ,\x0atDSTAR 12-14 **\x0atIDENTIFIER 14-16 x\xff\x01\x0atNL 16-17 \x0a\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"def zo(v\xffa:, **x\xffa) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22) (kwrestarg name=\x22x\xff\x01\x22)]) body=(int value=\x22\xff\x02\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22 name=7-9 expression=7-10) (kwrestarg name=\x22x\xff\x01\x22 operator=12-14 name=14-16 expression=12-16)] expression=6-17 begin=6-7 end=16-17) body=(int value=\x22\xff\x02\x22 expression=20-21) keyword=0-3 name=4-6 assignment=18-19 expression=0-21)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atLABEL 7-10 v\xff\x00\x0atCOMMA 10-11 ,\x0atDSTAR 12-14 **\x0atIDENTIFIER 14-16 x\xff\x01\x0atRPAREN 16-17 )\x0atEQL 18-19 =\x0atINTEGER 20-21 \xff\x02\x0aEOF 21-21 " },
    Rec { t: b"def self.zo(v\xffa:, **x\xffa); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22) (kwrestarg name=\x22x\xff\x01\x22)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22 name=12-14 expression=12-15) (kwrestarg name=\x22x\xff\x01\x22 operator=17-19 name=19-21 expression=17-21)] expression=11-22 begin=11-12 end=21-22) keyword=0-3 operator=8-9 name=9-11 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atLABEL 12-15 v\xff\x00\x0atCOMMA 15-16 ,\x0atDSTAR 17-19 **\x0atIDENTIFIER 19-21 x\xff\x01\x0atRPAREN 21-22 )\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"def zo(**nil) end", shape: b"(def name=\x22zo\x22 args=(args args=[(kwnilarg)]))", full: b"(def name=\x22zo\x22 args=(args args=[(kwnilarg name=9-12 expression=7-12)] expression=6-13 begin=6-7 end=12-13) keyword=0-3 name=4-6 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atDSTAR 7-9 **\x0akNIL 9-12 nil\x0atRPAREN 12-13 )\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"def zo **nil\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(kwnilarg)]))", full: b"(def name=\x22zo\x22 args=(args args=[(kwnilarg name=9-12 expression=7-12)] expression=7-12) keyword=0-3 name=4-6 end=13-16 expression=0-16)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atPOW 7-9 **\x0akNIL 9-12 nil\x0atNL 12-13 \x0a\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"def zo(**nil) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(kwnilarg)]) body=(int value=\x22\xff\x00\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(kwnilarg name=9-12 expression=7-12)] expression=6-13 begin=6-7 end=12-13) body=(int value=\x22\xff\x00\x22 expression=16-17) keyword=0-3 name=4-6 assignment=14-15 expression=0-17)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atDSTAR 7-9 **\x0akNIL 9-12 nil\x0atRPAREN 12-13 )\x0atEQL 14-15 =\x0atINTEGER 16-17 \xff\x00\x0aEOF 17-17 " },
    Rec { t: b"def self.zo(**nil); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(kwnilarg)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(kwnilarg name=14-17 expression=12-17)] expression=11-18 begin=11-12 end=17-18) keyword=0-3 operator=8-9 name=9-11 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atDSTAR 12-14 **\x0akNIL 14-17 nil\x0atRPAREN 17-18 )\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"def zo(v\xffa, **nil) end", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (kwnilarg)]))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (kwnilarg name=13-16 expression=11-16)] expression=6-17 begin=6-7 end=16-17) keyword=0-3 name=4-6 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atDSTAR 11-13 **\x0akNIL 13-16 nil\x0atRPAREN 16-17 )\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"def zo v\xffa, **nil\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (kwnilarg)]))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (kwnilarg name=13-16 expression=11-16)] expression=7-16) keyword=0-3 name=4-6 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atDSTAR 11-13 **\x0akNIL 13-16 nil\x0atNL 16-17 \x0a\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"def zo(v\xffa, **nil) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (kwnilarg)]) body=(int value=\x22\xff\x01\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (kwnilarg name=13-16 expression=11-16)] expression=6-17 begin=6-7 end=16-17) body=(int value=\x22\xff\x01\x22 expression=20-21) keyword=0-3 name=4-6 assignment=18-19 expression=0-21)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atDSTAR 11-13 **\x0akNIL 13-16 nil\x0atRPAREN 16-17 )\x0atEQL 18-19 =\x0atINTEGER 20-21 \xff\x01\x0aEOF 21-21 " },
    Rec { t: b"def self.zo(v\xffa, **nil); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (kwnilarg)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=12-14) (kwnilarg name=18-21 expression=16-21)] expression=11-22 begin=11-12 end=21-22) keyword=0-3 operator=8-9 name=9-11 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atIDENTIFIER 12-14 v\xff\x00\x0atCOMMA 14-15 ,\x0atDSTAR 16-18 **\x0akNIL 18-21 nil\x0atRPAREN 21-22 )\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"def zo(v\xffa, &x\xffa) end", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (blockarg name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (blockarg name=\x22x\xff\x01\x22 operator=11-12 name=12-14 expression=11-14)] expression=6-15 begin=6-7 end=14-15) keyword=0-3 name=4-6 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atAMPER 11-12 &\x0atIDENTIFIER 12-14 x\xff\x01\x0atRPAREN 14-15 )\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"def zo v\xffa, &x\xffa\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (blockarg name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (blockarg name=\x22x\xff\x01\x22 operator=11-12 name=12-14 expression=11-14)] expression=7-14) keyword=0-3 name=4-6 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atAMPER 11-12 &\x0atIDENTIFIER 12-14 x\xff\x01\x0atNL 14-15 \x0a\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"def zo(v\xffa, &x\xffa) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (blockarg name=\x22x\xff\x01\x22)]) body=(int value=\x22\xff\x02\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (blockarg name=\x22x\xff\x01\x22 operator=11-12 name=12-14 expression=11-14)] expression=6-15 begin=6-7 end=14-15) body=(int value=\x22\xff\x02\x22 expression=18-19) keyword=0-3 name=4-6 assignment=16-17 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atAMPER 11-12 &\x0atIDENTIFIER 12-14 x\xff\x01\x0atRPAREN 14-15 )\x0atEQL 16-17 =\x0atINTEGER 18-19 \xff\x02\x0aEOF 19-19 " },
    Rec { t: b"def self.zo(v\xffa, &x\xffa); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (blockarg name=\x22x\xff\x01\x22)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=12-14) (blockarg name=\x22x\xff\x01\x22 operator=16-17 name=17-19 expression=16-19)] expression=11-20 begin=11-12 end=19-20) keyword=0-3 operator=8-9 name=9-11 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atIDENTIFIER 12-14 v\xff\x00\x0atCOMMA 14-15 ,\x0atAMPER 16-17 &\x0atIDENTIFIER 17-19 x\xff\x01\x0atRPAREN 19-20 )\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"def zo(*v\xffa, &x\xffa) end", shape: b"(def name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22) (blockarg name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22 operator=7-8 name=8-10 expression=7-10) (blockarg name=\x22x\xff\x01\x22 operator=12-13 name=13-15 expression=12-15)] expression=6-16 begin=6-7 end=15-16) keyword=0-3 name=4-6 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atSTAR 7-8 *\x0atIDENTIFIER 8-10 v\xff\x00\x0atCOMMA 10-11 ,\x0atAMPER 12-13 &\x0atIDENTIFIER 13-15 x\xff\x01\x0atRPAREN 15-16 )\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"def zo *v\xffa, &x\xffa\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22) (blockarg name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22 operator=7-8 name=8-10 expression=7-10) (blockarg name=\x22x\xff\x01\x22 operator=12-13 name=13-15 expression=12-15)] expression=7-15) keyword=0-3 name=4-6 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atSTAR2 7-8 *\x0atIDENTIFIER 8-10 v\xff\x00\x0atCOMMA 10-11 ,\x0atAMPER 12-13 &\x0atIDENTIFIER 13-15 x\xff\x01\x0atNL 15-16 \x0a\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"def zo(*v\xffa, &x\xffa) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22) (blockarg name=\x22x\xff\x01\x22)]) body=(int value=\x22\xff\x02\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22 operator=7-8 name=8-10 expression=7-10) (blockarg name=\x22x\xff\x01\x22 operator=12-13 name=13-15 expression=12-15)] expression=6-16 begin=6-7 end=15-16) body=(int value=\x22\xff\x02\x22 expression=19-20) keyword=0-3 name=4-6 assignment=17-18 expression=0-20)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atSTAR 7-8 *\x0atIDENTIFIER 8-10 v\xff\x00\x0atCOMMA 10-11 ,\x0atAMPER 12-13 &\x0atIDENTIFIER 13-15 x\xff\x01\x0atRPAREN 15-16 )\x0atEQL 17-18 =\x0atINTEGER 19-20 \xff\x02\x0aEOF 20-20 " },
    Rec { t: b"def self.zo(*v\xffa, &x\xffa); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22) (blockarg name=\x22x\xff\x01\x22)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(restarg name=\x22v\xff\x00\x22 operator=12-13 name=13-15 expression=12-15) (blockarg name=\x22x\xff\x01\x22 operator=17-18 name=18-20 expression=17-20)] expression=11-21 begin=11-12 end=20-21) keyword=0-3 operator=8-9 name=9-11 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atSTAR 12-13 *\x0atIDENTIFIER 13-15 v\xff\x00\x0atCOMMA 15-16 ,\x0atAMPER 17-18 &\x0atIDENTIFIER 18-20 x\xff\x01\x0atRPAREN 20-21 )\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"def zo(v\xffa:, &x\xffa) end", shape: b"(def name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22) (blockarg name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22 name=7-9 expression=7-10) (blockarg name=\x22x\xff\x01\x22 operator=12-13 name=13-15 expression=12-15)] expression=6-16 begin=6-7 end=15-16) keyword=0-3 name=4-6 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atLABEL 7-10 v\xff\x00\x0atCOMMA 10-11 ,\x0atAMPER 12-13 &\x0atIDENTIFIER 13-15 x\xff\x01\x0atRPAREN 15-16 )\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"def zo v\xffa:, &x\xffa\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22) (blockarg name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22 name=7-9 expression=7-10) (blockarg name=\x22x\xff\x01\x22 operator=12-13 name=13-15 expression=12-15)] expression=7-15) keyword=0-3 name=4-6 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLABEL 7-10 v\xff\x00\x0atCOMMA 10-11 ,\x0atAMPER 12-13 &\x0atIDENTIFIER 13-15 x\xff\x01\x0atNL 15-16 \x0a\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"def zo(v\xffa:, &x\xffa) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22) (blockarg name=\x22x\xff\x01\x22)]) body=(int value=\x22\xff\x02\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22 name=7-9 expression=7-10) (blockarg name=\x22x\xff\x01\x22 operator=12-13 name=13-15 expression=12-15)] expression=6-16 begin=6-7 end=15-16) body=(int value=\x22\xff\x02\x22 expression=19-20) keyword=0-3 name=4-6 assignment=17-18 expression=0-20)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atLABEL 7-10 v\xff\x00\x0atCOMMA 10-11 ,\x0atAMPER 12-13 &\x0atIDENTIFIER 13-15 x\xff\x01\x0atRPAREN 15-16 )\x0atEQL 17-18 =\x0atINTEGER 19-20 \xff\x02\x0aEOF 20-20 " },
    Rec { t: b"def self.zo(v\xffa:, &x\xffa); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22) (blockarg name=\x22x\xff\x01\x22)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(kwarg name=\x22v\xff\x00\x22 name=12-14 expression=12-15) (blockarg name=\x22x\xff\x01\x22 operator=17-18 name=18-20 expression=17-20)] expression=11-21 begin=11-12 end=20-21) keyword=0-3 operator=8-9 name=9-11 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atLABEL 12-15 v\xff\x00\x0atCOMMA 15-16 ,\x0atAMPER 17-18 &\x0atIDENTIFIER 18-20 x\xff\x01\x0atRPAREN 20-21 )\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"def zo(**v\xffa, &x\xffa) end", shape: b"(def name=\x22zo\x22 args=(args args=[(kwrestarg name=\x22v\xff\x00\x22) (blockarg name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(kwrestarg name=\x22v\xff\x00\x22 operator=7-9 name=9-11 expression=7-11) (blockarg name=\x22x\xff\x01\x22 operator=13-14 name=14-16 expression=13-16)] expression=6-17 begin=6-7 end=16-17) keyword=0-3 name=4-6 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atDSTAR 7-9 **\x0atIDENTIFIER 9-11 v\xff\x00\x0atCOMMA 11-12 ,\x0atAMPER 13-14 &\x0atIDENTIFIER 14-16 x\xff\x01\x0atRPAREN 16-17 )\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"def zo **v\xffa, &x\xffa\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(kwrestarg name=\x22v\xff\x00\x22) (blockarg name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(kwrestarg name=\x22v\xff\x00\x22 operator=7-9 name=9-11 expression=7-11) (blockarg name=\x22x\xff\x01\x22 operator=13-14 name=14-16 expression=13-16)] expression=7-16) keyword=0-3 name=4-6 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atPOW 7-9 **\x0atIDENTIFIER 9-11 v\xff\x00\x0atCOMMA 11-12 ,\x0atAMPER 13-14 &\x0atIDENTIFIER 14-16 x\xff\x01\x0atNL 16-17 \x0a\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"def zo(**v\xffa, &x\xffa) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(kwrestarg name=\x22v\xff\x00\x22) (blockarg name=\x22x\xff\x01\x22)]) body=(int value=\x22\xff\x02\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(kwrestarg name=\x22v\xff\x00\x22 operator=7-9 name=9-11 expression=7-11) (blockarg name=\x22x\xff\x01\x22 operator=13-14 name=14-16 expression=13-16)] expression=6-17 begin=6-7 end=16-17) body=(int value=\x22\xff\x02\x22 expression=20-21) keyword=0-3 name=4-6 assignment=18-19 expression=0-21)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atDSTAR 7-9 **\x0atIDENTIFIER 9-11 v\xff\x00\x0atCOMMA 11-12 ,\x0atAMPER 13-14 &\x0atIDENTIFIER 14-16 x\xff\x01\x0atRPAREN 16-17 )\x0atEQL 18-19 =\x0atINTEGER 20-21 \xff\x02\x0aEOF 21-21 " },
    Rec { t: b"def self.zo(**v\xffa, &x\xffa); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(kwrestarg name=\x22v\xff\x00\x22) (blockarg name=\x22x\xff\x01\x22)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(kwrestarg name=\x22v\xff\x00\x22 operator=12-14 name=14-16 expression=12-16) (blockarg name=\x22x\xff\x01\x22 operator=18-19 name=19-21 expression=18-21)] expression=11-22 begin=11-12 end=21-22) keyword=0-3 operator=8-9 name=9-11 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atDSTAR 12-14 **\x0atIDENTIFIER 14-16 v\xff\x00\x0atCOMMA 16-17 ,\x0atAMPER 18-19 &\x0atIDENTIFIER 19-21 x\xff\x01\x0atRPAREN 21-22 )\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"def zo((v\xffa)) end", shape: b"(def name=\x22zo\x22 args=(args args=[(mlhs items=[(arg name=\x22v\xff\x00\x22)])]))", full: b"(def name=\x22zo\x22 args=(args args=[(mlhs items=[(arg name=\x22v\xff\x00\x22 expression=8-10)] begin=7-8 end=10-11 expression=7-11)] expression=6-12 begin=6-7 end=11-12) keyword=0-3 name=4-6 end=13-16 expression=0-16)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atLPAREN 7-8 (\x0atIDENTIFIER 8-10 v\xff\x00\x0atRPAREN 10-11 )\x0atRPAREN 11-12 )\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"def zo (v\xffa)\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=8-10)] expression=7-11 begin=7-8 end=10-11) keyword=0-3 name=4-6 end=12-15 expression=0-15)", diag: b"\x0aW 7-8 parentheses after method name is interpreted as an argument list, not a decomposed argument", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 7-8 (\x0atIDENTIFIER 8-10 v\xff\x00\x0atRPAREN 10-11 )\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def zo((v\xffa)) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(mlhs items=[(arg name=\x22v\xff\x00\x22)])]) body=(int value=\x22\xff\x01\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(mlhs items=[(arg name=\x22v\xff\x00\x22 expression=8-10)] begin=7-8 end=10-11 expression=7-11)] expression=6-12 begin=6-7 end=11-12) body=(int value=\x22\xff\x01\x22 expression=15-16) keyword=0-3 name=4-6 assignment=13-14 expression=0-16)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atLPAREN 7-8 (\x0atIDENTIFIER 8-10 v\xff\x00\x0atRPAREN 10-11 )\x0atRPAREN 11-12 )\x0atEQL 13-14 =\x0atINTEGER 15-16 \xff\x01\x0aEOF 16-16 " },
    Rec { t: b"def self.zo((v\xffa)); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(mlhs items=[(arg name=\x22v\xff\x00\x22)])]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(mlhs items=[(arg name=\x22v\xff\x00\x22 expression=13-15)] begin=12-13 end=15-16 expression=12-16)] expression=11-17 begin=11-12 end=16-17) keyword=0-3 operator=8-9 name=9-11 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atLPAREN 12-13 (\x0atIDENTIFIER 13-15 v\xff\x00\x0atRPAREN 15-16 )\x0atRPAREN 16-17 )\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"def zo((v\xffa, x\xffa)) end", shape: b"(def name=\x22zo\x22 args=(args args=[(mlhs items=[(arg name=\x22v\xff\x00\x22) (arg name=\x22x\xff\x01\x22)])]))", full: b"(def name=\x22zo\x22 args=(args args=[(mlhs items=[(arg name=\x22v\xff\x00\x22 expression=8-10) (arg name=\x22x\xff\x01\x22 expression=12-14)] begin=7-8 end=14-15 expression=7-15)] expression=6-16 begin=6-7 end=15-16) keyword=0-3 name=4-6 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atLPAREN 7-8 (\x0atIDENTIFIER 8-10 v\xff\x00\x0atCOMMA 10-11 ,\x0atIDENTIFIER 12-14 x\xff\x01\x0atRPAREN 14-15 )\x0atRPAREN 15-16 )\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"def zo (v\xffa, x\xffa)\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (arg name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=8-10) (arg name=\x22x\xff\x01\x22 expression=12-14)] expression=7-15 begin=7-8 end=14-15) keyword=0-3 name=4-6 end=16-19 expression=0-19)", diag: b"\x0aW 7-8 parentheses after method name is interpreted as an argument list, not a decomposed argument", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 7-8 (\x0atIDENTIFIER 8-10 v\xff\x00\x0atCOMMA 10-11 ,\x0atIDENTIFIER 12-14 x\xff\x01\x0atRPAREN 14-15 )\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"def zo((v\xffa, x\xffa)) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(mlhs items=[(arg name=\x22v\xff\x00\x22) (arg name=\x22x\xff\x01\x22)])]) body=(int value=\x22\xff\x02\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(mlhs items=[(arg name=\x22v\xff\x00\x22 expression=8-10) (arg name=\x22x\xff\x01\x22 expression=12-14)] begin=7-8 end=14-15 expression=7-15)] expression=6-16 begin=6-7 end=15-16) body=(int value=\x22\xff\x02\x22 expression=19-20) keyword=0-3 name=4-6 assignment=17-18 expression=0-20)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atLPAREN 7-8 (\x0atIDENTIFIER 8-10 v\xff\x00\x0atCOMMA 10-11 ,\x0atIDENTIFIER 12-14 x\xff\x01\x0atRPAREN 14-15 )\x0atRPAREN 15-16 )\x0atEQL 17-18 =\x0atINTEGER 19-20 \xff\x02\x0aEOF 20-20 " },
    Rec { t: b"def self.zo((v\xffa, x\xffa)); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(mlhs items=[(arg name=\x22v\xff\x00\x22) (arg name=\x22x\xff\x01\x22)])]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(mlhs items=[(arg name=\x22v\xff\x00\x22 expression=13-15) (arg name=\x22x\xff\x01\x22 expression=17-19)] begin=12-13 end=19-20 expression=12-20)] expression=11-21 begin=11-12 end=20-21) keyword=0-3 operator=8-9 name=9-11 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atLPAREN 12-13 (\x0atIDENTIFIER 13-15 v\xff\x00\x0atCOMMA 15-16 ,\x0atIDENTIFIER 17-19 x\xff\x01\x0atRPAREN 19-20 )\x0atRPAREN 20-21 )\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"def zo(v\xffa, (x\xffa, yo)) end", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (mlhs items=[(arg name=\x22x\xff\x01\x22) (arg name=\x22yo\x22)])]))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (mlhs items=[(arg name=\x22x\xff\x01\x22 expression=12-14) (arg name=\x22yo\x22 expression=16-18)] begin=11-12 end=18-19 expression=11-19)] expression=6-20 begin=6-7 end=19-20) keyword=0-3 name=4-6 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atLPAREN 11-12 (\x0atIDENTIFIER 12-14 x\xff\x01\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-18 yo\x0atRPAREN 18-19 )\x0atRPAREN 19-20 )\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"def zo v\xffa, (x\xffa, yo)\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (mlhs items=[(arg name=\x22x\xff\x01\x22) (arg name=\x22yo\x22)])]))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (mlhs items=[(arg name=\x22x\xff\x01\x22 expression=12-14) (arg name=\x22yo\x22 expression=16-18)] begin=11-12 end=18-19 expression=11-19)] expression=7-19) keyword=0-3 name=4-6 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atLPAREN 11-12 (\x0atIDENTIFIER 12-14 x\xff\x01\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-18 yo\x0atRPAREN 18-19 )\x0atNL 19-20 \x0a\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"def zo(v\xffa, (x\xffa, yo)) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (mlhs items=[(arg name=\x22x\xff\x01\x22) (arg name=\x22yo\x22)])]) body=(int value=\x22\xff\x02\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (mlhs items=[(arg name=\x22x\xff\x01\x22 expression=12-14) (arg name=\x22yo\x22 expression=16-18)] begin=11-12 end=18-19 expression=11-19)] expression=6-20 begin=6-7 end=19-20) body=(int value=\x22\xff\x02\x22 expression=23-24) keyword=0-3 name=4-6 assignment=21-22 expression=0-24)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atLPAREN 11-12 (\x0atIDENTIFIER 12-14 x\xff\x01\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-18 yo\x0atRPAREN 18-19 )\x0atRPAREN 19-20 )\x0atEQL 21-22 =\x0atINTEGER 23-24 \xff\x02\x0aEOF 24-24 " },
    Rec { t: b"def self.zo(v\xffa, (x\xffa, yo)); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (mlhs items=[(arg name=\x22x\xff\x01\x22) (arg name=\x22yo\x22)])]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=12-14) (mlhs items=[(arg name=\x22x\xff\x01\x22 expression=17-19) (arg name=\x22yo\x22 expression=21-23)] begin=16-17 end=23-24 expression=16-24)] expression=11-25 begin=11-12 end=24-25) keyword=0-3 operator=8-9 name=9-11 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atIDENTIFIER 12-14 v\xff\x00\x0atCOMMA 14-15 ,\x0atLPAREN 16-17 (\x0atIDENTIFIER 17-19 x\xff\x01\x0atCOMMA 19-20 ,\x0atIDENTIFIER 21-23 yo\x0atRPAREN 23-24 )\x0atRPAREN 24-25 )\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"def zo((v\xffa, *)) end", shape: b"(def name=\x22zo\x22 args=(args args=[(mlhs items=[(arg name=\x22v\xff\x00\x22) (restarg)])]))", full: b"(def name=\x22zo\x22 args=(args args=[(mlhs items=[(arg name=\x22v\xff\x00\x22 expression=8-10) (restarg operator=12-13 expression=12-13)] begin=7-8 end=13-14 expression=7-14)] expression=6-15 begin=6-7 end=14-15) keyword=0-3 name=4-6 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atLPAREN 7-8 (\x0atIDENTIFIER 8-10 v\xff\x00\x0atCOMMA 10-11 ,\x0atSTAR 12-13 *\x0atRPAREN 13-14 )\x0atRPAREN 14-15 )\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"def zo (v\xffa, *)\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (restarg)]))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=8-10) (restarg operator=12-13 expression=12-13)] expression=7-14 begin=7-8 end=13-14) keyword=0-3 name=4-6 end=15-18 expression=0-18)", diag: b"\x0aW 7-8 parentheses after method name is interpreted as an argument list, not a decomposed argument", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 7-8 (\x0atIDENTIFIER 8-10 v\xff\x00\x0atCOMMA 10-11 ,\x0atSTAR 12-13 *\x0atRPAREN 13-14 )\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"def zo((v\xffa, *)) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(mlhs items=[(arg name=\x22v\xff\x00\x22) (restarg)])]) body=(int value=\x22\xff\x01\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(mlhs items=[(arg name=\x22v\xff\x00\x22 expression=8-10) (restarg operator=12-13 expression=12-13)] begin=7-8 end=13-14 expression=7-14)] expression=6-15 begin=6-7 end=14-15) body=(int value=\x22\xff\x01\x22 expression=18-19) keyword=0-3 name=4-6 assignment=16-17 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atLPAREN 7-8 (\x0atIDENTIFIER 8-10 v\xff\x00\x0atCOMMA 10-11 ,\x0atSTAR 12-13 *\x0atRPAREN 13-14 )\x0atRPAREN 14-15 )\x0atEQL 16-17 =\x0atINTEGER 18-19 \xff\x01\x0aEOF 19-19 " },
    Rec { t: b"def self.zo((v\xffa, *)); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(mlhs items=[(arg name=\x22v\xff\x00\x22) (restarg)])]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(mlhs items=[(arg name=\x22v\xff\x00\x22 expression=13-15) (restarg operator=17-18 expression=17-18)] begin=12-13 end=18-19 expression=12-19)] expression=11-20 begin=11-12 end=19-20) keyword=0-3 operator=8-9 name=9-11 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atLPAREN 12-13 (\x0atIDENTIFIER 13-15 v\xff\x00\x0atCOMMA 15-16 ,\x0atSTAR 17-18 *\x0atRPAREN 18-19 )\x0atRPAREN 19-20 )\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"def zo((*v\xffa), x\xffa) end", shape: b"(def name=\x22zo\x22 args=(args args=[(mlhs items=[(restarg name=\x22v\xff\x00\x22)]) (arg name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(mlhs items=[(restarg name=\x22v\xff\x00\x22 operator=8-9 name=9-11 expression=8-11)] begin=7-8 end=11-12 expression=7-12) (arg name=\x22x\xff\x01\x22 expression=14-16)] expression=6-17 begin=6-7 end=16-17) keyword=0-3 name=4-6 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atLPAREN 7-8 (\x0atSTAR 8-9 *\x0atIDENTIFIER 9-11 v\xff\x00\x0atRPAREN 11-12 )\x0atCOMMA 12-13 ,\x0atIDENTIFIER 14-16 x\xff\x01\x0atRPAREN 16-17 )\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"def zo((*v\xffa), x\xffa) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(mlhs items=[(restarg name=\x22v\xff\x00\x22)]) (arg name=\x22x\xff\x01\x22)]) body=(int value=\x22\xff\x02\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(mlhs items=[(restarg name=\x22v\xff\x00\x22 operator=8-9 name=9-11 expression=8-11)] begin=7-8 end=11-12 expression=7-12) (arg name=\x22x\xff\x01\x22 expression=14-16)] expression=6-17 begin=6-7 end=16-17) body=(int value=\x22\xff\x02\x22 expression=20-21) keyword=0-3 name=4-6 assignment=18-19 expression=0-21)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atLPAREN 7-8 (\x0atSTAR 8-9 *\x0atIDENTIFIER 9-11 v\xff\x00\x0atRPAREN 11-12 )\x0atCOMMA 12-13 ,\x0atIDENTIFIER 14-16 x\xff\x01\x0atRPAREN 16-17 )\x0atEQL 18-19 =\x0atINTEGER 20-21 \xff\x02\x0aEOF 21-21 " },
    Rec { t: b"def self.zo((*v\xffa), x\xffa); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(mlhs items=[(restarg name=\x22v\xff\x00\x22)]) (arg name=\x22x\xff\x01\x22)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(mlhs items=[(restarg name=\x22v\xff\x00\x22 operator=13-14 name=14-16 expression=13-16)] begin=12-13 end=16-17 expression=12-17) (arg name=\x22x\xff\x01\x22 expression=19-21)] expression=11-22 begin=11-12 end=21-22) keyword=0-3 operator=8-9 name=9-11 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atLPAREN 12-13 (\x0atSTAR 13-14 *\x0atIDENTIFIER 14-16 v\xff\x00\x0atRPAREN 16-17 )\x0atCOMMA 17-18 ,\x0atIDENTIFIER 19-21 x\xff\x01\x0atRPAREN 21-22 )\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"def zo((*, v\xffa)) end", shape: b"(def name=\x22zo\x22 args=(args args=[(mlhs items=[(restarg) (arg name=\x22v\xff\x00\x22)])]))", full: b"(def name=\x22zo\x22 args=(args args=[(mlhs items=[(restarg operator=8-9 expression=8-9) (arg name=\x22v\xff\x00\x22 expression=11-13)] begin=7-8 end=13-14 expression=7-14)] expression=6-15 begin=6-7 end=14-15) keyword=0-3 name=4-6 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atLPAREN 7-8 (\x0atSTAR 8-9 *\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 v\xff\x00\x0atRPAREN 13-14 )\x0atRPAREN 14-15 )\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"def zo (*, v\xffa)\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(restarg) (arg name=\x22v\xff\x00\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(restarg operator=8-9 expression=8-9) (arg name=\x22v\xff\x00\x22 expression=11-13)] expression=7-14 begin=7-8 end=13-14) keyword=0-3 name=4-6 end=15-18 expression=0-18)", diag: b"\x0aW 7-8 parentheses after method name is interpreted as an argument list, not a decomposed argument", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 7-8 (\x0atSTAR 8-9 *\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 v\xff\x00\x0atRPAREN 13-14 )\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"def zo((*, v\xffa)) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(mlhs items=[(restarg) (arg name=\x22v\xff\x00\x22)])]) body=(int value=\x22\xff\x01\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(mlhs items=[(restarg operator=8-9 expression=8-9) (arg name=\x22v\xff\x00\x22 expression=11-13)] begin=7-8 end=13-14 expression=7-14)] expression=6-15 begin=6-7 end=14-15) body=(int value=\x22\xff\x01\x22 expression=18-19) keyword=0-3 name=4-6 assignment=16-17 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atLPAREN 7-8 (\x0atSTAR 8-9 *\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 v\xff\x00\x0atRPAREN 13-14 )\x0atRPAREN 14-15 )\x0atEQL 16-17 =\x0atINTEGER 18-19 \xff\x01\x0aEOF 19-19 " },
    Rec { t: b"def self.zo((*, v\xffa)); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(mlhs items=[(restarg) (arg name=\x22v\xff\x00\x22)])]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(mlhs items=[(restarg operator=13-14 expression=13-14) (arg name=\x22v\xff\x00\x22 expression=16-18)] begin=12-13 end=18-19 expression=12-19)] expression=11-20 begin=11-12 end=19-20) keyword=0-3 operator=8-9 name=9-11 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atLPAREN 12-13 (\x0atSTAR 13-14 *\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-18 v\xff\x00\x0atRPAREN 18-19 )\x0atRPAREN 19-20 )\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"def zo(((v\xffa, x\xffa), yo)) end", shape: b"(def name=\x22zo\x22 args=(args args=[(mlhs items=[(mlhs items=[(arg name=\x22v\xff\x00\x22) (arg name=\x22x\xff\x01\x22)]) (arg name=\x22yo\x22)])]))", full: b"(def name=\x22zo\x22 args=(args args=[(mlhs items=[(mlhs items=[(arg name=\x22v\xff\x00\x22 expression=9-11) (arg name=\x22x\xff\x01\x22 expression=13-15)] begin=8-9 end=15-16 expression=8-16) (arg name=\x22yo\x22 expression=18-20)] begin=7-8 end=20-21 expression=7-21)] expression=6-22 begin=6-7 end=21-22) keyword=0-3 name=4-6 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atLPAREN 7-8 (\x0atLPAREN 8-9 (\x0atIDENTIFIER 9-11 v\xff\x00\x0atCOMMA 11-12 ,\x0atIDENTIFIER 13-15 x\xff\x01\x0atRPAREN 15-16 )\x0atCOMMA 16-17 ,\x0atIDENTIFIER 18-20 yo\x0atRPAREN 20-21 )\x0atRPAREN 21-22 )\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"def zo ((v\xffa, x\xffa), yo)\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(mlhs items=[(arg name=\x22v\xff\x00\x22) (arg name=\x22x\xff\x01\x22)]) (arg name=\x22yo\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(mlhs items=[(arg name=\x22v\xff\x00\x22 expression=9-11) (arg name=\x22x\xff\x01\x22 expression=13-15)] begin=8-9 end=15-16 expression=8-16) (arg name=\x22yo\x22 expression=18-20)] expression=7-21 begin=7-8 end=20-21) keyword=0-3 name=4-6 end=22-25 expression=0-25)", diag: b"\x0aW 7-8 parentheses after method name is interpreted as an argument list, not a decomposed argument", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 7-8 (\x0atLPAREN 8-9 (\x0atIDENTIFIER 9-11 v\xff\x00\x0atCOMMA 11-12 ,\x0atIDENTIFIER 13-15 x\xff\x01\x0atRPAREN 15-16 )\x0atCOMMA 16-17 ,\x0atIDENTIFIER 18-20 yo\x0atRPAREN 20-21 )\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"def zo(((v\xffa, x\xffa), yo)) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(mlhs items=[(mlhs items=[(arg name=\x22v\xff\x00\x22) (arg name=\x22x\xff\x01\x22)]) (arg name=\x22yo\x22)])]) body=(int value=\x22\xff\x02\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(mlhs items=[(mlhs items=[(arg name=\x22v\xff\x00\x22 expression=9-11) (arg name=\x22x\xff\x01\x22 expression=13-15)] begin=8-9 end=15-16 expression=8-16) (arg name=\x22yo\x22 expression=18-20)] begin=7-8 end=20-21 expression=7-21)] expression=6-22 begin=6-7 end=21-22) body=(int value=\x22\xff\x02\x22 expression=25-26) keyword=0-3 name=4-6 assignment=23-24 expression=0-26)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atLPAREN 7-8 (\x0atLPAREN 8-9 (\x0atIDENTIFIER 9-11 v\xff\x00\x0atCOMMA 11-12 ,\x0atIDENTIFIER 13-15 x\xff\x01\x0atRPAREN 15-16 )\x0atCOMMA 16-17 ,\x0atIDENTIFIER 18-20 yo\x0atRPAREN 20-21 )\x0atRPAREN 21-22 )\x0atEQL 23-24 =\x0atINTEGER 25-26 \xff\x02\x0aEOF 26-26 " },
    Rec { t: b"def self.zo(((v\xffa, x\xffa), yo)); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(mlhs items=[(mlhs items=[(arg name=\x22v\xff\x00\x22) (arg name=\x22x\xff\x01\x22)]) (arg name=\x22yo\x22)])]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(mlhs items=[(mlhs items=[(arg name=\x22v\xff\x00\x22 expression=14-16) (arg name=\x22x\xff\x01\x22 expression=18-20)] begin=13-14 end=20-21 expression=13-21) (arg name=\x22yo\x22 expression=23-25)] begin=12-13 end=25-26 expression=12-26)] expression=11-27 begin=11-12 end=26-27) keyword=0-3 operator=8-9 name=9-11 end=29-32 expression=0-32)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atLPAREN 12-13 (\x0atLPAREN 13-14 (\x0atIDENTIFIER 14-16 v\xff\x00\x0atCOMMA 16-17 ,\x0atIDENTIFIER 18-20 x\xff\x01\x0atRPAREN 20-21 )\x0atCOMMA 21-22 ,\x0atIDENTIFIER 23-25 yo\x0atRPAREN 25-26 )\x0atRPAREN 26-27 )\x0atSEMI 27-28 ;\x0akEND 29-32 end\x0aEOF 32-32 " },
    Rec { t: b"def zo(v\xffa, &) end", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (blockarg)]))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (blockarg operator=11-12 expression=11-12)] expression=6-13 begin=6-7 end=12-13) keyword=0-3 name=4-6 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atAMPER 11-12 &\x0atRPAREN 12-13 )\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"def zo(v\xffa, &) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (blockarg)]) body=(int value=\x22\xff\x01\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (blockarg operator=11-12 expression=11-12)] expression=6-13 begin=6-7 end=12-13) body=(int value=\x22\xff\x01\x22 expression=16-17) keyword=0-3 name=4-6 assignment=14-15 expression=0-17)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atAMPER 11-12 &\x0atRPAREN 12-13 )\x0atEQL 14-15 =\x0atINTEGER 16-17 \xff\x01\x0aEOF 17-17 " },
    Rec { t: b"def self.zo(v\xffa, &); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (blockarg)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=12-14) (blockarg operator=16-17 expression=16-17)] expression=11-18 begin=11-12 end=17-18) keyword=0-3 operator=8-9 name=9-11 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atIDENTIFIER 12-14 v\xff\x00\x0atCOMMA 14-15 ,\x0atAMPER 16-17 &\x0atRPAREN 17-18 )\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"def zo(*, **, &) end", shape: b"(def name=\x22zo\x22 args=(args args=[(restarg) (kwrestarg) (blockarg)]))", full: b"(def name=\x22zo\x22 args=(args args=[(restarg operator=7-8 expression=7-8) (kwrestarg operator=10-12 expression=10-12) (blockarg operator=14-15 expression=14-15)] expression=6-16 begin=6-7 end=15-16) keyword=0-3 name=4-6 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atSTAR 7-8 *\x0atCOMMA 8-9 ,\x0atDSTAR 10-12 **\x0atCOMMA 12-13 ,\x0atAMPER 14-15 &\x0atRPAREN 15-16 )\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"def zo(*, **, &) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(restarg) (kwrestarg) (blockarg)]) body=(int value=\x22\xff\x00\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(restarg operator=7-8 expression=7-8) (kwrestarg operator=10-12 expression=10-12) (blockarg operator=14-15 expression=14-15)] expression=6-16 begin=6-7 end=15-16) body=(int value=\x22\xff\x00\x22 expression=19-20) keyword=0-3 name=4-6 assignment=17-18 expression=0-20)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atSTAR 7-8 *\x0atCOMMA 8-9 ,\x0atDSTAR 10-12 **\x0atCOMMA 12-13 ,\x0atAMPER 14-15 &\x0atRPAREN 15-16 )\x0atEQL 17-18 =\x0atINTEGER 19-20 \xff\x00\x0aEOF 20-20 " },
    Rec { t: b"def self.zo(*, **, &); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(restarg) (kwrestarg) (blockarg)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(restarg operator=12-13 expression=12-13) (kwrestarg operator=15-17 expression=15-17) (blockarg operator=19-20 expression=19-20)] expression=11-21 begin=11-12 end=20-21) keyword=0-3 operator=8-9 name=9-11 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atSTAR 12-13 *\x0atCOMMA 13-14 ,\x0atDSTAR 15-17 **\x0atCOMMA 17-18 ,\x0atAMPER 19-20 &\x0atRPAREN 20-21 )\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"def zo(v\xffa, (x\xffa, *yo), zo = \xffd, *ko, jo, ho:, go: \xffd, **fo, &eo) end", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (mlhs items=[(arg name=\x22x\xff\x01\x22) (restarg name=\x22yo\x22)]) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22)) (restarg name=\x22ko\x22) (arg name=\x22jo\x22) (kwarg name=\x22ho\x22) (kwoptarg name=\x22go\x22 default=(int value=\x22\xff\x03\x22)) (kwrestarg name=\x22fo\x22) (blockarg name=\x22eo\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (mlhs items=[(arg name=\x22x\xff\x01\x22 expression=12-14) (restarg name=\x22yo\x22 operator=16-17 name=17-19 expression=16-19)] begin=11-12 end=19-20 expression=11-20) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22 expression=27-28) name=22-24 operator=25-26 expression=22-28) (restarg name=\x22ko\x22 operator=30-31 name=31-33 expression=30-33) (arg name=\x22jo\x22 expression=35-37) (kwarg name=\x22ho\x22 name=39-41 expression=39-42) (kwoptarg name=\x22go\x22 default=(int value=\x22\xff\x03\x22 expression=48-49) name=44-46 expression=44-49) (kwrestarg name=\x22fo\x22 operator=51-53 name=53-55 expression=51-55) (blockarg name=\x22eo\x22 operator=57-58 name=58-60 expression=57-60)] expression=6-61 begin=6-7 end=60-61) keyword=0-3 name=4-6 end=62-65 expression=0-65)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atLPAREN 11-12 (\x0atIDENTIFIER 12-14 x\xff\x01\x0atCOMMA 14-15 ,\x0atSTAR 16-17 *\x0atIDENTIFIER 17-19 yo\x0atRPAREN 19-20 )\x0atCOMMA 20-21 ,\x0atIDENTIFIER 22-24 zo\x0atEQL 25-26 =\x0atINTEGER 27-28 \xff\x02\x0atCOMMA 28-29 ,\x0atSTAR 30-31 *\x0atIDENTIFIER 31-33 ko\x0atCOMMA 33-34 ,\x0atIDENTIFIER 35-37 jo\x0atCOMMA 37-38 ,\x0atLABEL 39-42 ho\x0atCOMMA 42-43 ,\x0atLABEL 44-47 go\x0atINTEGER 48-49 \xff\x03\x0atCOMMA 49-50 ,\x0atDSTAR 51-53 **\x0atIDENTIFIER 53-55 fo\x0atCOMMA 55-56 ,\x0atAMPER 57-58 &\x0atIDENTIFIER 58-60 eo\x0atRPAREN 60-61 )\x0akEND 62-65 end\x0aEOF 65-65 " },
    Rec { t: b"def zo v\xffa, (x\xffa, *yo), zo = \xffd, *ko, jo, ho:, go: \xffd, **fo, &eo\x0aend", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (mlhs items=[(arg name=\x22x\xff\x01\x22) (restarg name=\x22yo\x22)]) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22)) (restarg name=\x22ko\x22) (arg name=\x22jo\x22) (kwarg name=\x22ho\x22) (kwoptarg name=\x22go\x22 default=(int value=\x22\xff\x03\x22)) (kwrestarg name=\x22fo\x22) (blockarg name=\x22eo\x22)]))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (mlhs items=[(arg name=\x22x\xff\x01\x22 expression=12-14) (restarg name=\x22yo\x22 operator=16-17 name=17-19 expression=16-19)] begin=11-12 end=19-20 expression=11-20) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22 expression=27-28) name=22-24 operator=25-26 expression=22-28) (restarg name=\x22ko\x22 operator=30-31 name=31-33 expression=30-33) (arg name=\x22jo\x22 expression=35-37) (kwarg name=\x22ho\x22 name=39-41 expression=39-42) (kwoptarg name=\x22go\x22 default=(int value=\x22\xff\x03\x22 expression=48-49) name=44-46 expression=44-49) (kwrestarg name=\x22fo\x22 operator=51-53 name=53-55 expression=51-55) (blockarg name=\x22eo\x22 operator=57-58 name=58-60 expression=57-60)] expression=7-60) keyword=0-3 name=4-6 end=61-64 expression=0-64)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atLPAREN 11-12 (\x0atIDENTIFIER 12-14 x\xff\x01\x0atCOMMA 14-15 ,\x0atSTAR 16-17 *\x0atIDENTIFIER 17-19 yo\x0atRPAREN 19-20 )\x0atCOMMA 20-21 ,\x0atIDENTIFIER 22-24 zo\x0atEQL 25-26 =\x0atINTEGER 27-28 \xff\x02\x0atCOMMA 28-29 ,\x0atSTAR 30-31 *\x0atIDENTIFIER 31-33 ko\x0atCOMMA 33-34 ,\x0atIDENTIFIER 35-37 jo\x0atCOMMA 37-38 ,\x0atLABEL 39-42 ho\x0atCOMMA 42-43 ,\x0atLABEL 44-47 go\x0atINTEGER 48-49 \xff\x03\x0atCOMMA 49-50 ,\x0atDSTAR 51-53 **\x0atIDENTIFIER 53-55 fo\x0atCOMMA 55-56 ,\x0atAMPER 57-58 &\x0atIDENTIFIER 58-60 eo\x0atNL 60-61 \x0a\x0akEND 61-64 end\x0aEOF 64-64 " },
    Rec { t: b"def zo(v\xffa, (x\xffa, *yo), zo = \xffd, *ko, jo, ho:, go: \xffd, **fo, &eo) = \xffd", shape: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (mlhs items=[(arg name=\x22x\xff\x01\x22) (restarg name=\x22yo\x22)]) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22)) (restarg name=\x22ko\x22) (arg name=\x22jo\x22) (kwarg name=\x22ho\x22) (kwoptarg name=\x22go\x22 default=(int value=\x22\xff\x03\x22)) (kwrestarg name=\x22fo\x22) (blockarg name=\x22eo\x22)]) body=(int value=\x22\xff\x04\x22))", full: b"(def name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=7-9) (mlhs items=[(arg name=\x22x\xff\x01\x22 expression=12-14) (restarg name=\x22yo\x22 operator=16-17 name=17-19 expression=16-19)] begin=11-12 end=19-20 expression=11-20) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22 expression=27-28) name=22-24 operator=25-26 expression=22-28) (restarg name=\x22ko\x22 operator=30-31 name=31-33 expression=30-33) (arg name=\x22jo\x22 expression=35-37) (kwarg name=\x22ho\x22 name=39-41 expression=39-42) (kwoptarg name=\x22go\x22 default=(int value=\x22\xff\x03\x22 expression=48-49) name=44-46 expression=44-49) (kwrestarg name=\x22fo\x22 operator=51-53 name=53-55 expression=51-55) (blockarg name=\x22eo\x22 operator=57-58 name=58-60 expression=57-60)] expression=6-61 begin=6-7 end=60-61) body=(int value=\x22\xff\x04\x22 expression=64-65) keyword=0-3 name=4-6 assignment=62-63 expression=0-65)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 zo\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atLPAREN 11-12 (\x0atIDENTIFIER 12-14 x\xff\x01\x0atCOMMA 14-15 ,\x0atSTAR 16-17 *\x0atIDENTIFIER 17-19 yo\x0atRPAREN 19-20 )\x0atCOMMA 20-21 ,\x0atIDENTIFIER 22-24 zo\x0atEQL 25-26 =\x0atINTEGER 27-28 \xff\x02\x0atCOMMA 28-29 ,\x0atSTAR 30-31 *\x0atIDENTIFIER 31-33 ko\x0atCOMMA 33-34 ,\x0atIDENTIFIER 35-37 jo\x0atCOMMA 37-38 ,\x0atLABEL 39-42 ho\x0atCOMMA 42-43 ,\x0atLABEL 44-47 go\x0atINTEGER 48-49 \xff\x03\x0atCOMMA 49-50 ,\x0atDSTAR 51-53 **\x0atIDENTIFIER 53-55 fo\x0atCOMMA 55-56 ,\x0atAMPER 57-58 &\x0atIDENTIFIER 58-60 eo\x0atRPAREN 60-61 )\x0atEQL 62-63 =\x0atINTEGER 64-65 \xff\x04\x0aEOF 65-65 " },
    Rec { t: b"def self.zo(v\xffa, (x\xffa, *yo), zo = \xffd, *ko, jo, ho:, go: \xffd, **fo, &eo); end", shape: b"(defs definee=(self_) name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22) (mlhs items=[(arg name=\x22x\xff\x01\x22) (restarg name=\x22yo\x22)]) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22)) (restarg name=\x22ko\x22) (arg name=\x22jo\x22) (kwarg name=\x22ho\x22) (kwoptarg name=\x22go\x22 default=(int value=\x22\xff\x03\x22)) (kwrestarg name=\x22fo\x22) (blockarg name=\x22eo\x22)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22zo\x22 args=(args args=[(arg name=\x22v\xff\x00\x22 expression=12-14) (mlhs items=[(arg name=\x22x\xff\x01\x22 expression=17-19) (restarg name=\x22yo\x22 operator=21-22 name=22-24 expression=21-24)] begin=16-17 end=24-25 expression=16-25) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22 expression=32-33) name=27-29 operator=30-31 expression=27-33) (restarg name=\x22ko\x22 operator=35-36 name=36-38 expression=35-38) (arg name=\x22jo\x22 expression=40-42) (kwarg name=\x22ho\x22 name=44-46 expression=44-47) (kwoptarg name=\x22go\x22 default=(int value=\x22\xff\x03\x22 expression=53-54) name=49-51 expression=49-54) (kwrestarg name=\x22fo\x22 operator=56-58 name=58-60 expression=56-60) (blockarg name=\x22eo\x22 operator=62-63 name=63-65 expression=62-65)] expression=11-66 begin=11-12 end=65-66) keyword=0-3 operator=8-9 name=9-11 end=68-71 expression=0-71)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 zo\x0atLPAREN2 11-12 (\x0atIDENTIFIER 12-14 v\xff\x00\x0atCOMMA 14-15 ,\x0atLPAREN 16-17 (\x0atIDENTIFIER 17-19 x\xff\x01\x0atCOMMA 19-20 ,\x0atSTAR 21-22 *\x0atIDENTIFIER 22-24 yo\x0atRPAREN 24-25 )\x0atCOMMA 25-26 ,\x0atIDENTIFIER 27-29 zo\x0atEQL 30-31 =\x0atINTEGER 32-33 \xff\x02\x0atCOMMA 33-34 ,\x0atSTAR 35-36 *\x0atIDENTIFIER 36-38 ko\x0atCOMMA 38-39 ,\x0atIDENTIFIER 40-42 jo\x0atCOMMA 42-43 ,\x0atLABEL 44-47 ho\x0atCOMMA 47-48 ,\x0atLABEL 49-52 go\x0atINTEGER 53-54 \xff\x03\x0atCOMMA 54-55 ,\x0atDSTAR 56-58 **\x0atIDENTIFIER 58-60 fo\x0atCOMMA 60-61 ,\x0atAMPER 62-63 &\x0atIDENTIFIER 63-65 eo\x0atRPAREN 65-66 )\x0atSEMI 66-67 ;\x0akEND 68-71 end\x0aEOF 71-71 " },
];
