// generated by tools/gen_spec.py from spec/ - do not edit
use crate::tmpl::Rec;
pub static STRINGS: &[Rec] = &[
    Rec { t: b"\x22a\xffa\x22 \x22b\xffb\x22", shape: b"(dstr parts=[(str value=\x22a\xff\x00\x22) (str value=\x22b\xff\x01\x22)])", full: b"(dstr parts=[(str value=\x22a\xff\x00\x22 begin=0-1 end=3-4 expression=0-4) (str value=\x22b\xff\x01\x22 begin=5-6 end=8-9 expression=5-9)] expression=0-9)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_CONTENT 1-3 a\xff\x00\x0atSTRING_END 3-4 \x22\x0atSTRING_BEG 5-6 \x22\x0atSTRING_CONTENT 6-8 b\xff\x01\x0atSTRING_END 8-9 \x22\x0aEOF 9-9 " },
    Rec { t: b"\x22a#{v\xffa}b\x22 'c\xffa'", shape: b"(dstr parts=[(dstr parts=[(str value=\x22a\x22) (begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])]) (str value=\x22b\x22)]) (str value=\x22c\xff\x01\x22)])", full: b"(dstr parts=[(dstr parts=[(str value=\x22a\x22 expression=1-2) (begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=4-6 expression=4-6)] begin=2-4 end=6-7 expression=2-7) (str value=\x22b\x22 expression=7-8)] begin=0-1 end=8-9 expression=0-9) (str value=\x22c\xff\x01\x22 begin=10-11 end=13-14 expression=10-14)] expression=0-14)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_CONTENT 1-2 a\x0atSTRING_DBEG 2-4 #{\x0atIDENTIFIER 4-6 v\xff\x00\x0atSTRING_DEND 6-7 }\x0atSTRING_CONTENT 7-8 b\x0atSTRING_END 8-9 \x22\x0atSTRING_BEG 10-11 '\x0atSTRING_CONTENT 11-13 c\xff\x01\x0atSTRING_END 13-14 '\x0aEOF 14-14 " },
    Rec { t: b"\x22#{v\xffa}#{w\xffa}\x22", shape: b"(dstr parts=[(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])]) (begin statements=[(send method_name=\x22w\xff\x01\x22 args=[])])])", full: b"(dstr parts=[(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5)] begin=1-3 end=5-6 expression=1-6) (begin statements=[(send method_name=\x22w\xff\x01\x22 args=[] selector=8-10 expression=8-10)] begin=6-8 end=10-11 expression=6-11)] begin=0-1 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_DBEG 1-3 #{\x0atIDENTIFIER 3-5 v\xff\x00\x0atSTRING_DEND 5-6 }\x0atSTRING_DBEG 6-8 #{\x0atIDENTIFIER 8-10 w\xff\x01\x0atSTRING_DEND 10-11 }\x0atSTRING_END 11-12 \x22\x0aEOF 12-12 " },
    Rec { t: b"\x22#@x\xffa#@@y\xffa#$z\xffa\x22", shape: b"(dstr parts=[(ivar name=\x22@x\xff\x00\x22) (cvar name=\x22@@y\xff\x01\x22) (gvar name=\x22$z\xff\x02\x22)])", full: b"(dstr parts=[(ivar name=\x22@x\xff\x00\x22 expression=2-5) (cvar name=\x22@@y\xff\x01\x22 expression=6-10) (gvar name=\x22$z\xff\x02\x22 expression=11-14)] begin=0-1 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_DVAR 1-2 #\x0atIVAR 2-5 @x\xff\x00\x0atSTRING_DVAR 5-6 #\x0atCVAR 6-10 @@y\xff\x01\x0atSTRING_DVAR 10-11 #\x0atGVAR 11-14 $z\xff\x02\x0atSTRING_END 14-15 \x22\x0aEOF 15-15 " },
    Rec { t: b"\x22\x5c#{v\xffa}\x22", shape: b"(str value=\x22#{v\xff\x00}\x22)", full: b"(str value=\x22#{v\xff\x00}\x22 begin=0-1 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_CONTENT 1-7 #{v\xff\x00}\x0atSTRING_END 7-8 \x22\x0aEOF 8-8 " },
    Rec { t: b"'#{v\xffa}'", shape: b"(str value=\x22#{v\xff\x00}\x22)", full: b"(str value=\x22#{v\xff\x00}\x22 begin=0-1 end=6-7 expression=0-7)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 '\x0atSTRING_CONTENT 1-6 #{v\xff\x00}\x0atSTRING_END 6-7 '\x0aEOF 7-7 " },
    Rec { t: b"\x22#\x22", shape: b"(str value=\x22#\x22)", full: b"(str value=\x22#\x22 begin=0-1 end=2-3 expression=0-3)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_CONTENT 1-2 #\x0atSTRING_END 2-3 \x22\x0aEOF 3-3 " },
    Rec { t: b"\x22#a\xfft\x22", shape: b"(str value=\x22#a\xff\x00\x22)", full: b"(str value=\x22#a\xff\x00\x22 begin=0-1 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_CONTENT 1-4 #a\xff\x00\x0atSTRING_END 4-5 \x22\x0aEOF 5-5 " },
    Rec { t: b"\x22a\xfft\x0ab\xfft\x22", shape: b"(str value=\x22a\xff\x00\x0ab\xff\x01\x22)", full: b"(str value=\x22a\xff\x00\x0ab\xff\x01\x22 begin=0-1 end=6-7 expression=0-7)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_CONTENT 1-6 a\xff\x00\x0ab\xff\x01\x0atSTRING_END 6-7 \x22\x0aEOF 7-7 " },
    Rec { t: b"'a\xfft\x0ab\xfft'", shape: b"(str value=\x22a\xff\x00\x0ab\xff\x01\x22)", full: b"(str value=\x22a\xff\x00\x0ab\xff\x01\x22 begin=0-1 end=6-7 expression=0-7)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 '\x0atSTRING_CONTENT 1-6 a\xff\x00\x0ab\xff\x01\x0atSTRING_END 6-7 '\x0aEOF 7-7 " },
    Rec { t: b"\x22a\xfft\x5c\x0ab\xfft\x22", shape: b"(str value=\x22a\xff\x00b\xff\x01\x22)", full: b"(str value=\x22a\xff\x00b\xff\x01\x22 begin=0-1 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_CONTENT 1-7 a\xff\x00b\xff\x01\x0atSTRING_END 7-8 \x22\x0aEOF 8-8 " },
    Rec { t: b"\x22a\xfft\x0d\x0ab\xfft\x22", shape: b"(str value=\x22a\xff\x00\x0ab\xff\x01\x22)", full: b"(str value=\x22a\xff\x00\x0ab\xff\x01\x22 begin=0-1 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_CONTENT 1-7 a\xff\x00\x0ab\xff\x01\x0atSTRING_END 7-8 \x22\x0aEOF 8-8 " },
    Rec { t: b":\x22a\xffa#{v\xffa}\x22", shape: b"(dsym parts=[(str value=\x22a\xff\x00\x22) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[])])])", full: b"(dsym parts=[(str value=\x22a\xff\x00\x22 expression=2-4) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[] selector=6-8 expression=6-8)] begin=4-6 end=8-9 expression=4-9)] begin=0-2 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atSYMBEG 0-2 :\x22\x0atSTRING_CONTENT 2-4 a\xff\x00\x0atSTRING_DBEG 4-6 #{\x0atIDENTIFIER 6-8 v\xff\x01\x0atSTRING_DEND 8-9 }\x0atSTRING_END 9-10 \x22\x0aEOF 10-10 " },
    Rec { t: b":'a#{v\xffa}'", shape: b"(sym name=\x22a#{v\xff\x00}\x22)", full: b"(sym name=\x22a#{v\xff\x00}\x22 begin=0-2 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atSYMBEG 0-2 :'\x0atSTRING_CONTENT 2-8 a#{v\xff\x00}\x0atSTRING_END 8-9 '\x0aEOF 9-9 " },
    Rec { t: b"{\x22a\xffa\x22: \xffd}", shape: b"(hash pairs=[(pair key=(sym name=\x22a\xff\x00\x22) value=(int value=\x22\xff\x01\x22))])", full: b"(hash pairs=[(pair key=(sym name=\x22a\xff\x00\x22 begin=1-2 end=4-5 expression=1-5) value=(int value=\x22\xff\x01\x22 expression=7-8) operator=5-6 expression=1-8)] begin=0-1 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atSTRING_BEG 1-2 \x22\x0atSTRING_CONTENT 2-4 a\xff\x00\x0atLABEL_END 4-6 \x22:\x0atINTEGER 7-8 \xff\x01\x0atRCURLY 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"{\x22a#{v\xffa}\x22: \xffd}", shape: b"(hash pairs=[(pair key=(dsym parts=[(str value=\x22a\x22) (begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])])]) value=(int value=\x22\xff\x01\x22))])", full: b"(hash pairs=[(pair key=(dsym parts=[(str value=\x22a\x22 expression=2-3) (begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7)] begin=3-5 end=7-8 expression=3-8)] begin=1-2 end=8-9 expression=1-9) value=(int value=\x22\xff\x01\x22 expression=11-12) operator=9-10 expression=1-12)] begin=0-1 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atSTRING_BEG 1-2 \x22\x0atSTRING_CONTENT 2-3 a\x0atSTRING_DBEG 3-5 #{\x0atIDENTIFIER 5-7 v\xff\x00\x0atSTRING_DEND 7-8 }\x0atLABEL_END 8-10 \x22:\x0atINTEGER 11-12 \xff\x01\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"{'a\xffa': \xffd}", shape: b"(hash pairs=[(pair key=(sym name=\x22a\xff\x00\x22) value=(int value=\x22\xff\x01\x22))])", full: b"(hash pairs=[(pair key=(sym name=\x22a\xff\x00\x22 begin=1-2 end=4-5 expression=1-5) value=(int value=\x22\xff\x01\x22 expression=7-8) operator=5-6 expression=1-8)] begin=0-1 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atSTRING_BEG 1-2 '\x0atSTRING_CONTENT 2-4 a\xff\x00\x0atLABEL_END 4-6 ':\x0atINTEGER 7-8 \xff\x01\x0atRCURLY 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"`ls #{v\xffa} \xfft`", shape: b"(xstr parts=[(str value=\x22ls \x22) (begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])]) (str value=\x22 \xff\x01\x22)])", full: b"(xstr parts=[(str value=\x22ls \x22 expression=1-4) (begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8)] begin=4-6 end=8-9 expression=4-9) (str value=\x22 \xff\x01\x22 expression=9-11)] begin=0-1 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atXSTRING_BEG 0-1 `\x0atSTRING_CONTENT 1-4 ls \x0atSTRING_DBEG 4-6 #{\x0atIDENTIFIER 6-8 v\xff\x00\x0atSTRING_DEND 8-9 }\x0atSTRING_CONTENT 9-11  \xff\x01\x0atSTRING_END 11-12 `\x0aEOF 12-12 " },
    Rec { t: b"?\xffa", shape: b"(str value=\x22\xff\x00\x22)", full: b"(str value=\x22\xff\x00\x22 begin=0-1 expression=0-2)", diag: b"", toks: b"\x0atCHAR 0-2 \xff\x00\x0aEOF 2-2 " },
    Rec { t: b"?\xffD", shape: b"(str value=\x22\xff\x00\x22)", full: b"(str value=\x22\xff\x00\x22 begin=0-1 expression=0-2)", diag: b"", toks: b"\x0atCHAR 0-2 \xff\x00\x0aEOF 2-2 " },
    Rec { t: b"?\x5cn", shape: b"(str value=\x22\x0a\x22)", full: b"(str value=\x22\x0a\x22 begin=0-1 expression=0-3)", diag: b"", toks: b"\x0atCHAR 0-3 \x0a\x0aEOF 3-3 " },
    Rec { t: b"v\xffa ?\xffa : z\xffa", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(str value=\x22\xff\x01\x22)])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(str value=\x22\xff\x01\x22 begin=3-4 expression=3-5)] selector=0-2 expression=0-5)", diag: b"\x0aE 6-7 unexpected tCOLON", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCHAR 3-5 \xff\x01\x0atCOLON 6-7 :" },
    Rec { t: b"v\xffa ? w\xffa : z\xffa", shape: b"(if_ternary cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22w\xff\x01\x22 args=[]) if_false=(send method_name=\x22z\xff\x02\x22 args=[]))", full: b"(if_ternary cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) if_true=(send method_name=\x22w\xff\x01\x22 args=[] selector=5-7 expression=5-7) if_false=(send method_name=\x22z\xff\x02\x22 args=[] selector=10-12 expression=10-12) question=3-4 colon=8-9 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEH 3-4 ?\x0atIDENTIFIER 5-7 w\xff\x01\x0atCOLON 8-9 :\x0atIDENTIFIER 10-12 z\xff\x02\x0aEOF 12-12 " },
    Rec { t: b"[?\xffa, ?\xffd]", shape: b"(array elements=[(str value=\x22\xff\x00\x22) (str value=\x22\xff\x01\x22)])", full: b"(array elements=[(str value=\x22\xff\x00\x22 begin=1-2 expression=1-3) (str value=\x22\xff\x01\x22 begin=5-6 expression=5-7)] begin=0-1 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atCHAR 1-3 \xff\x00\x0atCOMMA 3-4 ,\x0atCHAR 5-7 \xff\x01\x0atRBRACK 7-8 ]\x0aEOF 8-8 " },
    Rec { t: b"\x22\x22 \x22\x22", shape: b"(dstr parts=[(str value=\x22\x22) (str value=\x22\x22)])", full: b"(dstr parts=[(str value=\x22\x22 begin=0-1 end=1-2 expression=0-2) (str value=\x22\x22 begin=3-4 end=4-5 expression=3-5)] expression=0-5)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_END 1-2 \x22\x0atSTRING_BEG 3-4 \x22\x0atSTRING_END 4-5 \x22\x0aEOF 5-5 " },
    Rec { t: b"''", shape: b"(str value=\x22\x22)", full: b"(str value=\x22\x22 begin=0-1 end=1-2 expression=0-2)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 '\x0atSTRING_END 1-2 '\x0aEOF 2-2 " },
    Rec { t: b"\x22\x22", shape: b"(str value=\x22\x22)", full: b"(str value=\x22\x22 begin=0-1 end=1-2 expression=0-2)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_END 1-2 \x22\x0aEOF 2-2 " },
    Rec { t: b":\x22\x22", shape: b"(dsym parts=[])", full: b"(dsym parts=[] begin=0-2 end=2-3 expression=0-3)", diag: b"", toks: b"\x0atSYMBEG 0-2 :\x22\x0atSTRING_END 2-3 \x22\x0aEOF 3-3 " },
    Rec { t: b":''", shape: b"(dsym parts=[])", full: b"(dsym parts=[] begin=0-2 end=2-3 expression=0-3)", diag: b"", toks: b"\x0atSYMBEG 0-2 :'\x0atSTRING_END 2-3 '\x0aEOF 3-3 " },
    Rec { t: b"%()", shape: b"(str value=\x22\x22)", full: b"(str value=\x22\x22 begin=0-2 end=2-3 expression=0-3)", diag: b"", toks: b"\x0atSTRING_BEG 0-2 %(\x0atSTRING_END 2-3 )\x0aEOF 3-3 " },
    Rec { t: b"\x22\x5c\x5c\xfft\x22", shape: b"(str value=\x22\x5c\xff\x00\x22)", full: b"(str value=\x22\x5c\xff\x00\x22 begin=0-1 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_CONTENT 1-4 \x5c\xff\x00\x0atSTRING_END 4-5 \x22\x0aEOF 5-5 " },
    Rec { t: b"'\x5c\x5c\xfft'", shape: b"(str value=\x22\x5c\xff\x00\x22)", full: b"(str value=\x22\x5c\xff\x00\x22 begin=0-1 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 '\x0atSTRING_CONTENT 1-4 \x5c\xff\x00\x0atSTRING_END 4-5 '\x0aEOF 5-5 " },
    Rec { t: b"'\x5c'\xfft'", shape: b"(str value=\x22'\xff\x00\x22)", full: b"(str value=\x22'\xff\x00\x22 begin=0-1 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 '\x0atSTRING_CONTENT 1-4 '\xff\x00\x0atSTRING_END 4-5 '\x0aEOF 5-5 " },
    Rec { t: b"\x22\x5c\x22\xfft\x22", shape: b"(str value=\x22\x22\xff\x00\x22)", full: b"(str value=\x22\x22\xff\x00\x22 begin=0-1 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_CONTENT 1-4 \x22\xff\x00\x0atSTRING_END 4-5 \x22\x0aEOF 5-5 " },
    Rec { t: b"\x22a\x5cu00e9b\x5cu{1F600}\xfft\x22", shape: b"(str value=\x22a\xc3\xa9b\xf0\x9f\x98\x80\xff\x00\x22)", full: b"(str value=\x22a\xc3\xa9b\xf0\x9f\x98\x80\xff\x00\x22 begin=0-1 end=19-20 expression=0-20)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_CONTENT 1-19 a\xc3\xa9b\xf0\x9f\x98\x80\xff\x00\x0atSTRING_END 19-20 \x22\x0aEOF 20-20 " },
    Rec { t: b":a\xffb?", shape: b"(sym name=\x22a\xff\x00?\x22)", full: b"(sym name=\x22a\xff\x00?\x22 begin=0-1 expression=0-4)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atFID 1-4 a\xff\x00?\x0aEOF 4-4 " },
    Rec { t: b":a\xffb!", shape: b"(sym name=\x22a\xff\x00!\x22)", full: b"(sym name=\x22a\xff\x00!\x22 begin=0-1 expression=0-4)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atFID 1-4 a\xff\x00!\x0aEOF 4-4 " },
    Rec { t: b":a\xffb=", shape: b"(sym name=\x22a\xff\x00=\x22)", full: b"(sym name=\x22a\xff\x00=\x22 begin=0-1 expression=0-4)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atIDENTIFIER 1-4 a\xff\x00=\x0aEOF 4-4 " },
    Rec { t: b":A\xffb", shape: b"(sym name=\x22A\xff\x00\x22)", full: b"(sym name=\x22A\xff\x00\x22 begin=0-1 expression=0-3)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atCONSTANT 1-3 A\xff\x00\x0aEOF 3-3 " },
    Rec { t: b":@a\xffb", shape: b"(sym name=\x22@a\xff\x00\x22)", full: b"(sym name=\x22@a\xff\x00\x22 begin=0-1 expression=0-4)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atIVAR 1-4 @a\xff\x00\x0aEOF 4-4 " },
    Rec { t: b":@@a\xffb", shape: b"(sym name=\x22@@a\xff\x00\x22)", full: b"(sym name=\x22@@a\xff\x00\x22 begin=0-1 expression=0-5)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atCVAR 1-5 @@a\xff\x00\x0aEOF 5-5 " },
    Rec { t: b":$a\xffb", shape: b"(sym name=\x22$a\xff\x00\x22)", full: b"(sym name=\x22$a\xff\x00\x22 begin=0-1 expression=0-4)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atGVAR 1-4 $a\xff\x00\x0aEOF 4-4 " },
    Rec { t: b":+", shape: b"(sym name=\x22+\x22)", full: b"(sym name=\x22+\x22 begin=0-1 expression=0-2)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atPLUS 1-2 +\x0aEOF 2-2 " },
    Rec { t: b":[]", shape: b"(sym name=\x22[]\x22)", full: b"(sym name=\x22[]\x22 begin=0-1 expression=0-3)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atAREF 1-3 []\x0aEOF 3-3 " },
    Rec { t: b":[]=", shape: b"(sym name=\x22[]=\x22)", full: b"(sym name=\x22[]=\x22 begin=0-1 expression=0-4)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atASET 1-4 []=\x0aEOF 4-4 " },
    Rec { t: b":!", shape: b"(sym name=\x22!\x22)", full: b"(sym name=\x22!\x22 begin=0-1 expression=0-2)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atBANG 1-2 !\x0aEOF 2-2 " },
    Rec { t: b":!~", shape: b"(sym name=\x22!~\x22)", full: b"(sym name=\x22!~\x22 begin=0-1 expression=0-3)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atNMATCH 1-3 !~\x0aEOF 3-3 " },
    Rec { t: b":<=>", shape: b"(sym name=\x22<=>\x22)", full: b"(sym name=\x22<=>\x22 begin=0-1 expression=0-4)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atCMP 1-4 <=>\x0aEOF 4-4 " },
    Rec { t: b":==", shape: b"(sym name=\x22==\x22)", full: b"(sym name=\x22==\x22 begin=0-1 expression=0-3)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atEQ 1-3 ==\x0aEOF 3-3 " },
    Rec { t: b":===", shape: b"(sym name=\x22===\x22)", full: b"(sym name=\x22===\x22 begin=0-1 expression=0-4)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atEQQ 1-4 ===\x0aEOF 4-4 " },
    Rec { t: b":=~", shape: b"(sym name=\x22=~\x22)", full: b"(sym name=\x22=~\x22 begin=0-1 expression=0-3)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atMATCH 1-3 =~\x0aEOF 3-3 " },
    Rec { t: b":**", shape: b"(sym name=\x22**\x22)", full: b"(sym name=\x22**\x22 begin=0-1 expression=0-3)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atPOW 1-3 **\x0aEOF 3-3 " },
    Rec { t: b":+@", shape: b"(sym name=\x22+@\x22)", full: b"(sym name=\x22+@\x22 begin=0-1 expression=0-3)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atUPLUS 1-3 +@\x0aEOF 3-3 " },
    Rec { t: b":-@", shape: b"(sym name=\x22-@\x22)", full: b"(sym name=\x22-@\x22 begin=0-1 expression=0-3)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atUMINUS 1-3 -@\x0aEOF 3-3 " },
    Rec { t: b":~", shape: b"(sym name=\x22~\x22)", full: b"(sym name=\x22~\x22 begin=0-1 expression=0-2)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atTILDE 1-2 ~\x0aEOF 2-2 " },
    Rec { t: b":`", shape: b"(sym name=\x22`\x22)", full: b"(sym name=\x22`\x22 begin=0-1 expression=0-2)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atBACK_REF2 1-2 `\x0aEOF 2-2 " },
    Rec { t: b":>>", shape: b"(sym name=\x22>>\x22)", full: b"(sym name=\x22>>\x22 begin=0-1 expression=0-3)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atRSHFT 1-3 >>\x0aEOF 3-3 " },
    Rec { t: b":if", shape: b"(sym name=\x22if\x22)", full: b"(sym name=\x22if\x22 begin=0-1 expression=0-3)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0akIF 1-3 if\x0aEOF 3-3 " },
    Rec { t: b":nil", shape: b"(sym name=\x22nil\x22)", full: b"(sym name=\x22nil\x22 begin=0-1 expression=0-4)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0akNIL 1-4 nil\x0aEOF 4-4 " },
];
pub static NUMBERS: &[Rec] = &[
    Rec { t: b"-\xffd ** \xffD", shape: b"(send recv=(send recv=(int value=\x22\xff\x00\x22) method_name=\x22**\x22 args=[(int value=\x22\xff\x01\x22)]) method_name=\x22-@\x22 args=[])", full: b"(send recv=(send recv=(int value=\x22\xff\x00\x22 expression=1-2) method_name=\x22**\x22 args=[(int value=\x22\xff\x01\x22 expression=6-7)] selector=3-5 expression=1-7) method_name=\x22-@\x22 args=[] selector=0-1 expression=0-7)", diag: b"", toks: b"\x0atUMINUS_NUM 0-1 -\x0atINTEGER 1-2 \xff\x00\x0atPOW 3-5 **\x0atINTEGER 6-7 \xff\x01\x0aEOF 7-7 " },
    Rec { t: b"-\xffd.\xffd ** \xffD", shape: b"(send recv=(send recv=(float value=\x22\xff\x00.\xff\x01\x22) method_name=\x22**\x22 args=[(int value=\x22\xff\x02\x22)]) method_name=\x22-@\x22 args=[])", full: b"(send recv=(send recv=(float value=\x22\xff\x00.\xff\x01\x22 expression=1-4) method_name=\x22**\x22 args=[(int value=\x22\xff\x02\x22 expression=8-9)] selector=5-7 expression=1-9) method_name=\x22-@\x22 args=[] selector=0-1 expression=0-9)", diag: b"", toks: b"\x0atUMINUS_NUM 0-1 -\x0atFLOAT 1-4 \xff\x00.\xff\x01\x0atPOW 5-7 **\x0atINTEGER 8-9 \xff\x02\x0aEOF 9-9 " },
    Rec { t: b"-\xffD.abs", shape: b"(send recv=(int value=\x22-\xff\x00\x22) method_name=\x22abs\x22 args=[])", full: b"(send recv=(int value=\x22-\xff\x00\x22 operator=0-1 expression=0-2) method_name=\x22abs\x22 args=[] dot=2-3 selector=3-6 expression=0-6)", diag: b"", toks: b"\x0atUMINUS_NUM 0-1 -\x0atINTEGER 1-2 \xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-6 abs\x0aEOF 6-6 " },
    Rec { t: b"- \xffD", shape: b"(send recv=(int value=\x22\xff\x00\x22) method_name=\x22-@\x22 args=[])", full: b"(send recv=(int value=\x22\xff\x00\x22 expression=2-3) method_name=\x22-@\x22 args=[] selector=0-1 expression=0-3)", diag: b"", toks: b"\x0atUMINUS 0-1 -\x0atINTEGER 2-3 \xff\x00\x0aEOF 3-3 " },
    Rec { t: b"v\xffa -\xffD", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(int value=\x22-\xff\x01\x22)])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(int value=\x22-\xff\x01\x22 operator=3-4 expression=3-5)] selector=0-2 expression=0-5)", diag: b"\x0aW 3-4 ambiguous first argument; put parentheses or a space even after `-' operator", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atUMINUS_NUM 3-4 -\x0atINTEGER 4-5 \xff\x01\x0aEOF 5-5 " },
    Rec { t: b"v\xffa - \xffD", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22-\x22 args=[(int value=\x22\xff\x01\x22)])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22-\x22 args=[(int value=\x22\xff\x01\x22 expression=5-6)] selector=3-4 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atMINUS 3-4 -\x0atINTEGER 5-6 \xff\x01\x0aEOF 6-6 " },
    Rec { t: b"v\xffa-\xffD", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22-\x22 args=[(int value=\x22\xff\x01\x22)])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22-\x22 args=[(int value=\x22\xff\x01\x22 expression=3-4)] selector=2-3 expression=0-4)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atMINUS 2-3 -\x0atINTEGER 3-4 \xff\x01\x0aEOF 4-4 " },
    Rec { t: b"\xffD-\xffD", shape: b"(send recv=(int value=\x22\xff\x00\x22) method_name=\x22-\x22 args=[(int value=\x22\xff\x01\x22)])", full: b"(send recv=(int value=\x22\xff\x00\x22 expression=0-1) method_name=\x22-\x22 args=[(int value=\x22\xff\x01\x22 expression=2-3)] selector=1-2 expression=0-3)", diag: b"", toks: b"\x0atINTEGER 0-1 \xff\x00\x0atMINUS 1-2 -\x0atINTEGER 2-3 \xff\x01\x0aEOF 3-3 " },
    Rec { t: b"\xffD+\xffD", shape: b"(send recv=(int value=\x22\xff\x00\x22) method_name=\x22+\x22 args=[(int value=\x22\xff\x01\x22)])", full: b"(send recv=(int value=\x22\xff\x00\x22 expression=0-1) method_name=\x22+\x22 args=[(int value=\x22\xff\x01\x22 expression=2-3)] selector=1-2 expression=0-3)", diag: b"", toks: b"\x0atINTEGER 0-1 \xff\x00\x0atPLUS 1-2 +\x0atINTEGER 2-3 \xff\x01\x0aEOF 3-3 " },
    Rec { t: b"\xffD.. -\xffD", shape: b"(irange left=(int value=\x22\xff\x00\x22) right=(int value=\x22-\xff\x01\x22))", full: b"(irange left=(int value=\x22\xff\x00\x22 expression=0-1) right=(int value=\x22-\xff\x01\x22 operator=4-5 expression=4-6) operator=1-3 expression=0-6)", diag: b"", toks: b"\x0atINTEGER 0-1 \xff\x00\x0atDOT2 1-3 ..\x0atUMINUS_NUM 4-5 -\x0atINTEGER 5-6 \xff\x01\x0aEOF 6-6 " },
    Rec { t: b"\xffD..\xffD", shape: b"(irange left=(int value=\x22\xff\x00\x22) right=(int value=\x22\xff\x01\x22))", full: b"(irange left=(int value=\x22\xff\x00\x22 expression=0-1) right=(int value=\x22\xff\x01\x22 expression=3-4) operator=1-3 expression=0-4)", diag: b"", toks: b"\x0atINTEGER 0-1 \xff\x00\x0atDOT2 1-3 ..\x0atINTEGER 3-4 \xff\x01\x0aEOF 4-4 " },
    Rec { t: b"\xffD...\xffD", shape: b"(erange left=(int value=\x22\xff\x00\x22) right=(int value=\x22\xff\x01\x22))", full: b"(erange left=(int value=\x22\xff\x00\x22 expression=0-1) right=(int value=\x22\xff\x01\x22 expression=4-5) operator=1-4 expression=0-5)", diag: b"", toks: b"\x0atINTEGER 0-1 \xff\x00\x0atDOT3 1-4 ...\x0atINTEGER 4-5 \xff\x01\x0aEOF 5-5 " },
    Rec { t: b"\xffD.\xffD.\xffD", shape: b"(float value=\x22\xff\x00.\xff\x01\x22)", full: b"(float value=\x22\xff\x00.\xff\x01\x22 expression=0-3)", diag: b"\x0aE 3-5 unexpected fraction part after numeric literal", toks: b"\x0atFLOAT 0-3 \xff\x00.\xff\x01\x0aEOF 5-5 .\xff\x02" },
    Rec { t: b"\xffD.x\xffa", shape: b"(send recv=(int value=\x22\xff\x00\x22) method_name=\x22x\xff\x01\x22 args=[])", full: b"(send recv=(int value=\x22\xff\x00\x22 expression=0-1) method_name=\x22x\xff\x01\x22 args=[] dot=1-2 selector=2-4 expression=0-4)", diag: b"", toks: b"\x0atINTEGER 0-1 \xff\x00\x0atDOT 1-2 .\x0atIDENTIFIER 2-4 x\xff\x01\x0aEOF 4-4 " },
    Rec { t: b"\xffD.e", shape: b"(send recv=(int value=\x22\xff\x00\x22) method_name=\x22e\x22 args=[])", full: b"(send recv=(int value=\x22\xff\x00\x22 expression=0-1) method_name=\x22e\x22 args=[] dot=1-2 selector=2-3 expression=0-3)", diag: b"", toks: b"\x0atINTEGER 0-1 \xff\x00\x0atDOT 1-2 .\x0atIDENTIFIER 2-3 e\x0aEOF 3-3 " },
    Rec { t: b"\xffD._\xffa", shape: b"(send recv=(int value=\x22\xff\x00\x22) method_name=\x22_\xff\x01\x22 args=[])", full: b"(send recv=(int value=\x22\xff\x00\x22 expression=0-1) method_name=\x22_\xff\x01\x22 args=[] dot=1-2 selector=2-4 expression=0-4)", diag: b"", toks: b"\x0atINTEGER 0-1 \xff\x00\x0atDOT 1-2 .\x0atIDENTIFIER 2-4 _\xff\x01\x0aEOF 4-4 " },
    Rec { t: b"\xffD.times", shape: b"(send recv=(int value=\x22\xff\x00\x22) method_name=\x22times\x22 args=[])", full: b"(send recv=(int value=\x22\xff\x00\x22 expression=0-1) method_name=\x22times\x22 args=[] dot=1-2 selector=2-7 expression=0-7)", diag: b"", toks: b"\x0atINTEGER 0-1 \xff\x00\x0atDOT 1-2 .\x0atIDENTIFIER 2-7 times\x0aEOF 7-7 " },
    Rec { t: b"-\xffD.5r", shape: b"(rational value=\x22-\xff\x00.5r\x22)", full: b"(rational value=\x22-\xff\x00.5r\x22 operator=0-1 expression=0-5)", diag: b"", toks: b"\x0atUMINUS_NUM 0-1 -\x0atRATIONAL 1-5 \xff\x00.5r\x0aEOF 5-5 " },
    Rec { t: b"-\xffDi", shape: b"(complex value=\x22-\xff\x00i\x22)", full: b"(complex value=\x22-\xff\x00i\x22 operator=0-1 expression=0-3)", diag: b"", toks: b"\x0atUMINUS_NUM 0-1 -\x0atIMAGINARY 1-3 \xff\x00i\x0aEOF 3-3 " },
    Rec { t: b"+\xffD", shape: b"(int value=\x22+\xff\x00\x22)", full: b"(int value=\x22+\xff\x00\x22 expression=0-2)", diag: b"", toks: b"\x0atINTEGER 0-2 +\xff\x00\x0aEOF 2-2 " },
    Rec { t: b"+\xffD.5", shape: b"(float value=\x22+\xff\x00.5\x22)", full: b"(float value=\x22+\xff\x00.5\x22 expression=0-4)", diag: b"", toks: b"\x0atFLOAT 0-4 +\xff\x00.5\x0aEOF 4-4 " },
    Rec { t: b"~\xffD", shape: b"(send recv=(int value=\x22\xff\x00\x22) method_name=\x22~\x22 args=[])", full: b"(send recv=(int value=\x22\xff\x00\x22 expression=1-2) method_name=\x22~\x22 args=[] selector=0-1 expression=0-2)", diag: b"", toks: b"\x0atTILDE 0-1 ~\x0atINTEGER 1-2 \xff\x00\x0aEOF 2-2 " },
    Rec { t: b"!\xffD", shape: b"(send recv=(int value=\x22\xff\x00\x22) method_name=\x22!\x22 args=[])", full: b"(send recv=(int value=\x22\xff\x00\x22 expression=1-2) method_name=\x22!\x22 args=[] selector=0-1 expression=0-2)", diag: b"", toks: b"\x0atBANG 0-1 !\x0atINTEGER 1-2 \xff\x00\x0aEOF 2-2 " },
    Rec { t: b"2**-\xffD", shape: b"(send recv=(int value=\x222\x22) method_name=\x22**\x22 args=[(int value=\x22-\xff\x00\x22)])", full: b"(send recv=(int value=\x222\x22 expression=0-1) method_name=\x22**\x22 args=[(int value=\x22-\xff\x00\x22 operator=3-4 expression=3-5)] selector=1-3 expression=0-5)", diag: b"", toks: b"\x0atINTEGER 0-1 2\x0atPOW 1-3 **\x0atUMINUS_NUM 3-4 -\x0atINTEGER 4-5 \xff\x00\x0aEOF 5-5 " },
    Rec { t: b"[-\xffD, +\xffD]", shape: b"(array elements=[(int value=\x22-\xff\x00\x22) (int value=\x22+\xff\x01\x22)])", full: b"(array elements=[(int value=\x22-\xff\x00\x22 operator=1-2 expression=1-3) (int value=\x22+\xff\x01\x22 expression=5-7)] begin=0-1 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atUMINUS_NUM 1-2 -\x0atINTEGER 2-3 \xff\x00\x0atCOMMA 3-4 ,\x0atINTEGER 5-7 +\xff\x01\x0atRBRACK 7-8 ]\x0aEOF 8-8 " },
    Rec { t: b"x\xffa -\xffD", shape: b"(send method_name=\x22x\xff\x00\x22 args=[(int value=\x22-\xff\x01\x22)])", full: b"(send method_name=\x22x\xff\x00\x22 args=[(int value=\x22-\xff\x01\x22 operator=3-4 expression=3-5)] selector=0-2 expression=0-5)", diag: b"\x0aW 3-4 ambiguous first argument; put parentheses or a space even after `-' operator", toks: b"\x0atIDENTIFIER 0-2 x\xff\x00\x0atUMINUS_NUM 3-4 -\x0atINTEGER 4-5 \xff\x01\x0aEOF 5-5 " },
    Rec { t: b"x\xffa(-\xffD)", shape: b"(send method_name=\x22x\xff\x00\x22 args=[(int value=\x22-\xff\x01\x22)])", full: b"(send method_name=\x22x\xff\x00\x22 args=[(int value=\x22-\xff\x01\x22 operator=3-4 expression=3-5)] selector=0-2 begin=2-3 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 x\xff\x00\x0atLPAREN2 2-3 (\x0atUMINUS_NUM 3-4 -\x0atINTEGER 4-5 \xff\x01\x0atRPAREN 5-6 )\x0aEOF 6-6 " },
    Rec { t: b"x\xffa +\xffD", shape: b"(send method_name=\x22x\xff\x00\x22 args=[(int value=\x22+\xff\x01\x22)])", full: b"(send method_name=\x22x\xff\x00\x22 args=[(int value=\x22+\xff\x01\x22 expression=3-5)] selector=0-2 expression=0-5)", diag: b"\x0aW 3-4 ambiguous first argument; put parentheses or a space even after `+' operator", toks: b"\x0atIDENTIFIER 0-2 x\xff\x00\x0atINTEGER 3-5 +\xff\x01\x0aEOF 5-5 " },
    Rec { t: b"1__0", shape: b"(int value=\x221__\x22)", full: b"(int value=\x221__\x22 expression=1-2)", diag: b"\x0aE 1-2 trailing `_' in number\x0aE 2-4 unexpected tIDENTIFIER", toks: b"\x0atINTEGER 1-2 1__\x0atIDENTIFIER 2-4 _0" },
    Rec { t: b"1_", shape: b"(int value=\x221_\x22)", full: b"(int value=\x221_\x22 expression=1-2)", diag: b"\x0aE 1-2 trailing `_' in number", toks: b"\x0atINTEGER 1-2 1_\x0aEOF 2-2 " },
    Rec { t: b"0_8", shape: b"(int value=\x220_8\x22)", full: b"(int value=\x220_8\x22 expression=0-3)", diag: b"\x0aE 0-3 Invalid octal digit\x0aE 0-3 Invalid octal digit", toks: b"\x0atINTEGER 0-3 0_8\x0aEOF 3-3 " },
    Rec { t: b"08", shape: b"(int value=\x2208\x22)", full: b"(int value=\x2208\x22 expression=0-2)", diag: b"\x0aE 0-2 Invalid octal digit", toks: b"\x0atINTEGER 0-2 08\x0aEOF 2-2 " },
    Rec { t: b"0b", shape: b"(int value=\x220\x22)", full: b"(int value=\x220\x22 expression=0-2)", diag: b"\x0aE 0-2 numeric literal without digits", toks: b"\x0atINTEGER 0-2 0\x0aEOF 2-2 " },
    Rec { t: b"0b2", shape: b"(int value=\x220\x22)", full: b"(int value=\x220\x22 expression=0-2)", diag: b"\x0aE 0-2 numeric literal without digits\x0aE 2-3 unexpected tINTEGER", toks: b"\x0atINTEGER 0-2 0\x0atINTEGER 2-3 2" },
    Rec { t: b"0x", shape: b"(int value=\x220\x22)", full: b"(int value=\x220\x22 expression=0-2)", diag: b"\x0aE 0-2 numeric literal without digits", toks: b"\x0atINTEGER 0-2 0\x0aEOF 2-2 " },
    Rec { t: b"0xg", shape: b"(int value=\x220\x22)", full: b"(int value=\x220\x22 expression=0-2)", diag: b"\x0aE 0-2 numeric literal without digits\x0aE 2-3 unexpected tIDENTIFIER", toks: b"\x0atINTEGER 0-2 0\x0atIDENTIFIER 2-3 g" },
    Rec { t: b"0o", shape: b"(int value=\x220\x22)", full: b"(int value=\x220\x22 expression=0-2)", diag: b"\x0aE 0-2 numeric literal without digits", toks: b"\x0atINTEGER 0-2 0\x0aEOF 2-2 " },
    Rec { t: b"0o8", shape: b"(int value=\x220o8\x22)", full: b"(int value=\x220o8\x22 expression=0-3)", diag: b"\x0aE 0-3 Invalid octal digit", toks: b"\x0atINTEGER 0-3 0o8\x0aEOF 3-3 " },
    Rec { t: b"0d", shape: b"(int value=\x220\x22)", full: b"(int value=\x220\x22 expression=0-2)", diag: b"\x0aE 0-2 numeric literal without digits", toks: b"\x0atINTEGER 0-2 0\x0aEOF 2-2 " },
    Rec { t: b"0d_1", shape: b"(int value=\x220\x22)", full: b"(int value=\x220\x22 expression=0-3)", diag: b"\x0aE 0-2 numeric literal without digits\x0aE 3-4 unexpected tINTEGER", toks: b"\x0atINTEGER 0-3 0\x0atINTEGER 3-4 1" },
    Rec { t: b"1e", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=0-1)", diag: b"\x0aE 1-2 unexpected tIDENTIFIER", toks: b"\x0atINTEGER 0-1 1\x0atIDENTIFIER 1-2 e" },
    Rec { t: b"1e+", shape: b"(float value=\x221e+\x22)", full: b"(float value=\x221e+\x22 expression=2-3)", diag: b"\x0aE 2-3 trailing `+' in number", toks: b"\x0atFLOAT 2-3 1e+\x0aEOF 3-3 " },
    Rec { t: b"1.e1", shape: b"(send recv=(int value=\x221\x22) method_name=\x22e1\x22 args=[])", full: b"(send recv=(int value=\x221\x22 expression=0-1) method_name=\x22e1\x22 args=[] dot=1-2 selector=2-4 expression=0-4)", diag: b"", toks: b"\x0atINTEGER 0-1 1\x0atDOT 1-2 .\x0atIDENTIFIER 2-4 e1\x0aEOF 4-4 " },
    Rec { t: b"1._1", shape: b"(send recv=(int value=\x221\x22) method_name=\x22_1\x22 args=[])", full: b"(send recv=(int value=\x221\x22 expression=0-1) method_name=\x22_1\x22 args=[] dot=1-2 selector=2-4 expression=0-4)", diag: b"", toks: b"\x0atINTEGER 0-1 1\x0atDOT 1-2 .\x0atIDENTIFIER 2-4 _1\x0aEOF 4-4 " },
    Rec { t: b"1.0_", shape: b"(float value=\x221.0_\x22)", full: b"(float value=\x221.0_\x22 expression=3-4)", diag: b"\x0aE 3-4 trailing `_' in number", toks: b"\x0atFLOAT 3-4 1.0_\x0aEOF 4-4 " },
    Rec { t: b"1_.0", shape: b"none", full: b"none", diag: b"\x0aE 2-3 trailing `_' in number", toks: b"\x0aEOF 2-3 ." },
    Rec { t: b"1e_1", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=0-1)", diag: b"\x0aE 1-4 unexpected tIDENTIFIER", toks: b"\x0atINTEGER 0-1 1\x0atIDENTIFIER 1-4 e_1" },
    Rec { t: b"1r1", shape: b"(rational value=\x221r\x22)", full: b"(rational value=\x221r\x22 expression=0-2)", diag: b"\x0aE 2-3 unexpected tINTEGER", toks: b"\x0atRATIONAL 0-2 1r\x0atINTEGER 2-3 1" },
    Rec { t: b"1ir", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=0-1)", diag: b"\x0aE 1-3 unexpected tIDENTIFIER", toks: b"\x0atINTEGER 0-1 1\x0atIDENTIFIER 1-3 ir" },
    Rec { t: b"1e1r", shape: b"(float value=\x221e1\x22)", full: b"(float value=\x221e1\x22 expression=0-3)", diag: b"\x0aE 3-4 unexpected tIDENTIFIER", toks: b"\x0atFLOAT 0-3 1e1\x0atIDENTIFIER 3-4 r" },
    Rec { t: b"1.0e1r", shape: b"(float value=\x221.0e1\x22)", full: b"(float value=\x221.0e1\x22 expression=0-5)", diag: b"\x0aE 5-6 unexpected tIDENTIFIER", toks: b"\x0atFLOAT 0-5 1.0e1\x0atIDENTIFIER 5-6 r" },
    Rec { t: b"0xfr", shape: b"(rational value=\x220xfr\x22)", full: b"(rational value=\x220xfr\x22 expression=0-4)", diag: b"", toks: b"\x0atRATIONAL 0-4 0xfr\x0aEOF 4-4 " },
    Rec { t: b"0b1i", shape: b"(complex value=\x220b1i\x22)", full: b"(complex value=\x220b1i\x22 expression=0-4)", diag: b"", toks: b"\x0atIMAGINARY 0-4 0b1i\x0aEOF 4-4 " },
    Rec { t: b"0o7ri", shape: b"(complex value=\x220o7ri\x22)", full: b"(complex value=\x220o7ri\x22 expression=0-5)", diag: b"", toks: b"\x0atIMAGINARY 0-5 0o7ri\x0aEOF 5-5 " },
    Rec { t: b"017r", shape: b"(rational value=\x22017r\x22)", full: b"(rational value=\x22017r\x22 expression=0-4)", diag: b"", toks: b"\x0atRATIONAL 0-4 017r\x0aEOF 4-4 " },
    Rec { t: b"0i", shape: b"(complex value=\x220i\x22)", full: b"(complex value=\x220i\x22 expression=0-2)", diag: b"", toks: b"\x0atIMAGINARY 0-2 0i\x0aEOF 2-2 " },
    Rec { t: b"0r", shape: b"(rational value=\x220r\x22)", full: b"(rational value=\x220r\x22 expression=0-2)", diag: b"", toks: b"\x0atRATIONAL 0-2 0r\x0aEOF 2-2 " },
    Rec { t: b"0e0", shape: b"(float value=\x220e0\x22)", full: b"(float value=\x220e0\x22 expression=0-3)", diag: b"", toks: b"\x0atFLOAT 0-3 0e0\x0aEOF 3-3 " },
    Rec { t: b"0.0", shape: b"(float value=\x220.0\x22)", full: b"(float value=\x220.0\x22 expression=0-3)", diag: b"", toks: b"\x0atFLOAT 0-3 0.0\x0aEOF 3-3 " },
    Rec { t: b"0.0r", shape: b"(rational value=\x220.0r\x22)", full: b"(rational value=\x220.0r\x22 expression=0-4)", diag: b"", toks: b"\x0atRATIONAL 0-4 0.0r\x0aEOF 4-4 " },
    Rec { t: b"1.", shape: b"none", full: b"none", diag: b"\x0aE 2-2 unexpected END_OF_INPUT", toks: b"\x0atINTEGER 0-1 1\x0atDOT 1-2 .\x0aEOF 2-2 " },
    Rec { t: b"1..", shape: b"(irange left=(int value=\x221\x22))", full: b"(irange left=(int value=\x221\x22 expression=0-1) operator=1-3 expression=0-3)", diag: b"", toks: b"\x0atINTEGER 0-1 1\x0atDOT2 1-3 ..\x0aEOF 3-3 " },
    Rec { t: b"10_00.0_5e-1_0i", shape: b"(complex value=\x2210_00.0_5e-1_0i\x22)", full: b"(complex value=\x2210_00.0_5e-1_0i\x22 expression=0-15)", diag: b"", toks: b"\x0atIMAGINARY 0-15 10_00.0_5e-1_0i\x0aEOF 15-15 " },
];
pub static PERCENT: &[Rec] = &[
    Rec { t: b"%w[a\xffa b\xffa]", shape: b"(array elements=[(str value=\x22a\xff\x00\x22) (str value=\x22b\xff\x01\x22)])", full: b"(array elements=[(str value=\x22a\xff\x00\x22 expression=3-5) (str value=\x22b\xff\x01\x22 expression=6-8)] begin=0-3 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atQWORDS_BEG 0-3 %w[\x0atSPACE 3-3 \x0atSTRING_CONTENT 3-5 a\xff\x00\x0atSPACE 5-6  \x0atSTRING_CONTENT 6-8 b\xff\x01\x0atSPACE 8-8 \x0atSTRING_END 8-9 ]\x0aEOF 9-9 " },
    Rec { t: b"%w[]", shape: b"(array elements=[])", full: b"(array elements=[] begin=0-3 end=3-4 expression=0-4)", diag: b"", toks: b"\x0atQWORDS_BEG 0-3 %w[\x0atSPACE 3-3 \x0atSTRING_END 3-4 ]\x0aEOF 4-4 " },
    Rec { t: b"%w( )", shape: b"(array elements=[])", full: b"(array elements=[] begin=0-3 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atQWORDS_BEG 0-3 %w(\x0atSPACE 3-4  \x0atSTRING_END 4-5 )\x0aEOF 5-5 " },
    Rec { t: b"%w[a\xffa\x0ab\xffa\x09c\xffa]", shape: b"(array elements=[(str value=\x22a\xff\x00\x22) (str value=\x22b\xff\x01\x22) (str value=\x22c\xff\x02\x22)])", full: b"(array elements=[(str value=\x22a\xff\x00\x22 expression=3-5) (str value=\x22b\xff\x01\x22 expression=6-8) (str value=\x22c\xff\x02\x22 expression=9-11)] begin=0-3 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atQWORDS_BEG 0-3 %w[\x0atSPACE 3-3 \x0atSTRING_CONTENT 3-5 a\xff\x00\x0atSPACE 5-6 \x0a\x0atSTRING_CONTENT 6-8 b\xff\x01\x0atSPACE 8-9 \x09\x0atSTRING_CONTENT 9-11 c\xff\x02\x0atSPACE 11-11 \x0atSTRING_END 11-12 ]\x0aEOF 12-12 " },
    Rec { t: b"%w[a\x5c a\xffa]", shape: b"(array elements=[(str value=\x22a a\xff\x00\x22)])", full: b"(array elements=[(str value=\x22a a\xff\x00\x22 expression=3-8)] begin=0-3 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atQWORDS_BEG 0-3 %w[\x0atSPACE 3-3 \x0atSTRING_CONTENT 3-8 a a\xff\x00\x0atSPACE 8-8 \x0atSTRING_END 8-9 ]\x0aEOF 9-9 " },
    Rec { t: b"%w[a[b\xffa] c]", shape: b"(array elements=[(str value=\x22a[b\xff\x00]\x22) (str value=\x22c\x22)])", full: b"(array elements=[(str value=\x22a[b\xff\x00]\x22 expression=3-8) (str value=\x22c\x22 expression=9-10)] begin=0-3 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atQWORDS_BEG 0-3 %w[\x0atSPACE 3-3 \x0atSTRING_CONTENT 3-8 a[b\xff\x00]\x0atSPACE 8-9  \x0atSTRING_CONTENT 9-10 c\x0atSPACE 10-10 \x0atSTRING_END 10-11 ]\x0aEOF 11-11 " },
    Rec { t: b"%w(a\x5c(\xffa)", shape: b"(array elements=[(str value=\x22a(\xff\x00\x22)])", full: b"(array elements=[(str value=\x22a(\xff\x00\x22 expression=3-7)] begin=0-3 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atQWORDS_BEG 0-3 %w(\x0atSPACE 3-3 \x0atSTRING_CONTENT 3-7 a(\xff\x00\x0atSPACE 7-7 \x0atSTRING_END 7-8 )\x0aEOF 8-8 " },
    Rec { t: b"%w[#{a\xffa} b\xffa]", shape: b"(array elements=[(str value=\x22#{a\xff\x00}\x22) (str value=\x22b\xff\x01\x22)])", full: b"(array elements=[(str value=\x22#{a\xff\x00}\x22 expression=3-8) (str value=\x22b\xff\x01\x22 expression=9-11)] begin=0-3 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atQWORDS_BEG 0-3 %w[\x0atSPACE 3-3 \x0atSTRING_CONTENT 3-8 #{a\xff\x00}\x0atSPACE 8-9  \x0atSTRING_CONTENT 9-11 b\xff\x01\x0atSPACE 11-11 \x0atSTRING_END 11-12 ]\x0aEOF 12-12 " },
    Rec { t: b"%W[a\xffa#{v\xffa} b\xffa]", shape: b"(array elements=[(dstr parts=[(str value=\x22a\xff\x00\x22) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[])])]) (str value=\x22b\xff\x02\x22)])", full: b"(array elements=[(dstr parts=[(str value=\x22a\xff\x00\x22 expression=3-5) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[] selector=7-9 expression=7-9)] begin=5-7 end=9-10 expression=5-10)] expression=3-10) (str value=\x22b\xff\x02\x22 expression=11-13)] begin=0-3 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atWORDS_BEG 0-3 %W[\x0atSPACE 3-3 \x0atSTRING_CONTENT 3-5 a\xff\x00\x0atSTRING_DBEG 5-7 #{\x0atIDENTIFIER 7-9 v\xff\x01\x0atSTRING_DEND 9-10 }\x0atSPACE 10-11  \x0atSTRING_CONTENT 11-13 b\xff\x02\x0atSPACE 13-13 \x0atSTRING_END 13-14 ]\x0aEOF 14-14 " },
    Rec { t: b"%W[#{v\xffa}b\xffa c]", shape: b"(array elements=[(dstr parts=[(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])]) (str value=\x22b\xff\x01\x22)]) (str value=\x22c\x22)])", full: b"(array elements=[(dstr parts=[(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7)] begin=3-5 end=7-8 expression=3-8) (str value=\x22b\xff\x01\x22 expression=8-10)] expression=3-10) (str value=\x22c\x22 expression=11-12)] begin=0-3 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atWORDS_BEG 0-3 %W[\x0atSPACE 3-3 \x0atSTRING_DBEG 3-5 #{\x0atIDENTIFIER 5-7 v\xff\x00\x0atSTRING_DEND 7-8 }\x0atSTRING_CONTENT 8-10 b\xff\x01\x0atSPACE 10-11  \x0atSTRING_CONTENT 11-12 c\x0atSPACE 12-12 \x0atSTRING_END 12-13 ]\x0aEOF 13-13 " },
    Rec { t: b"%W[#{v\xffa}#{w\xffa} \xffd]", shape: b"(array elements=[(dstr parts=[(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])]) (begin statements=[(send method_name=\x22w\xff\x01\x22 args=[])])]) (str value=\x22\xff\x02\x22)])", full: b"(array elements=[(dstr parts=[(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7)] begin=3-5 end=7-8 expression=3-8) (begin statements=[(send method_name=\x22w\xff\x01\x22 args=[] selector=10-12 expression=10-12)] begin=8-10 end=12-13 expression=8-13)] expression=3-13) (str value=\x22\xff\x02\x22 expression=14-15)] begin=0-3 end=15-16 expression=0-16)", diag: b"", toks: b"\x0atWORDS_BEG 0-3 %W[\x0atSPACE 3-3 \x0atSTRING_DBEG 3-5 #{\x0atIDENTIFIER 5-7 v\xff\x00\x0atSTRING_DEND 7-8 }\x0atSTRING_DBEG 8-10 #{\x0atIDENTIFIER 10-12 w\xff\x01\x0atSTRING_DEND 12-13 }\x0atSPACE 13-14  \x0atSTRING_CONTENT 14-15 \xff\x02\x0atSPACE 15-15 \x0atSTRING_END 15-16 ]\x0aEOF 16-16 " },
    Rec { t: b"%W[#{v\xffa} #{w\xffa}]", shape: b"(array elements=[(dstr parts=[(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])])]) (dstr parts=[(begin statements=[(send method_name=\x22w\xff\x01\x22 args=[])])])])", full: b"(array elements=[(dstr parts=[(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7)] begin=3-5 end=7-8 expression=3-8)] expression=3-8) (dstr parts=[(begin statements=[(send method_name=\x22w\xff\x01\x22 args=[] selector=11-13 expression=11-13)] begin=9-11 end=13-14 expression=9-14)] expression=9-14)] begin=0-3 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atWORDS_BEG 0-3 %W[\x0atSPACE 3-3 \x0atSTRING_DBEG 3-5 #{\x0atIDENTIFIER 5-7 v\xff\x00\x0atSTRING_DEND 7-8 }\x0atSPACE 8-9  \x0atSTRING_DBEG 9-11 #{\x0atIDENTIFIER 11-13 w\xff\x01\x0atSTRING_DEND 13-14 }\x0atSPACE 14-14 \x0atSTRING_END 14-15 ]\x0aEOF 15-15 " },
    Rec { t: b"%W[a#@v\xffa #$w\xffa]", shape: b"(array elements=[(dstr parts=[(str value=\x22a\x22) (ivar name=\x22@v\xff\x00\x22)]) (dstr parts=[(gvar name=\x22$w\xff\x01\x22)])])", full: b"(array elements=[(dstr parts=[(str value=\x22a\x22 expression=3-4) (ivar name=\x22@v\xff\x00\x22 expression=5-8)] expression=3-8) (dstr parts=[(gvar name=\x22$w\xff\x01\x22 expression=10-13)] expression=10-13)] begin=0-3 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atWORDS_BEG 0-3 %W[\x0atSPACE 3-3 \x0atSTRING_CONTENT 3-4 a\x0atSTRING_DVAR 4-5 #\x0atIVAR 5-8 @v\xff\x00\x0atSPACE 8-9  \x0atSTRING_DVAR 9-10 #\x0atGVAR 10-13 $w\xff\x01\x0atSPACE 13-13 \x0atSTRING_END 13-14 ]\x0aEOF 14-14 " },
    Rec { t: b"%W[\x5c#{a\xffa}]", shape: b"(array elements=[(str value=\x22#{a\xff\x00}\x22)])", full: b"(array elements=[(str value=\x22#{a\xff\x00}\x22 expression=3-9)] begin=0-3 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atWORDS_BEG 0-3 %W[\x0atSPACE 3-3 \x0atSTRING_CONTENT 3-9 #{a\xff\x00}\x0atSPACE 9-9 \x0atSTRING_END 9-10 ]\x0aEOF 10-10 " },
    Rec { t: b"%W[a\x5ctb\xffa]", shape: b"(array elements=[(str value=\x22a\x09b\xff\x00\x22)])", full: b"(array elements=[(str value=\x22a\x09b\xff\x00\x22 expression=3-8)] begin=0-3 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atWORDS_BEG 0-3 %W[\x0atSPACE 3-3 \x0atSTRING_CONTENT 3-8 a\x09b\xff\x00\x0atSPACE 8-8 \x0atSTRING_END 8-9 ]\x0aEOF 9-9 " },
    Rec { t: b"%W[a\xffa\x5c b\xffa]", shape: b"(array elements=[(str value=\x22a\xff\x00 b\xff\x01\x22)])", full: b"(array elements=[(str value=\x22a\xff\x00 b\xff\x01\x22 expression=3-9)] begin=0-3 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atWORDS_BEG 0-3 %W[\x0atSPACE 3-3 \x0atSTRING_CONTENT 3-9 a\xff\x00 b\xff\x01\x0atSPACE 9-9 \x0atSTRING_END 9-10 ]\x0aEOF 10-10 " },
    Rec { t: b"%W[a\xffa\x5c\x0ab\xffa c\xffa]", shape: b"(array elements=[(str value=\x22a\xff\x00\x0ab\xff\x01\x22) (str value=\x22c\xff\x02\x22)])", full: b"(array elements=[(str value=\x22a\xff\x00\x0ab\xff\x01\x22 expression=3-9) (str value=\x22c\xff\x02\x22 expression=10-12)] begin=0-3 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atWORDS_BEG 0-3 %W[\x0atSPACE 3-3 \x0atSTRING_CONTENT 3-9 a\xff\x00\x0ab\xff\x01\x0atSPACE 9-10  \x0atSTRING_CONTENT 10-12 c\xff\x02\x0atSPACE 12-12 \x0atSTRING_END 12-13 ]\x0aEOF 13-13 " },
    Rec { t: b"%W[]", shape: b"(array elements=[])", full: b"(array elements=[] begin=0-3 end=3-4 expression=0-4)", diag: b"", toks: b"\x0atWORDS_BEG 0-3 %W[\x0atSPACE 3-3 \x0atSTRING_END 3-4 ]\x0aEOF 4-4 " },
    Rec { t: b"%W( \x0a )", shape: b"(array elements=[])", full: b"(array elements=[] begin=0-3 end=6-7 expression=0-7)", diag: b"", toks: b"\x0atWORDS_BEG 0-3 %W(\x0atSPACE 3-6  \x0a \x0atSTRING_END 6-7 )\x0aEOF 7-7 " },
    Rec { t: b"%i[a\xffa b\xffa]", shape: b"(array elements=[(sym name=\x22a\xff\x00\x22) (sym name=\x22b\xff\x01\x22)])", full: b"(array elements=[(sym name=\x22a\xff\x00\x22 expression=3-5) (sym name=\x22b\xff\x01\x22 expression=6-8)] begin=0-3 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atQSYMBOLS_BEG 0-3 %i[\x0atSPACE 3-3 \x0atSTRING_CONTENT 3-5 a\xff\x00\x0atSPACE 5-6  \x0atSTRING_CONTENT 6-8 b\xff\x01\x0atSPACE 8-8 \x0atSTRING_END 8-9 ]\x0aEOF 9-9 " },
    Rec { t: b"%i[]", shape: b"(array elements=[])", full: b"(array elements=[] begin=0-3 end=3-4 expression=0-4)", diag: b"", toks: b"\x0atQSYMBOLS_BEG 0-3 %i[\x0atSPACE 3-3 \x0atSTRING_END 3-4 ]\x0aEOF 4-4 " },
    Rec { t: b"%i[a#{b\xffa} c\xffa]", shape: b"(array elements=[(sym name=\x22a#{b\xff\x00}\x22) (sym name=\x22c\xff\x01\x22)])", full: b"(array elements=[(sym name=\x22a#{b\xff\x00}\x22 expression=3-9) (sym name=\x22c\xff\x01\x22 expression=10-12)] begin=0-3 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atQSYMBOLS_BEG 0-3 %i[\x0atSPACE 3-3 \x0atSTRING_CONTENT 3-9 a#{b\xff\x00}\x0atSPACE 9-10  \x0atSTRING_CONTENT 10-12 c\xff\x01\x0atSPACE 12-12 \x0atSTRING_END 12-13 ]\x0aEOF 13-13 " },
    Rec { t: b"%I[a\xffa#{v\xffa} b\xffa]", shape: b"(array elements=[(dsym parts=[(str value=\x22a\xff\x00\x22) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[])])]) (sym name=\x22b\xff\x02\x22)])", full: b"(array elements=[(dsym parts=[(str value=\x22a\xff\x00\x22 expression=3-5) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[] selector=7-9 expression=7-9)] begin=5-7 end=9-10 expression=5-10)] expression=3-10) (sym name=\x22b\xff\x02\x22 expression=11-13)] begin=0-3 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atSYMBOLS_BEG 0-3 %I[\x0atSPACE 3-3 \x0atSTRING_CONTENT 3-5 a\xff\x00\x0atSTRING_DBEG 5-7 #{\x0atIDENTIFIER 7-9 v\xff\x01\x0atSTRING_DEND 9-10 }\x0atSPACE 10-11  \x0atSTRING_CONTENT 11-13 b\xff\x02\x0atSPACE 13-13 \x0atSTRING_END 13-14 ]\x0aEOF 14-14 " },
    Rec { t: b"%I[#{v\xffa}]", shape: b"(array elements=[(dsym parts=[(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])])])])", full: b"(array elements=[(dsym parts=[(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7)] begin=3-5 end=7-8 expression=3-8)] expression=3-8)] begin=0-3 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atSYMBOLS_BEG 0-3 %I[\x0atSPACE 3-3 \x0atSTRING_DBEG 3-5 #{\x0atIDENTIFIER 5-7 v\xff\x00\x0atSTRING_DEND 7-8 }\x0atSPACE 8-8 \x0atSTRING_END 8-9 ]\x0aEOF 9-9 " },
    Rec { t: b"%I[]", shape: b"(array elements=[])", full: b"(array elements=[] begin=0-3 end=3-4 expression=0-4)", diag: b"", toks: b"\x0atSYMBOLS_BEG 0-3 %I[\x0atSPACE 3-3 \x0atSTRING_END 3-4 ]\x0aEOF 4-4 " },
    Rec { t: b"%I[a\x5ctb\xffa]", shape: b"(array elements=[(sym name=\x22a\x09b\xff\x00\x22)])", full: b"(array elements=[(sym name=\x22a\x09b\xff\x00\x22 expression=3-8)] begin=0-3 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atSYMBOLS_BEG 0-3 %I[\x0atSPACE 3-3 \x0atSTRING_CONTENT 3-8 a\x09b\xff\x00\x0atSPACE 8-8 \x0atSTRING_END 8-9 ]\x0aEOF 9-9 " },
    Rec { t: b"%q(a\xffa (b\xffa) c\xffa)", shape: b"(str value=\x22a\xff\x00 (b\xff\x01) c\xff\x02\x22)", full: b"(str value=\x22a\xff\x00 (b\xff\x01) c\xff\x02\x22 begin=0-3 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atSTRING_BEG 0-3 %q(\x0atSTRING_CONTENT 3-13 a\xff\x00 (b\xff\x01) c\xff\x02\x0atSTRING_END 13-14 )\x0aEOF 14-14 " },
    Rec { t: b"%q(a\x5c(b\xffa)", shape: b"(str value=\x22a(b\xff\x00\x22)", full: b"(str value=\x22a(b\xff\x00\x22 begin=0-3 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atSTRING_BEG 0-3 %q(\x0atSTRING_CONTENT 3-8 a(b\xff\x00\x0atSTRING_END 8-9 )\x0aEOF 9-9 " },
    Rec { t: b"%q(a\x5cb\xffa)", shape: b"(str value=\x22a\x5cb\xff\x00\x22)", full: b"(str value=\x22a\x5cb\xff\x00\x22 begin=0-3 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atSTRING_BEG 0-3 %q(\x0atSTRING_CONTENT 3-7 a\x5cb\xff\x00\x0atSTRING_END 7-8 )\x0aEOF 8-8 " },
    Rec { t: b"%q(#{a\xffa})", shape: b"(str value=\x22#{a\xff\x00}\x22)", full: b"(str value=\x22#{a\xff\x00}\x22 begin=0-3 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atSTRING_BEG 0-3 %q(\x0atSTRING_CONTENT 3-8 #{a\xff\x00}\x0atSTRING_END 8-9 )\x0aEOF 9-9 " },
    Rec { t: b"%Q(a\xffa (b\xffa) #{v\xffa})", shape: b"(dstr parts=[(str value=\x22a\xff\x00 (b\xff\x01) \x22) (begin statements=[(send method_name=\x22v\xff\x02\x22 args=[])])])", full: b"(dstr parts=[(str value=\x22a\xff\x00 (b\xff\x01) \x22 expression=3-11) (begin statements=[(send method_name=\x22v\xff\x02\x22 args=[] selector=13-15 expression=13-15)] begin=11-13 end=15-16 expression=11-16)] begin=0-3 end=16-17 expression=0-17)", diag: b"", toks: b"\x0atSTRING_BEG 0-3 %Q(\x0atSTRING_CONTENT 3-11 a\xff\x00 (b\xff\x01) \x0atSTRING_DBEG 11-13 #{\x0atIDENTIFIER 13-15 v\xff\x02\x0atSTRING_DEND 15-16 }\x0atSTRING_END 16-17 )\x0aEOF 17-17 " },
    Rec { t: b"%Q(a\x5ctb\xffa)", shape: b"(str value=\x22a\x09b\xff\x00\x22)", full: b"(str value=\x22a\x09b\xff\x00\x22 begin=0-3 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atSTRING_BEG 0-3 %Q(\x0atSTRING_CONTENT 3-8 a\x09b\xff\x00\x0atSTRING_END 8-9 )\x0aEOF 9-9 " },
    Rec { t: b"%(a\xffa)", shape: b"(str value=\x22a\xff\x00\x22)", full: b"(str value=\x22a\xff\x00\x22 begin=0-2 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atSTRING_BEG 0-2 %(\x0atSTRING_CONTENT 2-4 a\xff\x00\x0atSTRING_END 4-5 )\x0aEOF 5-5 " },
    Rec { t: b"%(a\xffa#{v\xffa}(b)(c\xffa))", shape: b"(dstr parts=[(str value=\x22a\xff\x00\x22) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[])]) (str value=\x22(b)(c\xff\x02)\x22)])", full: b"(dstr parts=[(str value=\x22a\xff\x00\x22 expression=2-4) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[] selector=6-8 expression=6-8)] begin=4-6 end=8-9 expression=4-9) (str value=\x22(b)(c\xff\x02)\x22 expression=9-16)] begin=0-2 end=16-17 expression=0-17)", diag: b"", toks: b"\x0atSTRING_BEG 0-2 %(\x0atSTRING_CONTENT 2-4 a\xff\x00\x0atSTRING_DBEG 4-6 #{\x0atIDENTIFIER 6-8 v\xff\x01\x0atSTRING_DEND 8-9 }\x0atSTRING_CONTENT 9-16 (b)(c\xff\x02)\x0atSTRING_END 16-17 )\x0aEOF 17-17 " },
    Rec { t: b"%[a\xffa]", shape: b"(str value=\x22a\xff\x00\x22)", full: b"(str value=\x22a\xff\x00\x22 begin=0-2 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atSTRING_BEG 0-2 %[\x0atSTRING_CONTENT 2-4 a\xff\x00\x0atSTRING_END 4-5 ]\x0aEOF 5-5 " },
    Rec { t: b"%{a\xffa}", shape: b"(str value=\x22a\xff\x00\x22)", full: b"(str value=\x22a\xff\x00\x22 begin=0-2 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atSTRING_BEG 0-2 %{\x0atSTRING_CONTENT 2-4 a\xff\x00\x0atSTRING_END 4-5 }\x0aEOF 5-5 " },
    Rec { t: b"%<a\xffa>", shape: b"(str value=\x22a\xff\x00\x22)", full: b"(str value=\x22a\xff\x00\x22 begin=0-2 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atSTRING_BEG 0-2 %<\x0atSTRING_CONTENT 2-4 a\xff\x00\x0atSTRING_END 4-5 >\x0aEOF 5-5 " },
    Rec { t: b"%|a\xffa|", shape: b"(str value=\x22a\xff\x00\x22)", full: b"(str value=\x22a\xff\x00\x22 begin=0-2 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atSTRING_BEG 0-2 %|\x0atSTRING_CONTENT 2-4 a\xff\x00\x0atSTRING_END 4-5 |\x0aEOF 5-5 " },
    Rec { t: b"%!a\xffa!", shape: b"(str value=\x22a\xff\x00\x22)", full: b"(str value=\x22a\xff\x00\x22 begin=0-2 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atSTRING_BEG 0-2 %!\x0atSTRING_CONTENT 2-4 a\xff\x00\x0atSTRING_END 4-5 !\x0aEOF 5-5 " },
    Rec { t: b"%=a\xffa=", shape: b"(str value=\x22a\xff\x00\x22)", full: b"(str value=\x22a\xff\x00\x22 begin=0-2 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atSTRING_BEG 0-2 %=\x0atSTRING_CONTENT 2-4 a\xff\x00\x0atSTRING_END 4-5 =\x0aEOF 5-5 " },
    Rec { t: b"x = %=a\xffa=", shape: b"(lvasgn name=\x22x\x22 value=(str value=\x22a\xff\x00\x22))", full: b"(lvasgn name=\x22x\x22 value=(str value=\x22a\xff\x00\x22 begin=4-6 end=8-9 expression=4-9) name=0-1 operator=2-3 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0atSTRING_BEG 4-6 %=\x0atSTRING_CONTENT 6-8 a\xff\x00\x0atSTRING_END 8-9 =\x0aEOF 9-9 " },
    Rec { t: b"%()", shape: b"(str value=\x22\x22)", full: b"(str value=\x22\x22 begin=0-2 end=2-3 expression=0-3)", diag: b"", toks: b"\x0atSTRING_BEG 0-2 %(\x0atSTRING_END 2-3 )\x0aEOF 3-3 " },
    Rec { t: b"%q()", shape: b"(str value=\x22\x22)", full: b"(str value=\x22\x22 begin=0-3 end=3-4 expression=0-4)", diag: b"", toks: b"\x0atSTRING_BEG 0-3 %q(\x0atSTRING_END 3-4 )\x0aEOF 4-4 " },
    Rec { t: b"%s(a\xffa)", shape: b"(sym name=\x22a\xff\x00\x22)", full: b"(sym name=\x22a\xff\x00\x22 begin=0-3 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atSYMBEG 0-3 %s(\x0atSTRING_CONTENT 3-5 a\xff\x00\x0atSTRING_END 5-6 )\x0aEOF 6-6 " },
    Rec { t: b"%s(a\xffa#{b})", shape: b"(sym name=\x22a\xff\x00#{b}\x22)", full: b"(sym name=\x22a\xff\x00#{b}\x22 begin=0-3 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atSYMBEG 0-3 %s(\x0atSTRING_CONTENT 3-9 a\xff\x00#{b}\x0atSTRING_END 9-10 )\x0aEOF 10-10 " },
    Rec { t: b"%s(a (b\xffa))", shape: b"(sym name=\x22a (b\xff\x00)\x22)", full: b"(sym name=\x22a (b\xff\x00)\x22 begin=0-3 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atSYMBEG 0-3 %s(\x0atSTRING_CONTENT 3-9 a (b\xff\x00)\x0atSTRING_END 9-10 )\x0aEOF 10-10 " },
    Rec { t: b"%x(a\xffa)", shape: b"(xstr parts=[(str value=\x22a\xff\x00\x22)])", full: b"(xstr parts=[(str value=\x22a\xff\x00\x22 expression=3-5)] begin=0-3 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atXSTRING_BEG 0-3 %x(\x0atSTRING_CONTENT 3-5 a\xff\x00\x0atSTRING_END 5-6 )\x0aEOF 6-6 " },
    Rec { t: b"%x(a\xffa#{v\xffa})", shape: b"(xstr parts=[(str value=\x22a\xff\x00\x22) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[])])])", full: b"(xstr parts=[(str value=\x22a\xff\x00\x22 expression=3-5) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[] selector=7-9 expression=7-9)] begin=5-7 end=9-10 expression=5-10)] begin=0-3 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atXSTRING_BEG 0-3 %x(\x0atSTRING_CONTENT 3-5 a\xff\x00\x0atSTRING_DBEG 5-7 #{\x0atIDENTIFIER 7-9 v\xff\x01\x0atSTRING_DEND 9-10 }\x0atSTRING_END 10-11 )\x0aEOF 11-11 " },
    Rec { t: b"%r(a\xffa)", shape: b"(regexp parts=[(str value=\x22a\xff\x00\x22)])", full: b"(regexp parts=[(str value=\x22a\xff\x00\x22 expression=3-5)] begin=0-3 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atREGEXP_BEG 0-3 %r(\x0atSTRING_CONTENT 3-5 a\xff\x00\x0atREGEXP_END 5-6 )\x0aEOF 6-6 " },
    Rec { t: b"%r{a\xffa}i", shape: b"(regexp parts=[(str value=\x22a\xff\x00\x22)] options=(reg_opt options=\x22i\x22))", full: b"(regexp parts=[(str value=\x22a\xff\x00\x22 expression=3-5)] options=(reg_opt options=\x22i\x22 expression=6-7) begin=0-3 end=5-6 expression=0-7)", diag: b"", toks: b"\x0atREGEXP_BEG 0-3 %r{\x0atSTRING_CONTENT 3-5 a\xff\x00\x0atREGEXP_END 5-7 }i\x0aEOF 7-7 " },
    Rec { t: b"%r[a\xffa#{v\xffa}]mx", shape: b"(regexp parts=[(str value=\x22a\xff\x00\x22) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[])])] options=(reg_opt options=\x22mx\x22))", full: b"(regexp parts=[(str value=\x22a\xff\x00\x22 expression=3-5) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[] selector=7-9 expression=7-9)] begin=5-7 end=9-10 expression=5-10)] options=(reg_opt options=\x22mx\x22 expression=11-13) begin=0-3 end=10-11 expression=0-13)", diag: b"", toks: b"\x0atREGEXP_BEG 0-3 %r[\x0atSTRING_CONTENT 3-5 a\xff\x00\x0atSTRING_DBEG 5-7 #{\x0atIDENTIFIER 7-9 v\xff\x01\x0atSTRING_DEND 9-10 }\x0atREGEXP_END 10-13 ]mx\x0aEOF 13-13 " },
    Rec { t: b"p %w[a\xffa]", shape: b"(send method_name=\x22p\x22 args=[(array elements=[(str value=\x22a\xff\x00\x22)])])", full: b"(send method_name=\x22p\x22 args=[(array elements=[(str value=\x22a\xff\x00\x22 expression=5-7)] begin=2-5 end=7-8 expression=2-8)] selector=0-1 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 p\x0atQWORDS_BEG 2-5 %w[\x0atSPACE 5-5 \x0atSTRING_CONTENT 5-7 a\xff\x00\x0atSPACE 7-7 \x0atSTRING_END 7-8 ]\x0aEOF 8-8 " },
    Rec { t: b"p(%w[a\xffa], 1)", shape: b"(send method_name=\x22p\x22 args=[(array elements=[(str value=\x22a\xff\x00\x22)]) (int value=\x221\x22)])", full: b"(send method_name=\x22p\x22 args=[(array elements=[(str value=\x22a\xff\x00\x22 expression=5-7)] begin=2-5 end=7-8 expression=2-8) (int value=\x221\x22 expression=10-11)] selector=0-1 begin=1-2 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 p\x0atLPAREN2 1-2 (\x0atQWORDS_BEG 2-5 %w[\x0atSPACE 5-5 \x0atSTRING_CONTENT 5-7 a\xff\x00\x0atSPACE 7-7 \x0atSTRING_END 7-8 ]\x0atCOMMA 8-9 ,\x0atINTEGER 10-11 1\x0atRPAREN 11-12 )\x0aEOF 12-12 " },
    Rec { t: b"p %(a\xffa), \xffd", shape: b"(send method_name=\x22p\x22 args=[(str value=\x22a\xff\x00\x22) (int value=\x22\xff\x01\x22)])", full: b"(send method_name=\x22p\x22 args=[(str value=\x22a\xff\x00\x22 begin=2-4 end=6-7 expression=2-7) (int value=\x22\xff\x01\x22 expression=9-10)] selector=0-1 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 p\x0atSTRING_BEG 2-4 %(\x0atSTRING_CONTENT 4-6 a\xff\x00\x0atSTRING_END 6-7 )\x0atCOMMA 7-8 ,\x0atINTEGER 9-10 \xff\x01\x0aEOF 10-10 " },
    Rec { t: b"x %= \xffd", shape: b"(op_asgn recv=(lvasgn name=\x22x\x22) operator=\x22%\x22 value=(int value=\x22\xff\x00\x22))", full: b"(op_asgn recv=(lvasgn name=\x22x\x22 name=0-1 expression=0-1) operator=\x22%\x22 value=(int value=\x22\xff\x00\x22 expression=5-6) operator=2-4 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atOP_ASGN 2-4 %=\x0atINTEGER 5-6 \xff\x00\x0aEOF 6-6 " },
    Rec { t: b"x % (\xffd)", shape: b"(send recv=(send method_name=\x22x\x22 args=[]) method_name=\x22%\x22 args=[(begin statements=[(int value=\x22\xff\x00\x22)])])", full: b"(send recv=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) method_name=\x22%\x22 args=[(begin statements=[(int value=\x22\xff\x00\x22 expression=5-6)] begin=4-5 end=6-7 expression=4-7)] selector=2-3 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atPERCENT 2-3 %\x0atLPAREN 4-5 (\x0atINTEGER 5-6 \xff\x00\x0atRPAREN 6-7 )\x0aEOF 7-7 " },
    Rec { t: b"x.y %[a\xffa]", shape: b"(send recv=(send method_name=\x22x\x22 args=[]) method_name=\x22y\x22 args=[(str value=\x22a\xff\x00\x22)])", full: b"(send recv=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) method_name=\x22y\x22 args=[(str value=\x22a\xff\x00\x22 begin=4-6 end=8-9 expression=4-9)] dot=1-2 selector=2-3 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atDOT 1-2 .\x0atIDENTIFIER 2-3 y\x0atSTRING_BEG 4-6 %[\x0atSTRING_CONTENT 6-8 a\xff\x00\x0atSTRING_END 8-9 ]\x0aEOF 9-9 " },
    Rec { t: b"[%w[a\xffa], %i[b\xffa]]", shape: b"(array elements=[(array elements=[(str value=\x22a\xff\x00\x22)]) (array elements=[(sym name=\x22b\xff\x01\x22)])])", full: b"(array elements=[(array elements=[(str value=\x22a\xff\x00\x22 expression=4-6)] begin=1-4 end=6-7 expression=1-7) (array elements=[(sym name=\x22b\xff\x01\x22 expression=12-14)] begin=9-12 end=14-15 expression=9-15)] begin=0-1 end=15-16 expression=0-16)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atQWORDS_BEG 1-4 %w[\x0atSPACE 4-4 \x0atSTRING_CONTENT 4-6 a\xff\x00\x0atSPACE 6-6 \x0atSTRING_END 6-7 ]\x0atCOMMA 7-8 ,\x0atQSYMBOLS_BEG 9-12 %i[\x0atSPACE 12-12 \x0atSTRING_CONTENT 12-14 b\xff\x01\x0atSPACE 14-14 \x0atSTRING_END 14-15 ]\x0atRBRACK 15-16 ]\x0aEOF 16-16 " },
    Rec { t: b"{a\xffa: %w[b]}", shape: b"(hash pairs=[(pair key=(sym name=\x22a\xff\x00\x22) value=(array elements=[(str value=\x22b\x22)]))])", full: b"(hash pairs=[(pair key=(sym name=\x22a\xff\x00\x22 expression=1-3) value=(array elements=[(str value=\x22b\x22 expression=8-9)] begin=5-8 end=9-10 expression=5-10) operator=3-4 expression=1-10)] begin=0-1 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 1-4 a\xff\x00\x0atQWORDS_BEG 5-8 %w[\x0atSPACE 8-8 \x0atSTRING_CONTENT 8-9 b\x0atSPACE 9-9 \x0atSTRING_END 9-10 ]\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"%w[a\xffa].map", shape: b"(send recv=(array elements=[(str value=\x22a\xff\x00\x22)]) method_name=\x22map\x22 args=[])", full: b"(send recv=(array elements=[(str value=\x22a\xff\x00\x22 expression=3-5)] begin=0-3 end=5-6 expression=0-6) method_name=\x22map\x22 args=[] dot=6-7 selector=7-10 expression=0-10)", diag: b"", toks: b"\x0atQWORDS_BEG 0-3 %w[\x0atSPACE 3-3 \x0atSTRING_CONTENT 3-5 a\xff\x00\x0atSPACE 5-5 \x0atSTRING_END 5-6 ]\x0atDOT 6-7 .\x0atIDENTIFIER 7-10 map\x0aEOF 10-10 " },
    Rec { t: b"%q(a\xffa) + %q(b\xffa)", shape: b"(send recv=(str value=\x22a\xff\x00\x22) method_name=\x22+\x22 args=[(str value=\x22b\xff\x01\x22)])", full: b"(send recv=(str value=\x22a\xff\x00\x22 begin=0-3 end=5-6 expression=0-6) method_name=\x22+\x22 args=[(str value=\x22b\xff\x01\x22 begin=9-12 end=14-15 expression=9-15)] selector=7-8 expression=0-15)", diag: b"", toks: b"\x0atSTRING_BEG 0-3 %q(\x0atSTRING_CONTENT 3-5 a\xff\x00\x0atSTRING_END 5-6 )\x0atPLUS 7-8 +\x0atSTRING_BEG 9-12 %q(\x0atSTRING_CONTENT 12-14 b\xff\x01\x0atSTRING_END 14-15 )\x0aEOF 15-15 " },
    Rec { t: b"%w[a\xffa b\xffa] + x", shape: b"(send recv=(array elements=[(str value=\x22a\xff\x00\x22) (str value=\x22b\xff\x01\x22)]) method_name=\x22+\x22 args=[(send method_name=\x22x\x22 args=[])])", full: b"(send recv=(array elements=[(str value=\x22a\xff\x00\x22 expression=3-5) (str value=\x22b\xff\x01\x22 expression=6-8)] begin=0-3 end=8-9 expression=0-9) method_name=\x22+\x22 args=[(send method_name=\x22x\x22 args=[] selector=12-13 expression=12-13)] selector=10-11 expression=0-13)", diag: b"", toks: b"\x0atQWORDS_BEG 0-3 %w[\x0atSPACE 3-3 \x0atSTRING_CONTENT 3-5 a\xff\x00\x0atSPACE 5-6  \x0atSTRING_CONTENT 6-8 b\xff\x01\x0atSPACE 8-8 \x0atSTRING_END 8-9 ]\x0atPLUS 10-11 +\x0atIDENTIFIER 12-13 x\x0aEOF 13-13 " },
    Rec { t: b"%q(a\xffa) \x22b\xffa\x22", shape: b"(dstr parts=[(str value=\x22a\xff\x00\x22) (str value=\x22b\xff\x01\x22)])", full: b"(dstr parts=[(str value=\x22a\xff\x00\x22 begin=0-3 end=5-6 expression=0-6) (str value=\x22b\xff\x01\x22 begin=7-8 end=10-11 expression=7-11)] expression=0-11)", diag: b"", toks: b"\x0atSTRING_BEG 0-3 %q(\x0atSTRING_CONTENT 3-5 a\xff\x00\x0atSTRING_END 5-6 )\x0atSTRING_BEG 7-8 \x22\x0atSTRING_CONTENT 8-10 b\xff\x01\x0atSTRING_END 10-11 \x22\x0aEOF 11-11 " },
    Rec { t: b"%(a\xffa) 'b\xffa' %q(c\xffa)", shape: b"(send recv=(dstr parts=[(str value=\x22a\xff\x00\x22) (str value=\x22b\xff\x01\x22)]) method_name=\x22%\x22 args=[(send method_name=\x22q\x22 args=[(send method_name=\x22c\xff\x02\x22 args=[])])])", full: b"(send recv=(dstr parts=[(str value=\x22a\xff\x00\x22 begin=0-2 end=4-5 expression=0-5) (str value=\x22b\xff\x01\x22 begin=6-7 end=9-10 expression=6-10)] expression=0-10) method_name=\x22%\x22 args=[(send method_name=\x22q\x22 args=[(send method_name=\x22c\xff\x02\x22 args=[] selector=14-16 expression=14-16)] selector=12-13 begin=13-14 end=16-17 expression=12-17)] selector=11-12 expression=0-17)", diag: b"\x0aW 11-12 `%' after local variable or literal is interpreted as binary operator even though it seems like string literal", toks: b"\x0atSTRING_BEG 0-2 %(\x0atSTRING_CONTENT 2-4 a\xff\x00\x0atSTRING_END 4-5 )\x0atSTRING_BEG 6-7 '\x0atSTRING_CONTENT 7-9 b\xff\x01\x0atSTRING_END 9-10 '\x0atPERCENT 11-12 %\x0atIDENTIFIER 12-13 q\x0atLPAREN2 13-14 (\x0atIDENTIFIER 14-16 c\xff\x02\x0atRPAREN 16-17 )\x0aEOF 17-17 " },
    Rec { t: b"%Q(a\xffa\x0ab\xffa)", shape: b"(str value=\x22a\xff\x00\x0ab\xff\x01\x22)", full: b"(str value=\x22a\xff\x00\x0ab\xff\x01\x22 begin=0-3 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atSTRING_BEG 0-3 %Q(\x0atSTRING_CONTENT 3-8 a\xff\x00\x0ab\xff\x01\x0atSTRING_END 8-9 )\x0aEOF 9-9 " },
    Rec { t: b"%w(a\xffa)\x0a\x0a%w(b\xffa)", shape: b"(begin statements=[(array elements=[(str value=\x22a\xff\x00\x22)]) (array elements=[(str value=\x22b\xff\x01\x22)])])", full: b"(begin statements=[(array elements=[(str value=\x22a\xff\x00\x22 expression=3-5)] begin=0-3 end=5-6 expression=0-6) (array elements=[(str value=\x22b\xff\x01\x22 expression=11-13)] begin=8-11 end=13-14 expression=8-14)] expression=0-14)", diag: b"", toks: b"\x0atQWORDS_BEG 0-3 %w(\x0atSPACE 3-3 \x0atSTRING_CONTENT 3-5 a\xff\x00\x0atSPACE 5-5 \x0atSTRING_END 5-6 )\x0atNL 6-7 \x0a\x0atQWORDS_BEG 8-11 %w(\x0atSPACE 11-11 \x0atSTRING_CONTENT 11-13 b\xff\x01\x0atSPACE 13-13 \x0atSTRING_END 13-14 )\x0aEOF 14-14 " },
    Rec { t: b"%w[a\xffa", shape: b"(array elements=[])", full: b"(array elements=[] begin=0-3 end=3-5 expression=0-5)", diag: b"\x0aE 5-5 unterminated list meets end of file", toks: b"\x0atQWORDS_BEG 0-3 %w[\x0atSPACE 3-3 \x0atSTRING_END 3-5 a\xff\x00\x0aEOF 5-5 " },
    Rec { t: b"%q(a\xffa", shape: b"(str value=\x22a\xff\x00\x22)", full: b"(str value=\x22a\xff\x00\x22 begin=0-3 end=5-5 expression=0-5)", diag: b"\x0aE 5-5 unterminated string meets end of file", toks: b"\x0atSTRING_BEG 0-3 %q(\x0atSTRING_CONTENT 3-5 a\xff\x00\x0atSTRING_END 5-5 \x0aEOF 5-5 " },
    Rec { t: b"%Q(a\xffa (b\xffa)", shape: b"(str value=\x22a\xff\x00 (b\xff\x01)\x22)", full: b"(str value=\x22a\xff\x00 (b\xff\x01)\x22 begin=0-3 end=10-10 expression=0-10)", diag: b"\x0aE 10-10 unterminated string meets end of file", toks: b"\x0atSTRING_BEG 0-3 %Q(\x0atSTRING_CONTENT 3-10 a\xff\x00 (b\xff\x01)\x0atSTRING_END 10-10 \x0aEOF 10-10 " },
    Rec { t: b"%Q(a\xffa #{v\xffa)", shape: b"none", full: b"none", diag: b"\x0aE 10-11 unexpected tRPAREN", toks: b"\x0atSTRING_BEG 0-3 %Q(\x0atSTRING_CONTENT 3-6 a\xff\x00 \x0atSTRING_DBEG 6-8 #{\x0atIDENTIFIER 8-10 v\xff\x01\x0atRPAREN 10-11 )\x0aEOF 11-11 " },
    Rec { t: b"%z\xffa(a)", shape: b"none", full: b"none", diag: b"\x0aE 0-2 unknown type of %string", toks: b"\x0aEOF 0-3 %z\xff\x00" },
    Rec { t: b"%q", shape: b"none", full: b"none", diag: b"\x0aE 0-2 unterminated quoted string meets end of file", toks: b"\x0aEOF 0-2 %q" },
    Rec { t: b"%", shape: b"none", full: b"none", diag: b"\x0aE 0-1 unterminated quoted string meets end of file", toks: b"\x0aEOF 0-1 %" },
    Rec { t: b"%w", shape: b"none", full: b"none", diag: b"\x0aE 0-2 unterminated quoted string meets end of file", toks: b"\x0aEOF 0-2 %w" },
    Rec { t: b"%q\xffaa\xffa", shape: b"none", full: b"none", diag: b"\x0aE 0-2 unknown type of %string", toks: b"\x0aEOF 0-3 %q\xff\x00" },
];
pub static REGEXPS: &[Rec] = &[
    Rec { t: b"/a\xffa/", shape: b"(regexp parts=[(str value=\x22a\xff\x00\x22)])", full: b"(regexp parts=[(str value=\x22a\xff\x00\x22 expression=1-3)] begin=0-1 end=3-4 expression=0-4)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-3 a\xff\x00\x0atREGEXP_END 3-4 /\x0aEOF 4-4 " },
    Rec { t: b"/a\xffa/i", shape: b"(regexp parts=[(str value=\x22a\xff\x00\x22)] options=(reg_opt options=\x22i\x22))", full: b"(regexp parts=[(str value=\x22a\xff\x00\x22 expression=1-3)] options=(reg_opt options=\x22i\x22 expression=4-5) begin=0-1 end=3-4 expression=0-5)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-3 a\xff\x00\x0atREGEXP_END 3-5 /i\x0aEOF 5-5 " },
    Rec { t: b"/a\xffa/mix", shape: b"(regexp parts=[(str value=\x22a\xff\x00\x22)] options=(reg_opt options=\x22imx\x22))", full: b"(regexp parts=[(str value=\x22a\xff\x00\x22 expression=1-3)] options=(reg_opt options=\x22imx\x22 expression=4-7) begin=0-1 end=3-4 expression=0-7)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-3 a\xff\x00\x0atREGEXP_END 3-7 /mix\x0aEOF 7-7 " },
    Rec { t: b"/a\xffa/xim", shape: b"(regexp parts=[(str value=\x22a\xff\x00\x22)] options=(reg_opt options=\x22imx\x22))", full: b"(regexp parts=[(str value=\x22a\xff\x00\x22 expression=1-3)] options=(reg_opt options=\x22imx\x22 expression=4-7) begin=0-1 end=3-4 expression=0-7)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-3 a\xff\x00\x0atREGEXP_END 3-7 /xim\x0aEOF 7-7 " },
    Rec { t: b"/a\xffa/iim", shape: b"(regexp parts=[(str value=\x22a\xff\x00\x22)] options=(reg_opt options=\x22im\x22))", full: b"(regexp parts=[(str value=\x22a\xff\x00\x22 expression=1-3)] options=(reg_opt options=\x22im\x22 expression=4-7) begin=0-1 end=3-4 expression=0-7)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-3 a\xff\x00\x0atREGEXP_END 3-7 /iim\x0aEOF 7-7 " },
    Rec { t: b"/a\xffa/n", shape: b"(regexp parts=[(str value=\x22a\xff\x00\x22)] options=(reg_opt options=\x22n\x22))", full: b"(regexp parts=[(str value=\x22a\xff\x00\x22 expression=1-3)] options=(reg_opt options=\x22n\x22 expression=4-5) begin=0-1 end=3-4 expression=0-5)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-3 a\xff\x00\x0atREGEXP_END 3-5 /n\x0aEOF 5-5 " },
    Rec { t: b"/a\xffa/o", shape: b"(regexp parts=[(str value=\x22a\xff\x00\x22)] options=(reg_opt options=\x22o\x22))", full: b"(regexp parts=[(str value=\x22a\xff\x00\x22 expression=1-3)] options=(reg_opt options=\x22o\x22 expression=4-5) begin=0-1 end=3-4 expression=0-5)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-3 a\xff\x00\x0atREGEXP_END 3-5 /o\x0aEOF 5-5 " },
    Rec { t: b"/a\xffa#{v\xffa}b\xffa/", shape: b"(regexp parts=[(str value=\x22a\xff\x00\x22) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[])]) (str value=\x22b\xff\x02\x22)])", full: b"(regexp parts=[(str value=\x22a\xff\x00\x22 expression=1-3) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[] selector=5-7 expression=5-7)] begin=3-5 end=7-8 expression=3-8) (str value=\x22b\xff\x02\x22 expression=8-10)] begin=0-1 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-3 a\xff\x00\x0atSTRING_DBEG 3-5 #{\x0atIDENTIFIER 5-7 v\xff\x01\x0atSTRING_DEND 7-8 }\x0atSTRING_CONTENT 8-10 b\xff\x02\x0atREGEXP_END 10-11 /\x0aEOF 11-11 " },
    Rec { t: b"/#{v\xffa}/", shape: b"(regexp parts=[(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])])])", full: b"(regexp parts=[(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5)] begin=1-3 end=5-6 expression=1-6)] begin=0-1 end=6-7 expression=0-7)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_DBEG 1-3 #{\x0atIDENTIFIER 3-5 v\xff\x00\x0atSTRING_DEND 5-6 }\x0atREGEXP_END 6-7 /\x0aEOF 7-7 " },
    Rec { t: b"/#{v\xffa}#{w\xffa}/x", shape: b"(regexp parts=[(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])]) (begin statements=[(send method_name=\x22w\xff\x01\x22 args=[])])] options=(reg_opt options=\x22x\x22))", full: b"(regexp parts=[(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5)] begin=1-3 end=5-6 expression=1-6) (begin statements=[(send method_name=\x22w\xff\x01\x22 args=[] selector=8-10 expression=8-10)] begin=6-8 end=10-11 expression=6-11)] options=(reg_opt options=\x22x\x22 expression=12-13) begin=0-1 end=11-12 expression=0-13)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_DBEG 1-3 #{\x0atIDENTIFIER 3-5 v\xff\x00\x0atSTRING_DEND 5-6 }\x0atSTRING_DBEG 6-8 #{\x0atIDENTIFIER 8-10 w\xff\x01\x0atSTRING_DEND 10-11 }\x0atREGEXP_END 11-13 /x\x0aEOF 13-13 " },
    Rec { t: b"/#@v\xffa#$w\xffa/", shape: b"(regexp parts=[(ivar name=\x22@v\xff\x00\x22) (gvar name=\x22$w\xff\x01\x22)])", full: b"(regexp parts=[(ivar name=\x22@v\xff\x00\x22 expression=2-5) (gvar name=\x22$w\xff\x01\x22 expression=6-9)] begin=0-1 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_DVAR 1-2 #\x0atIVAR 2-5 @v\xff\x00\x0atSTRING_DVAR 5-6 #\x0atGVAR 6-9 $w\xff\x01\x0atREGEXP_END 9-10 /\x0aEOF 10-10 " },
    Rec { t: b"/a\xffa#/", shape: b"(regexp parts=[(str value=\x22a\xff\x00#\x22)])", full: b"(regexp parts=[(str value=\x22a\xff\x00#\x22 expression=1-4)] begin=0-1 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-4 a\xff\x00#\x0atREGEXP_END 4-5 /\x0aEOF 5-5 " },
    Rec { t: b"/\x5c#{a\xffa}/", shape: b"(regexp parts=[(str value=\x22\x5c#{a\xff\x00}\x22)])", full: b"(regexp parts=[(str value=\x22\x5c#{a\xff\x00}\x22 expression=1-7)] begin=0-1 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-7 \x5c#{a\xff\x00}\x0atREGEXP_END 7-8 /\x0aEOF 8-8 " },
    Rec { t: b"/a\x5c/\xffa/", shape: b"(regexp parts=[(str value=\x22a/\xff\x00\x22)])", full: b"(regexp parts=[(str value=\x22a/\xff\x00\x22 expression=1-5)] begin=0-1 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-5 a/\xff\x00\x0atREGEXP_END 5-6 /\x0aEOF 6-6 " },
    Rec { t: b"/a\x5c.\xffa/", shape: b"(regexp parts=[(str value=\x22a\x5c.\xff\x00\x22)])", full: b"(regexp parts=[(str value=\x22a\x5c.\xff\x00\x22 expression=1-5)] begin=0-1 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-5 a\x5c.\xff\x00\x0atREGEXP_END 5-6 /\x0aEOF 6-6 " },
    Rec { t: b"/\x5c\x5c/", shape: b"(regexp parts=[(str value=\x22\x5c\x5c\x22)])", full: b"(regexp parts=[(str value=\x22\x5c\x5c\x22 expression=1-3)] begin=0-1 end=3-4 expression=0-4)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-3 \x5c\x5c\x0atREGEXP_END 3-4 /\x0aEOF 4-4 " },
    Rec { t: b"/\x5c//", shape: b"(regexp parts=[(str value=\x22/\x22)])", full: b"(regexp parts=[(str value=\x22/\x22 expression=1-3)] begin=0-1 end=3-4 expression=0-4)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-3 /\x0atREGEXP_END 3-4 /\x0aEOF 4-4 " },
    Rec { t: b"/[\x5c/\xffa]/", shape: b"(regexp parts=[(str value=\x22[/\xff\x00]\x22)])", full: b"(regexp parts=[(str value=\x22[/\xff\x00]\x22 expression=1-6)] begin=0-1 end=6-7 expression=0-7)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-6 [/\xff\x00]\x0atREGEXP_END 6-7 /\x0aEOF 7-7 " },
    Rec { t: b"%r{a\x5c}\xffa}", shape: b"(regexp parts=[(str value=\x22a\x5c}\xff\x00\x22)])", full: b"(regexp parts=[(str value=\x22a\x5c}\xff\x00\x22 expression=3-7)] begin=0-3 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atREGEXP_BEG 0-3 %r{\x0atSTRING_CONTENT 3-7 a\x5c}\xff\x00\x0atREGEXP_END 7-8 }\x0aEOF 8-8 " },
    Rec { t: b"%r{a\xffa/b\xffa}", shape: b"(regexp parts=[(str value=\x22a\xff\x00/b\xff\x01\x22)])", full: b"(regexp parts=[(str value=\x22a\xff\x00/b\xff\x01\x22 expression=3-8)] begin=0-3 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atREGEXP_BEG 0-3 %r{\x0atSTRING_CONTENT 3-8 a\xff\x00/b\xff\x01\x0atREGEXP_END 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"%r!a\x5c!\xffa!", shape: b"(regexp parts=[(str value=\x22a!\xff\x00\x22)])", full: b"(regexp parts=[(str value=\x22a!\xff\x00\x22 expression=3-7)] begin=0-3 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atREGEXP_BEG 0-3 %r!\x0atSTRING_CONTENT 3-7 a!\xff\x00\x0atREGEXP_END 7-8 !\x0aEOF 8-8 " },
    Rec { t: b"/a\xffa\x0ab\xffa/", shape: b"(regexp parts=[(str value=\x22a\xff\x00\x0ab\xff\x01\x22)])", full: b"(regexp parts=[(str value=\x22a\xff\x00\x0ab\xff\x01\x22 expression=1-6)] begin=0-1 end=6-7 expression=0-7)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-6 a\xff\x00\x0ab\xff\x01\x0atREGEXP_END 6-7 /\x0aEOF 7-7 " },
    Rec { t: b"/a\xffa\x5c\x0ab\xffa/", shape: b"(regexp parts=[(str value=\x22a\xff\x00b\xff\x01\x22)])", full: b"(regexp parts=[(str value=\x22a\xff\x00b\xff\x01\x22 expression=1-7)] begin=0-1 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-7 a\xff\x00b\xff\x01\x0atREGEXP_END 7-8 /\x0aEOF 8-8 " },
    Rec { t: b"/\x5cn\xffa\x5ct\xffd/", shape: b"(regexp parts=[(str value=\x22\x5cn\xff\x00\x5ct\xff\x01\x22)])", full: b"(regexp parts=[(str value=\x22\x5cn\xff\x00\x5ct\xff\x01\x22 expression=1-7)] begin=0-1 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-7 \x5cn\xff\x00\x5ct\xff\x01\x0atREGEXP_END 7-8 /\x0aEOF 8-8 " },
    Rec { t: b"/\x5cx4\xffx/", shape: b"(regexp parts=[(str value=\x22\x5cx4\xff\x00\x22)])", full: b"(regexp parts=[(str value=\x22\x5cx4\xff\x00\x22 expression=1-5)] begin=0-1 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-5 \x5cx4\xff\x00\x0atREGEXP_END 5-6 /\x0aEOF 6-6 " },
    Rec { t: b"/\x5cx4\xffx\x5cx4\xffx/n", shape: b"(regexp parts=[(str value=\x22\x5cx4\xff\x00\x5cx4\xff\x01\x22)] options=(reg_opt options=\x22n\x22))", full: b"(regexp parts=[(str value=\x22\x5cx4\xff\x00\x5cx4\xff\x01\x22 expression=1-9)] options=(reg_opt options=\x22n\x22 expression=10-11) begin=0-1 end=9-10 expression=0-11)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-9 \x5cx4\xff\x00\x5cx4\xff\x01\x0atREGEXP_END 9-11 /n\x0aEOF 11-11 " },
    Rec { t: b"/\x5cu004\xffx/", shape: b"(regexp parts=[(str value=\x22\x5cu004\xff\x00\x22)])", full: b"(regexp parts=[(str value=\x22\x5cu004\xff\x00\x22 expression=1-7)] begin=0-1 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-7 \x5cu004\xff\x00\x0atREGEXP_END 7-8 /\x0aEOF 8-8 " },
    Rec { t: b"/\x5cu{4\xffx}/", shape: b"(regexp parts=[(str value=\x22\x5cu{4\xff\x00}\x22)])", full: b"(regexp parts=[(str value=\x22\x5cu{4\xff\x00}\x22 expression=1-7)] begin=0-1 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-7 \x5cu{4\xff\x00}\x0atREGEXP_END 7-8 /\x0aEOF 8-8 " },
    Rec { t: b"/\x5cca/", shape: b"(regexp parts=[(str value=\x22\x5cx01\x22)])", full: b"(regexp parts=[(str value=\x22\x5cx01\x22 expression=1-4)] begin=0-1 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-4 \x5cx01\x0atREGEXP_END 4-5 /\x0aEOF 5-5 " },
    Rec { t: b"/\x5cC-a/", shape: b"(regexp parts=[(str value=\x22\x5cx01\x22)])", full: b"(regexp parts=[(str value=\x22\x5cx01\x22 expression=1-5)] begin=0-1 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-5 \x5cx01\x0atREGEXP_END 5-6 /\x0aEOF 6-6 " },
    Rec { t: b"/\x5cM-a/", shape: b"(regexp parts=[(str value=\x22\x5cxE1\x22)])", full: b"(regexp parts=[(str value=\x22\x5cxE1\x22 expression=1-5)] begin=0-1 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-5 \x5cxE1\x0atREGEXP_END 5-6 /\x0aEOF 6-6 " },
    Rec { t: b"/\x5cc\x5cM-a/", shape: b"(regexp parts=[(str value=\x22\x5cx81\x22)])", full: b"(regexp parts=[(str value=\x22\x5cx81\x22 expression=1-7)] begin=0-1 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-7 \x5cx81\x0atREGEXP_END 7-8 /\x0aEOF 8-8 " },
    Rec { t: b"/[\x5ccx]/", shape: b"(regexp parts=[(str value=\x22[\x5cx18]\x22)])", full: b"(regexp parts=[(str value=\x22[\x5cx18]\x22 expression=1-6)] begin=0-1 end=6-7 expression=0-7)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-6 [\x5cx18]\x0atREGEXP_END 6-7 /\x0aEOF 7-7 " },
    Rec { t: b"/\x5cp\xffa/", shape: b"(regexp parts=[(str value=\x22\x5cp\xff\x00\x22)])", full: b"(regexp parts=[(str value=\x22\x5cp\xff\x00\x22 expression=1-4)] begin=0-1 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-4 \x5cp\xff\x00\x0atREGEXP_END 4-5 /\x0aEOF 5-5 " },
    Rec { t: b"/\x5cb\x5cw\x5cd\xffa/", shape: b"(regexp parts=[(str value=\x22\x5cb\x5cw\x5cd\xff\x00\x22)])", full: b"(regexp parts=[(str value=\x22\x5cb\x5cw\x5cd\xff\x00\x22 expression=1-8)] begin=0-1 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-8 \x5cb\x5cw\x5cd\xff\x00\x0atREGEXP_END 8-9 /\x0aEOF 9-9 " },
    Rec { t: b"/(?<a\xffa>b)/", shape: b"(regexp parts=[(str value=\x22(?<a\xff\x00>b)\x22)])", full: b"(regexp parts=[(str value=\x22(?<a\xff\x00>b)\x22 expression=1-9)] begin=0-1 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-9 (?<a\xff\x00>b)\x0atREGEXP_END 9-10 /\x0aEOF 10-10 " },
    Rec { t: b"/(?<a\xffa>b)/ =~ x", shape: b"(send recv=(regexp parts=[(str value=\x22(?<a\xff\x00>b)\x22)]) method_name=\x22=~\x22 args=[(send method_name=\x22x\x22 args=[])])", full: b"(send recv=(regexp parts=[(str value=\x22(?<a\xff\x00>b)\x22 expression=1-9)] begin=0-1 end=9-10 expression=0-10) method_name=\x22=~\x22 args=[(send method_name=\x22x\x22 args=[] selector=14-15 expression=14-15)] selector=11-13 expression=0-15)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-9 (?<a\xff\x00>b)\x0atREGEXP_END 9-10 /\x0atMATCH 11-13 =~\x0atIDENTIFIER 14-15 x\x0aEOF 15-15 " },
    Rec { t: b"/(?<a\xffa>b)/ =~ x; a\xfe\x00", shape: b"(begin statements=[(send recv=(regexp parts=[(str value=\x22(?<a\xff\x00>b)\x22)]) method_name=\x22=~\x22 args=[(send method_name=\x22x\x22 args=[])]) (send method_name=\x22a\xff\x00\x22 args=[])])", full: b"(begin statements=[(send recv=(regexp parts=[(str value=\x22(?<a\xff\x00>b)\x22 expression=1-9)] begin=0-1 end=9-10 expression=0-10) method_name=\x22=~\x22 args=[(send method_name=\x22x\x22 args=[] selector=14-15 expression=14-15)] selector=11-13 expression=0-15) (send method_name=\x22a\xff\x00\x22 args=[] selector=17-19 expression=17-19)] expression=0-19)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-9 (?<a\xff\x00>b)\x0atREGEXP_END 9-10 /\x0atMATCH 11-13 =~\x0atIDENTIFIER 14-15 x\x0atSEMI 15-16 ;\x0atIDENTIFIER 17-19 a\xff\x00\x0aEOF 19-19 " },
    Rec { t: b"x =~ /a\xffa/", shape: b"(send recv=(send method_name=\x22x\x22 args=[]) method_name=\x22=~\x22 args=[(regexp parts=[(str value=\x22a\xff\x00\x22)])])", full: b"(send recv=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) method_name=\x22=~\x22 args=[(regexp parts=[(str value=\x22a\xff\x00\x22 expression=6-8)] begin=5-6 end=8-9 expression=5-9)] selector=2-4 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atMATCH 2-4 =~\x0atREGEXP_BEG 5-6 /\x0atSTRING_CONTENT 6-8 a\xff\x00\x0atREGEXP_END 8-9 /\x0aEOF 9-9 " },
    Rec { t: b"x !~ /a\xffa/", shape: b"(send recv=(send method_name=\x22x\x22 args=[]) method_name=\x22!~\x22 args=[(regexp parts=[(str value=\x22a\xff\x00\x22)])])", full: b"(send recv=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) method_name=\x22!~\x22 args=[(regexp parts=[(str value=\x22a\xff\x00\x22 expression=6-8)] begin=5-6 end=8-9 expression=5-9)] selector=2-4 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atNMATCH 2-4 !~\x0atREGEXP_BEG 5-6 /\x0atSTRING_CONTENT 6-8 a\xff\x00\x0atREGEXP_END 8-9 /\x0aEOF 9-9 " },
    Rec { t: b"/a\xffa/ =~ x", shape: b"(send recv=(regexp parts=[(str value=\x22a\xff\x00\x22)]) method_name=\x22=~\x22 args=[(send method_name=\x22x\x22 args=[])])", full: b"(send recv=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=1-3)] begin=0-1 end=3-4 expression=0-4) method_name=\x22=~\x22 args=[(send method_name=\x22x\x22 args=[] selector=8-9 expression=8-9)] selector=5-7 expression=0-9)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-3 a\xff\x00\x0atREGEXP_END 3-4 /\x0atMATCH 5-7 =~\x0atIDENTIFIER 8-9 x\x0aEOF 9-9 " },
    Rec { t: b"/a\xffa/ !~ x", shape: b"(send recv=(regexp parts=[(str value=\x22a\xff\x00\x22)]) method_name=\x22!~\x22 args=[(send method_name=\x22x\x22 args=[])])", full: b"(send recv=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=1-3)] begin=0-1 end=3-4 expression=0-4) method_name=\x22!~\x22 args=[(send method_name=\x22x\x22 args=[] selector=8-9 expression=8-9)] selector=5-7 expression=0-9)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-3 a\xff\x00\x0atREGEXP_END 3-4 /\x0atNMATCH 5-7 !~\x0atIDENTIFIER 8-9 x\x0aEOF 9-9 " },
    Rec { t: b"if /a\xffa/; end", shape: b"(if cond=(match_current_line re=(regexp parts=[(str value=\x22a\xff\x00\x22)])))", full: b"(if cond=(match_current_line re=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=4-6)] begin=3-4 end=6-7 expression=3-7) expression=3-7) keyword=0-2 begin=7-8 end=9-12 expression=0-12)", diag: b"", toks: b"\x0akIF 0-2 if\x0atREGEXP_BEG 3-4 /\x0atSTRING_CONTENT 4-6 a\xff\x00\x0atREGEXP_END 6-7 /\x0atSEMI 7-8 ;\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"/a\xffa/ ? 1 : \xffd", shape: b"(if_ternary cond=(match_current_line re=(regexp parts=[(str value=\x22a\xff\x00\x22)])) if_true=(int value=\x221\x22) if_false=(int value=\x22\xff\x01\x22))", full: b"(if_ternary cond=(match_current_line re=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=1-3)] begin=0-1 end=3-4 expression=0-4) expression=0-4) if_true=(int value=\x221\x22 expression=7-8) if_false=(int value=\x22\xff\x01\x22 expression=11-12) question=5-6 colon=9-10 expression=0-12)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-3 a\xff\x00\x0atREGEXP_END 3-4 /\x0atEH 5-6 ?\x0atINTEGER 7-8 1\x0atCOLON 9-10 :\x0atINTEGER 11-12 \xff\x01\x0aEOF 12-12 " },
    Rec { t: b"x if /a\xffa/", shape: b"(if_mod cond=(match_current_line re=(regexp parts=[(str value=\x22a\xff\x00\x22)])) if_true=(send method_name=\x22x\x22 args=[]))", full: b"(if_mod cond=(match_current_line re=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=6-8)] begin=5-6 end=8-9 expression=5-9) expression=5-9) if_true=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) keyword=2-4 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0akIF_MOD 2-4 if\x0atREGEXP_BEG 5-6 /\x0atSTRING_CONTENT 6-8 a\xff\x00\x0atREGEXP_END 8-9 /\x0aEOF 9-9 " },
    Rec { t: b"!/a\xffa/", shape: b"(send recv=(match_current_line re=(regexp parts=[(str value=\x22a\xff\x00\x22)])) method_name=\x22!\x22 args=[])", full: b"(send recv=(match_current_line re=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=2-4)] begin=1-2 end=4-5 expression=1-5) expression=1-5) method_name=\x22!\x22 args=[] selector=0-1 expression=0-5)", diag: b"", toks: b"\x0atBANG 0-1 !\x0atREGEXP_BEG 1-2 /\x0atSTRING_CONTENT 2-4 a\xff\x00\x0atREGEXP_END 4-5 /\x0aEOF 5-5 " },
    Rec { t: b"not /a\xffa/", shape: b"(send recv=(match_current_line re=(regexp parts=[(str value=\x22a\xff\x00\x22)])) method_name=\x22!\x22 args=[])", full: b"(send recv=(match_current_line re=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=5-7)] begin=4-5 end=7-8 expression=4-8) expression=4-8) method_name=\x22!\x22 args=[] selector=0-3 expression=0-8)", diag: b"\x0aW 4-5 ambiguity between regexp and two divisions: wrap regexp in parentheses or add a space after `/' operator", toks: b"\x0akNOT 0-3 not\x0atREGEXP_BEG 4-5 /\x0atSTRING_CONTENT 5-7 a\xff\x00\x0atREGEXP_END 7-8 /\x0aEOF 8-8 " },
    Rec { t: b"while /a\xffa/; end", shape: b"(while cond=(match_current_line re=(regexp parts=[(str value=\x22a\xff\x00\x22)])))", full: b"(while cond=(match_current_line re=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=7-9)] begin=6-7 end=9-10 expression=6-10) expression=6-10) keyword=0-5 begin=10-11 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akWHILE 0-5 while\x0atREGEXP_BEG 6-7 /\x0atSTRING_CONTENT 7-9 a\xff\x00\x0atREGEXP_END 9-10 /\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"until /a\xffa/; end", shape: b"(until cond=(match_current_line re=(regexp parts=[(str value=\x22a\xff\x00\x22)])))", full: b"(until cond=(match_current_line re=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=7-9)] begin=6-7 end=9-10 expression=6-10) expression=6-10) keyword=0-5 begin=10-11 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akUNTIL 0-5 until\x0atREGEXP_BEG 6-7 /\x0atSTRING_CONTENT 7-9 a\xff\x00\x0atREGEXP_END 9-10 /\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"/a\xffa/ && /b\xffa/ ? 1 : 2", shape: b"(if_ternary cond=(and lhs=(match_current_line re=(regexp parts=[(str value=\x22a\xff\x00\x22)])) rhs=(match_current_line re=(regexp parts=[(str value=\x22b\xff\x01\x22)]))) if_true=(int value=\x221\x22) if_false=(int value=\x222\x22))", full: b"(if_ternary cond=(and lhs=(match_current_line re=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=1-3)] begin=0-1 end=3-4 expression=0-4) expression=0-4) rhs=(match_current_line re=(regexp parts=[(str value=\x22b\xff\x01\x22 expression=9-11)] begin=8-9 end=11-12 expression=8-12) expression=8-12) operator=5-7 expression=0-12) if_true=(int value=\x221\x22 expression=15-16) if_false=(int value=\x222\x22 expression=19-20) question=13-14 colon=17-18 expression=0-20)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-3 a\xff\x00\x0atREGEXP_END 3-4 /\x0atANDOP 5-7 &&\x0atREGEXP_BEG 8-9 /\x0atSTRING_CONTENT 9-11 b\xff\x01\x0atREGEXP_END 11-12 /\x0atEH 13-14 ?\x0atINTEGER 15-16 1\x0atCOLON 17-18 :\x0atINTEGER 19-20 2\x0aEOF 20-20 " },
    Rec { t: b"x / \xffd", shape: b"(send recv=(send method_name=\x22x\x22 args=[]) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)])", full: b"(send recv=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=4-5)] selector=2-3 expression=0-5)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atDIVIDE 2-3 /\x0atINTEGER 4-5 \xff\x00\x0aEOF 5-5 " },
    Rec { t: b"x/\xffd", shape: b"(send recv=(send method_name=\x22x\x22 args=[]) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)])", full: b"(send recv=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=2-3)] selector=1-2 expression=0-3)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atDIVIDE 1-2 /\x0atINTEGER 2-3 \xff\x00\x0aEOF 3-3 " },
    Rec { t: b"x /\xffd", shape: b"(send method_name=\x22x\x22 args=[(regexp parts=[(str value=\x22\xff\x00\x22)])])", full: b"(send method_name=\x22x\x22 args=[(regexp parts=[(str value=\x22\xff\x00\x22 expression=3-4)] begin=2-3 end=4-4 expression=2-4)] selector=0-1 expression=0-4)", diag: b"\x0aW 2-3 ambiguity between regexp and two divisions: wrap regexp in parentheses or add a space after `/' operator\x0aE 4-4 unterminated regexp meets end of file", toks: b"\x0atIDENTIFIER 0-1 x\x0atREGEXP_BEG 2-3 /\x0atSTRING_CONTENT 3-4 \xff\x00\x0atREGEXP_END 4-4 \x0aEOF 4-4 " },
    Rec { t: b"p /a\xffa/", shape: b"(send method_name=\x22p\x22 args=[(regexp parts=[(str value=\x22a\xff\x00\x22)])])", full: b"(send method_name=\x22p\x22 args=[(regexp parts=[(str value=\x22a\xff\x00\x22 expression=3-5)] begin=2-3 end=5-6 expression=2-6)] selector=0-1 expression=0-6)", diag: b"\x0aW 2-3 ambiguity between regexp and two divisions: wrap regexp in parentheses or add a space after `/' operator", toks: b"\x0atIDENTIFIER 0-1 p\x0atREGEXP_BEG 2-3 /\x0atSTRING_CONTENT 3-5 a\xff\x00\x0atREGEXP_END 5-6 /\x0aEOF 6-6 " },
    Rec { t: b"p /a\xffa/, \xffd", shape: b"(send method_name=\x22p\x22 args=[(regexp parts=[(str value=\x22a\xff\x00\x22)]) (int value=\x22\xff\x01\x22)])", full: b"(send method_name=\x22p\x22 args=[(regexp parts=[(str value=\x22a\xff\x00\x22 expression=3-5)] begin=2-3 end=5-6 expression=2-6) (int value=\x22\xff\x01\x22 expression=8-9)] selector=0-1 expression=0-9)", diag: b"\x0aW 2-3 ambiguity between regexp and two divisions: wrap regexp in parentheses or add a space after `/' operator", toks: b"\x0atIDENTIFIER 0-1 p\x0atREGEXP_BEG 2-3 /\x0atSTRING_CONTENT 3-5 a\xff\x00\x0atREGEXP_END 5-6 /\x0atCOMMA 6-7 ,\x0atINTEGER 8-9 \xff\x01\x0aEOF 9-9 " },
    Rec { t: b"p / \xffd", shape: b"(send recv=(send method_name=\x22p\x22 args=[]) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)])", full: b"(send recv=(send method_name=\x22p\x22 args=[] selector=0-1 expression=0-1) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=4-5)] selector=2-3 expression=0-5)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 p\x0atDIVIDE 2-3 /\x0atINTEGER 4-5 \xff\x00\x0aEOF 5-5 " },
    Rec { t: b"p(/a\xffa/)", shape: b"(send method_name=\x22p\x22 args=[(regexp parts=[(str value=\x22a\xff\x00\x22)])])", full: b"(send method_name=\x22p\x22 args=[(regexp parts=[(str value=\x22a\xff\x00\x22 expression=3-5)] begin=2-3 end=5-6 expression=2-6)] selector=0-1 begin=1-2 end=6-7 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 p\x0atLPAREN2 1-2 (\x0atREGEXP_BEG 2-3 /\x0atSTRING_CONTENT 3-5 a\xff\x00\x0atREGEXP_END 5-6 /\x0atRPAREN 6-7 )\x0aEOF 7-7 " },
    Rec { t: b"p[/a\xffa/]", shape: b"(index recv=(send method_name=\x22p\x22 args=[]) indexes=[(regexp parts=[(str value=\x22a\xff\x00\x22)])])", full: b"(index recv=(send method_name=\x22p\x22 args=[] selector=0-1 expression=0-1) indexes=[(regexp parts=[(str value=\x22a\xff\x00\x22 expression=3-5)] begin=2-3 end=5-6 expression=2-6)] begin=1-2 end=6-7 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 p\x0atLBRACK2 1-2 [\x0atREGEXP_BEG 2-3 /\x0atSTRING_CONTENT 3-5 a\xff\x00\x0atREGEXP_END 5-6 /\x0atRBRACK 6-7 ]\x0aEOF 7-7 " },
    Rec { t: b"p [/a\xffa/]", shape: b"(send method_name=\x22p\x22 args=[(array elements=[(regexp parts=[(str value=\x22a\xff\x00\x22)])])])", full: b"(send method_name=\x22p\x22 args=[(array elements=[(regexp parts=[(str value=\x22a\xff\x00\x22 expression=4-6)] begin=3-4 end=6-7 expression=3-7)] begin=2-3 end=7-8 expression=2-8)] selector=0-1 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 p\x0atLBRACK 2-3 [\x0atREGEXP_BEG 3-4 /\x0atSTRING_CONTENT 4-6 a\xff\x00\x0atREGEXP_END 6-7 /\x0atRBRACK 7-8 ]\x0aEOF 8-8 " },
    Rec { t: b"p //", shape: b"(send method_name=\x22p\x22 args=[(regexp parts=[])])", full: b"(send method_name=\x22p\x22 args=[(regexp parts=[] begin=2-3 end=3-4 expression=2-4)] selector=0-1 expression=0-4)", diag: b"\x0aW 2-3 ambiguity between regexp and two divisions: wrap regexp in parentheses or add a space after `/' operator", toks: b"\x0atIDENTIFIER 0-1 p\x0atREGEXP_BEG 2-3 /\x0atREGEXP_END 3-4 /\x0aEOF 4-4 " },
    Rec { t: b"x.y /a\xffa/", shape: b"(send recv=(send method_name=\x22x\x22 args=[]) method_name=\x22y\x22 args=[(regexp parts=[(str value=\x22a\xff\x00\x22)])])", full: b"(send recv=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) method_name=\x22y\x22 args=[(regexp parts=[(str value=\x22a\xff\x00\x22 expression=5-7)] begin=4-5 end=7-8 expression=4-8)] dot=1-2 selector=2-3 expression=0-8)", diag: b"\x0aW 4-5 ambiguity between regexp and two divisions: wrap regexp in parentheses or add a space after `/' operator", toks: b"\x0atIDENTIFIER 0-1 x\x0atDOT 1-2 .\x0atIDENTIFIER 2-3 y\x0atREGEXP_BEG 4-5 /\x0atSTRING_CONTENT 5-7 a\xff\x00\x0atREGEXP_END 7-8 /\x0aEOF 8-8 " },
    Rec { t: b"x.y / \xffd", shape: b"(send recv=(send recv=(send method_name=\x22x\x22 args=[]) method_name=\x22y\x22 args=[]) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)])", full: b"(send recv=(send recv=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) method_name=\x22y\x22 args=[] dot=1-2 selector=2-3 expression=0-3) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=6-7)] selector=4-5 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atDOT 1-2 .\x0atIDENTIFIER 2-3 y\x0atDIVIDE 4-5 /\x0atINTEGER 6-7 \xff\x00\x0aEOF 7-7 " },
    Rec { t: b"x.y/\xffd", shape: b"(send recv=(send recv=(send method_name=\x22x\x22 args=[]) method_name=\x22y\x22 args=[]) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)])", full: b"(send recv=(send recv=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) method_name=\x22y\x22 args=[] dot=1-2 selector=2-3 expression=0-3) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=4-5)] selector=3-4 expression=0-5)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atDOT 1-2 .\x0atIDENTIFIER 2-3 y\x0atDIVIDE 3-4 /\x0atINTEGER 4-5 \xff\x00\x0aEOF 5-5 " },
    Rec { t: b"x&.y /a\xffa/", shape: b"(c_send recv=(send method_name=\x22x\x22 args=[]) method_name=\x22y\x22 args=[(regexp parts=[(str value=\x22a\xff\x00\x22)])])", full: b"(c_send recv=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) method_name=\x22y\x22 args=[(regexp parts=[(str value=\x22a\xff\x00\x22 expression=6-8)] begin=5-6 end=8-9 expression=5-9)] dot=1-3 selector=3-4 expression=0-9)", diag: b"\x0aW 5-6 ambiguity between regexp and two divisions: wrap regexp in parentheses or add a space after `/' operator", toks: b"\x0atIDENTIFIER 0-1 x\x0atANDDOT 1-3 &.\x0atIDENTIFIER 3-4 y\x0atREGEXP_BEG 5-6 /\x0atSTRING_CONTENT 6-8 a\xff\x00\x0atREGEXP_END 8-9 /\x0aEOF 9-9 " },
    Rec { t: b"x! /a\xffa/", shape: b"(send method_name=\x22x!\x22 args=[(regexp parts=[(str value=\x22a\xff\x00\x22)])])", full: b"(send method_name=\x22x!\x22 args=[(regexp parts=[(str value=\x22a\xff\x00\x22 expression=4-6)] begin=3-4 end=6-7 expression=3-7)] selector=0-2 expression=0-7)", diag: b"\x0aW 3-4 ambiguity between regexp and two divisions: wrap regexp in parentheses or add a space after `/' operator", toks: b"\x0atFID 0-2 x!\x0atREGEXP_BEG 3-4 /\x0atSTRING_CONTENT 4-6 a\xff\x00\x0atREGEXP_END 6-7 /\x0aEOF 7-7 " },
    Rec { t: b"x? /a\xffa/", shape: b"(send method_name=\x22x?\x22 args=[(regexp parts=[(str value=\x22a\xff\x00\x22)])])", full: b"(send method_name=\x22x?\x22 args=[(regexp parts=[(str value=\x22a\xff\x00\x22 expression=4-6)] begin=3-4 end=6-7 expression=3-7)] selector=0-2 expression=0-7)", diag: b"\x0aW 3-4 ambiguity between regexp and two divisions: wrap regexp in parentheses or add a space after `/' operator", toks: b"\x0atFID 0-2 x?\x0atREGEXP_BEG 3-4 /\x0atSTRING_CONTENT 4-6 a\xff\x00\x0atREGEXP_END 6-7 /\x0aEOF 7-7 " },
    Rec { t: b"x = 1; x /\xffd", shape: b"(begin statements=[(lvasgn name=\x22x\x22 value=(int value=\x221\x22)) (send recv=(lvar name=\x22x\x22) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)])])", full: b"(begin statements=[(lvasgn name=\x22x\x22 value=(int value=\x221\x22 expression=4-5) name=0-1 operator=2-3 expression=0-5) (send recv=(lvar name=\x22x\x22 expression=7-8) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=10-11)] selector=9-10 expression=7-11)] expression=0-11)", diag: b"\x0aW 9-10 `/' after local variable or literal is interpreted as binary operator even though it seems like regexp literal", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0atINTEGER 4-5 1\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-8 x\x0atDIVIDE 9-10 /\x0atINTEGER 10-11 \xff\x00\x0aEOF 11-11 " },
    Rec { t: b"x = 1; x / \xffd", shape: b"(begin statements=[(lvasgn name=\x22x\x22 value=(int value=\x221\x22)) (send recv=(lvar name=\x22x\x22) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)])])", full: b"(begin statements=[(lvasgn name=\x22x\x22 value=(int value=\x221\x22 expression=4-5) name=0-1 operator=2-3 expression=0-5) (send recv=(lvar name=\x22x\x22 expression=7-8) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=11-12)] selector=9-10 expression=7-12)] expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0atINTEGER 4-5 1\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-8 x\x0atDIVIDE 9-10 /\x0atINTEGER 11-12 \xff\x00\x0aEOF 12-12 " },
    Rec { t: b"x = 1; x /2/\xffd", shape: b"(begin statements=[(lvasgn name=\x22x\x22 value=(int value=\x221\x22)) (send recv=(send recv=(lvar name=\x22x\x22) method_name=\x22/\x22 args=[(int value=\x222\x22)]) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)])])", full: b"(begin statements=[(lvasgn name=\x22x\x22 value=(int value=\x221\x22 expression=4-5) name=0-1 operator=2-3 expression=0-5) (send recv=(send recv=(lvar name=\x22x\x22 expression=7-8) method_name=\x22/\x22 args=[(int value=\x222\x22 expression=10-11)] selector=9-10 expression=7-11) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=12-13)] selector=11-12 expression=7-13)] expression=0-13)", diag: b"\x0aW 9-10 `/' after local variable or literal is interpreted as binary operator even though it seems like regexp literal", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0atINTEGER 4-5 1\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-8 x\x0atDIVIDE 9-10 /\x0atINTEGER 10-11 2\x0atDIVIDE 11-12 /\x0atINTEGER 12-13 \xff\x00\x0aEOF 13-13 " },
    Rec { t: b"x = 1; x/\xffd/2", shape: b"(begin statements=[(lvasgn name=\x22x\x22 value=(int value=\x221\x22)) (send recv=(send recv=(lvar name=\x22x\x22) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)]) method_name=\x22/\x22 args=[(int value=\x222\x22)])])", full: b"(begin statements=[(lvasgn name=\x22x\x22 value=(int value=\x221\x22 expression=4-5) name=0-1 operator=2-3 expression=0-5) (send recv=(send recv=(lvar name=\x22x\x22 expression=7-8) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=9-10)] selector=8-9 expression=7-10) method_name=\x22/\x22 args=[(int value=\x222\x22 expression=11-12)] selector=10-11 expression=7-12)] expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0atINTEGER 4-5 1\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-8 x\x0atDIVIDE 8-9 /\x0atINTEGER 9-10 \xff\x00\x0atDIVIDE 10-11 /\x0atINTEGER 11-12 2\x0aEOF 12-12 " },
    Rec { t: b"@x /\xffd", shape: b"(send recv=(ivar name=\x22@x\x22) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)])", full: b"(send recv=(ivar name=\x22@x\x22 expression=0-2) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=4-5)] selector=3-4 expression=0-5)", diag: b"\x0aW 3-4 `/' after local variable or literal is interpreted as binary operator even though it seems like regexp literal", toks: b"\x0atIVAR 0-2 @x\x0atDIVIDE 3-4 /\x0atINTEGER 4-5 \xff\x00\x0aEOF 5-5 " },
    Rec { t: b"@@x /\xffd", shape: b"(send recv=(cvar name=\x22@@x\x22) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)])", full: b"(send recv=(cvar name=\x22@@x\x22 expression=0-3) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=5-6)] selector=4-5 expression=0-6)", diag: b"\x0aW 4-5 `/' after local variable or literal is interpreted as binary operator even though it seems like regexp literal", toks: b"\x0atCVAR 0-3 @@x\x0atDIVIDE 4-5 /\x0atINTEGER 5-6 \xff\x00\x0aEOF 6-6 " },
    Rec { t: b"$x /\xffd", shape: b"(send recv=(gvar name=\x22$x\x22) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)])", full: b"(send recv=(gvar name=\x22$x\x22 expression=0-2) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=4-5)] selector=3-4 expression=0-5)", diag: b"\x0aW 3-4 `/' after local variable or literal is interpreted as binary operator even though it seems like regexp literal", toks: b"\x0atGVAR 0-2 $x\x0atDIVIDE 3-4 /\x0atINTEGER 4-5 \xff\x00\x0aEOF 5-5 " },
    Rec { t: b"X /\xffd/", shape: b"(send method_name=\x22X\x22 args=[(regexp parts=[(str value=\x22\xff\x00\x22)])])", full: b"(send method_name=\x22X\x22 args=[(regexp parts=[(str value=\x22\xff\x00\x22 expression=3-4)] begin=2-3 end=4-5 expression=2-5)] selector=0-1 expression=0-5)", diag: b"\x0aW 2-3 ambiguity between regexp and two divisions: wrap regexp in parentheses or add a space after `/' operator", toks: b"\x0atCONSTANT 0-1 X\x0atREGEXP_BEG 2-3 /\x0atSTRING_CONTENT 3-4 \xff\x00\x0atREGEXP_END 4-5 /\x0aEOF 5-5 " },
    Rec { t: b"X / \xffd", shape: b"(send recv=(const name=\x22X\x22) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)])", full: b"(send recv=(const name=\x22X\x22 name=0-1 expression=0-1) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=4-5)] selector=2-3 expression=0-5)", diag: b"", toks: b"\x0atCONSTANT 0-1 X\x0atDIVIDE 2-3 /\x0atINTEGER 4-5 \xff\x00\x0aEOF 5-5 " },
    Rec { t: b"X/\xffd", shape: b"(send recv=(const name=\x22X\x22) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)])", full: b"(send recv=(const name=\x22X\x22 name=0-1 expression=0-1) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=2-3)] selector=1-2 expression=0-3)", diag: b"", toks: b"\x0atCONSTANT 0-1 X\x0atDIVIDE 1-2 /\x0atINTEGER 2-3 \xff\x00\x0aEOF 3-3 " },
    Rec { t: b"1 /\xffd", shape: b"(send recv=(int value=\x221\x22) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)])", full: b"(send recv=(int value=\x221\x22 expression=0-1) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=3-4)] selector=2-3 expression=0-4)", diag: b"\x0aW 2-3 `/' after local variable or literal is interpreted as binary operator even though it seems like regexp literal", toks: b"\x0atINTEGER 0-1 1\x0atDIVIDE 2-3 /\x0atINTEGER 3-4 \xff\x00\x0aEOF 4-4 " },
    Rec { t: b"1.5 /\xffd", shape: b"(send recv=(float value=\x221.5\x22) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)])", full: b"(send recv=(float value=\x221.5\x22 expression=0-3) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=5-6)] selector=4-5 expression=0-6)", diag: b"\x0aW 4-5 `/' after local variable or literal is interpreted as binary operator even though it seems like regexp literal", toks: b"\x0atFLOAT 0-3 1.5\x0atDIVIDE 4-5 /\x0atINTEGER 5-6 \xff\x00\x0aEOF 6-6 " },
    Rec { t: b"'a' /\xffd", shape: b"(send recv=(str value=\x22a\x22) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)])", full: b"(send recv=(str value=\x22a\x22 begin=0-1 end=2-3 expression=0-3) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=5-6)] selector=4-5 expression=0-6)", diag: b"\x0aW 4-5 `/' after local variable or literal is interpreted as binary operator even though it seems like regexp literal", toks: b"\x0atSTRING_BEG 0-1 '\x0atSTRING_CONTENT 1-2 a\x0atSTRING_END 2-3 '\x0atDIVIDE 4-5 /\x0atINTEGER 5-6 \xff\x00\x0aEOF 6-6 " },
    Rec { t: b":a /\xffd", shape: b"(send recv=(sym name=\x22a\x22) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)])", full: b"(send recv=(sym name=\x22a\x22 begin=0-1 expression=0-2) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=4-5)] selector=3-4 expression=0-5)", diag: b"\x0aW 3-4 `/' after local variable or literal is interpreted as binary operator even though it seems like regexp literal", toks: b"\x0atSYMBEG 0-1 :\x0atIDENTIFIER 1-2 a\x0atDIVIDE 3-4 /\x0atINTEGER 4-5 \xff\x00\x0aEOF 5-5 " },
    Rec { t: b"(x) /\xffd", shape: b"(send recv=(begin statements=[(send method_name=\x22x\x22 args=[])]) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)])", full: b"(send recv=(begin statements=[(send method_name=\x22x\x22 args=[] selector=1-2 expression=1-2)] begin=0-1 end=2-3 expression=0-3) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=5-6)] selector=4-5 expression=0-6)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atIDENTIFIER 1-2 x\x0atRPAREN 2-3 )\x0atDIVIDE 4-5 /\x0atINTEGER 5-6 \xff\x00\x0aEOF 6-6 " },
    Rec { t: b"[x] /\xffd", shape: b"(send recv=(array elements=[(send method_name=\x22x\x22 args=[])]) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)])", full: b"(send recv=(array elements=[(send method_name=\x22x\x22 args=[] selector=1-2 expression=1-2)] begin=0-1 end=2-3 expression=0-3) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=5-6)] selector=4-5 expression=0-6)", diag: b"\x0aW 4-5 `/' after local variable or literal is interpreted as binary operator even though it seems like regexp literal", toks: b"\x0atLBRACK 0-1 [\x0atIDENTIFIER 1-2 x\x0atRBRACK 2-3 ]\x0atDIVIDE 4-5 /\x0atINTEGER 5-6 \xff\x00\x0aEOF 6-6 " },
    Rec { t: b"{} / \xffd", shape: b"(send recv=(hash pairs=[]) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)])", full: b"(send recv=(hash pairs=[] begin=0-1 end=1-2 expression=0-2) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=5-6)] selector=3-4 expression=0-6)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atRCURLY 1-2 }\x0atDIVIDE 3-4 /\x0atINTEGER 5-6 \xff\x00\x0aEOF 6-6 " },
    Rec { t: b"x[1] /\xffd", shape: b"(send recv=(index recv=(send method_name=\x22x\x22 args=[]) indexes=[(int value=\x221\x22)]) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)])", full: b"(send recv=(index recv=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) indexes=[(int value=\x221\x22 expression=2-3)] begin=1-2 end=3-4 expression=0-4) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=6-7)] selector=5-6 expression=0-7)", diag: b"\x0aW 5-6 `/' after local variable or literal is interpreted as binary operator even though it seems like regexp literal", toks: b"\x0atIDENTIFIER 0-1 x\x0atLBRACK2 1-2 [\x0atINTEGER 2-3 1\x0atRBRACK 3-4 ]\x0atDIVIDE 5-6 /\x0atINTEGER 6-7 \xff\x00\x0aEOF 7-7 " },
    Rec { t: b"x() /\xffd", shape: b"(send recv=(send method_name=\x22x\x22 args=[]) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)])", full: b"(send recv=(send method_name=\x22x\x22 args=[] selector=0-1 begin=1-2 end=2-3 expression=0-3) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=5-6)] selector=4-5 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atLPAREN2 1-2 (\x0atRPAREN 2-3 )\x0atDIVIDE 4-5 /\x0atINTEGER 5-6 \xff\x00\x0aEOF 6-6 " },
    Rec { t: b"x {} / \xffd", shape: b"(send recv=(block call=(send method_name=\x22x\x22 args=[])) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)])", full: b"(send recv=(block call=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) begin=2-3 end=3-4 expression=0-4) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=7-8)] selector=5-6 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atLCURLY 2-3 {\x0atRCURLY 3-4 }\x0atDIVIDE 5-6 /\x0atINTEGER 7-8 \xff\x00\x0aEOF 8-8 " },
    Rec { t: b"nil /\xffd", shape: b"(send recv=(nil) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)])", full: b"(send recv=(nil expression=0-3) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=5-6)] selector=4-5 expression=0-6)", diag: b"\x0aW 4-5 `/' after local variable or literal is interpreted as binary operator even though it seems like regexp literal", toks: b"\x0akNIL 0-3 nil\x0atDIVIDE 4-5 /\x0atINTEGER 5-6 \xff\x00\x0aEOF 6-6 " },
    Rec { t: b"self /\xffd", shape: b"(send recv=(self_) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)])", full: b"(send recv=(self_ expression=0-4) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=6-7)] selector=5-6 expression=0-7)", diag: b"\x0aW 5-6 `/' after local variable or literal is interpreted as binary operator even though it seems like regexp literal", toks: b"\x0akSELF 0-4 self\x0atDIVIDE 5-6 /\x0atINTEGER 6-7 \xff\x00\x0aEOF 7-7 " },
    Rec { t: b"true /\xffd", shape: b"(send recv=(true) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)])", full: b"(send recv=(true expression=0-4) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=6-7)] selector=5-6 expression=0-7)", diag: b"\x0aW 5-6 `/' after local variable or literal is interpreted as binary operator even though it seems like regexp literal", toks: b"\x0akTRUE 0-4 true\x0atDIVIDE 5-6 /\x0atINTEGER 6-7 \xff\x00\x0aEOF 7-7 " },
    Rec { t: b"__FILE__ /\xffd", shape: b"(send recv=(file) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)])", full: b"(send recv=(file expression=0-8) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=10-11)] selector=9-10 expression=0-11)", diag: b"\x0aW 9-10 `/' after local variable or literal is interpreted as binary operator even though it seems like regexp literal", toks: b"\x0ak__FILE__ 0-8 __FILE__\x0atDIVIDE 9-10 /\x0atINTEGER 10-11 \xff\x00\x0aEOF 11-11 " },
    Rec { t: b"def /(x); end", shape: b"(def name=\x22/\x22 args=(args args=[(arg name=\x22x\x22)]))", full: b"(def name=\x22/\x22 args=(args args=[(arg name=\x22x\x22 expression=6-7)] expression=5-8 begin=5-6 end=7-8) keyword=0-3 name=4-5 end=10-13 expression=0-13)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atDIVIDE 4-5 /\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-7 x\x0atRPAREN 7-8 )\x0atSEMI 8-9 ;\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"x./(\xffd)", shape: b"(send recv=(send method_name=\x22x\x22 args=[]) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)])", full: b"(send recv=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=4-5)] dot=1-2 selector=2-3 begin=3-4 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atDOT 1-2 .\x0atDIVIDE 2-3 /\x0atLPAREN2 3-4 (\x0atINTEGER 4-5 \xff\x00\x0atRPAREN 5-6 )\x0aEOF 6-6 " },
    Rec { t: b"x::/(\xffd)", shape: b"(send recv=(send method_name=\x22x\x22 args=[]) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)])", full: b"(send recv=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=5-6)] dot=1-3 selector=3-4 begin=4-5 end=6-7 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atCOLON2 1-3 ::\x0atDIVIDE 3-4 /\x0atLPAREN2 4-5 (\x0atINTEGER 5-6 \xff\x00\x0atRPAREN 6-7 )\x0aEOF 7-7 " },
    Rec { t: b":/", shape: b"(sym name=\x22/\x22)", full: b"(sym name=\x22/\x22 begin=0-1 expression=0-2)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atDIVIDE 1-2 /\x0aEOF 2-2 " },
    Rec { t: b"%i[/]", shape: b"(array elements=[(sym name=\x22/\x22)])", full: b"(array elements=[(sym name=\x22/\x22 expression=3-4)] begin=0-3 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atQSYMBOLS_BEG 0-3 %i[\x0atSPACE 3-3 \x0atSTRING_CONTENT 3-4 /\x0atSPACE 4-4 \x0atSTRING_END 4-5 ]\x0aEOF 5-5 " },
    Rec { t: b"alias x /", shape: b"(alias to=(sym name=\x22x\x22) from=(sym name=\x22/\x22))", full: b"(alias to=(sym name=\x22x\x22 expression=6-7) from=(sym name=\x22/\x22 expression=8-9) keyword=0-5 expression=0-9)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atIDENTIFIER 6-7 x\x0atDIVIDE 8-9 /\x0aEOF 9-9 " },
    Rec { t: b"undef /", shape: b"(undef names=[(sym name=\x22/\x22)])", full: b"(undef names=[(sym name=\x22/\x22 expression=6-7)] keyword=0-5 expression=0-7)", diag: b"", toks: b"\x0akUNDEF 0-5 undef\x0atDIVIDE 6-7 /\x0aEOF 7-7 " },
    Rec { t: b"x = /a\xffa/", shape: b"(lvasgn name=\x22x\x22 value=(regexp parts=[(str value=\x22a\xff\x00\x22)]))", full: b"(lvasgn name=\x22x\x22 value=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=5-7)] begin=4-5 end=7-8 expression=4-8) name=0-1 operator=2-3 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0atREGEXP_BEG 4-5 /\x0atSTRING_CONTENT 5-7 a\xff\x00\x0atREGEXP_END 7-8 /\x0aEOF 8-8 " },
    Rec { t: b"x += /a\xffa/", shape: b"(op_asgn recv=(lvasgn name=\x22x\x22) operator=\x22+\x22 value=(regexp parts=[(str value=\x22a\xff\x00\x22)]))", full: b"(op_asgn recv=(lvasgn name=\x22x\x22 name=0-1 expression=0-1) operator=\x22+\x22 value=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=6-8)] begin=5-6 end=8-9 expression=5-9) operator=2-4 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atOP_ASGN 2-4 +=\x0atREGEXP_BEG 5-6 /\x0atSTRING_CONTENT 6-8 a\xff\x00\x0atREGEXP_END 8-9 /\x0aEOF 9-9 " },
    Rec { t: b"x /= \xffd", shape: b"(op_asgn recv=(lvasgn name=\x22x\x22) operator=\x22/\x22 value=(int value=\x22\xff\x00\x22))", full: b"(op_asgn recv=(lvasgn name=\x22x\x22 name=0-1 expression=0-1) operator=\x22/\x22 value=(int value=\x22\xff\x00\x22 expression=5-6) operator=2-4 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atOP_ASGN 2-4 /=\x0atINTEGER 5-6 \xff\x00\x0aEOF 6-6 " },
    Rec { t: b"x ||= /a\xffa/", shape: b"(or_asgn recv=(lvasgn name=\x22x\x22) value=(regexp parts=[(str value=\x22a\xff\x00\x22)]))", full: b"(or_asgn recv=(lvasgn name=\x22x\x22 name=0-1 expression=0-1) value=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=7-9)] begin=6-7 end=9-10 expression=6-10) operator=2-5 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atOP_ASGN 2-5 ||=\x0atREGEXP_BEG 6-7 /\x0atSTRING_CONTENT 7-9 a\xff\x00\x0atREGEXP_END 9-10 /\x0aEOF 10-10 " },
    Rec { t: b"[/a\xffa/, /b\xffa/]", shape: b"(array elements=[(regexp parts=[(str value=\x22a\xff\x00\x22)]) (regexp parts=[(str value=\x22b\xff\x01\x22)])])", full: b"(array elements=[(regexp parts=[(str value=\x22a\xff\x00\x22 expression=2-4)] begin=1-2 end=4-5 expression=1-5) (regexp parts=[(str value=\x22b\xff\x01\x22 expression=8-10)] begin=7-8 end=10-11 expression=7-11)] begin=0-1 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atREGEXP_BEG 1-2 /\x0atSTRING_CONTENT 2-4 a\xff\x00\x0atREGEXP_END 4-5 /\x0atCOMMA 5-6 ,\x0atREGEXP_BEG 7-8 /\x0atSTRING_CONTENT 8-10 b\xff\x01\x0atREGEXP_END 10-11 /\x0atRBRACK 11-12 ]\x0aEOF 12-12 " },
    Rec { t: b"{a: /a\xffa/}", shape: b"(hash pairs=[(pair key=(sym name=\x22a\x22) value=(regexp parts=[(str value=\x22a\xff\x00\x22)]))])", full: b"(hash pairs=[(pair key=(sym name=\x22a\x22 expression=1-2) value=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=5-7)] begin=4-5 end=7-8 expression=4-8) operator=2-3 expression=1-8)] begin=0-1 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 1-3 a\x0atREGEXP_BEG 4-5 /\x0atSTRING_CONTENT 5-7 a\xff\x00\x0atREGEXP_END 7-8 /\x0atRCURLY 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"{/a\xffa/ => 1}", shape: b"(hash pairs=[(pair key=(regexp parts=[(str value=\x22a\xff\x00\x22)]) value=(int value=\x221\x22))])", full: b"(hash pairs=[(pair key=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=2-4)] begin=1-2 end=4-5 expression=1-5) value=(int value=\x221\x22 expression=9-10) operator=6-8 expression=1-10)] begin=0-1 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atREGEXP_BEG 1-2 /\x0atSTRING_CONTENT 2-4 a\xff\x00\x0atREGEXP_END 4-5 /\x0atASSOC 6-8 =>\x0atINTEGER 9-10 1\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"return /a\xffa/", shape: b"(return args=[(regexp parts=[(str value=\x22a\xff\x00\x22)])])", full: b"(return args=[(regexp parts=[(str value=\x22a\xff\x00\x22 expression=8-10)] begin=7-8 end=10-11 expression=7-11)] keyword=0-6 expression=0-11)", diag: b"", toks: b"\x0akRETURN 0-6 return\x0atREGEXP_BEG 7-8 /\x0atSTRING_CONTENT 8-10 a\xff\x00\x0atREGEXP_END 10-11 /\x0aEOF 11-11 " },
    Rec { t: b"yield /a\xffa/", shape: b"(yield args=[(regexp parts=[(str value=\x22a\xff\x00\x22)])])", full: b"(yield args=[(regexp parts=[(str value=\x22a\xff\x00\x22 expression=7-9)] begin=6-7 end=9-10 expression=6-10)] keyword=0-5 expression=0-10)", diag: b"\x0aW 6-7 ambiguity between regexp and two divisions: wrap regexp in parentheses or add a space after `/' operator", toks: b"\x0akYIELD 0-5 yield\x0atREGEXP_BEG 6-7 /\x0atSTRING_CONTENT 7-9 a\xff\x00\x0atREGEXP_END 9-10 /\x0aEOF 10-10 " },
    Rec { t: b"super /a\xffa/", shape: b"(super args=[(regexp parts=[(str value=\x22a\xff\x00\x22)])])", full: b"(super args=[(regexp parts=[(str value=\x22a\xff\x00\x22 expression=7-9)] begin=6-7 end=9-10 expression=6-10)] keyword=0-5 expression=0-10)", diag: b"\x0aW 6-7 ambiguity between regexp and two divisions: wrap regexp in parentheses or add a space after `/' operator", toks: b"\x0akSUPER 0-5 super\x0atREGEXP_BEG 6-7 /\x0atSTRING_CONTENT 7-9 a\xff\x00\x0atREGEXP_END 9-10 /\x0aEOF 10-10 " },
    Rec { t: b"break /a\xffa/", shape: b"(break args=[(regexp parts=[(str value=\x22a\xff\x00\x22)])])", full: b"(break args=[(regexp parts=[(str value=\x22a\xff\x00\x22 expression=7-9)] begin=6-7 end=9-10 expression=6-10)] keyword=0-5 expression=0-10)", diag: b"", toks: b"\x0akBREAK 0-5 break\x0atREGEXP_BEG 6-7 /\x0atSTRING_CONTENT 7-9 a\xff\x00\x0atREGEXP_END 9-10 /\x0aEOF 10-10 " },
    Rec { t: b"next /a\xffa/", shape: b"(next args=[(regexp parts=[(str value=\x22a\xff\x00\x22)])])", full: b"(next args=[(regexp parts=[(str value=\x22a\xff\x00\x22 expression=6-8)] begin=5-6 end=8-9 expression=5-9)] keyword=0-4 expression=0-9)", diag: b"", toks: b"\x0akNEXT 0-4 next\x0atREGEXP_BEG 5-6 /\x0atSTRING_CONTENT 6-8 a\xff\x00\x0atREGEXP_END 8-9 /\x0aEOF 9-9 " },
    Rec { t: b"case x; when /a\xffa/; end", shape: b"(case expr=(send method_name=\x22x\x22 args=[]) when_bodies=[(when patterns=[(regexp parts=[(str value=\x22a\xff\x00\x22)])])])", full: b"(case expr=(send method_name=\x22x\x22 args=[] selector=5-6 expression=5-6) when_bodies=[(when patterns=[(regexp parts=[(str value=\x22a\xff\x00\x22 expression=14-16)] begin=13-14 end=16-17 expression=13-17)] keyword=8-12 begin=17-18 expression=8-17)] keyword=0-4 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-6 x\x0atSEMI 6-7 ;\x0akWHEN 8-12 when\x0atREGEXP_BEG 13-14 /\x0atSTRING_CONTENT 14-16 a\xff\x00\x0atREGEXP_END 16-17 /\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"case x; when /a\xffa/, /b\xffa/; end", shape: b"(case expr=(send method_name=\x22x\x22 args=[]) when_bodies=[(when patterns=[(regexp parts=[(str value=\x22a\xff\x00\x22)]) (regexp parts=[(str value=\x22b\xff\x01\x22)])])])", full: b"(case expr=(send method_name=\x22x\x22 args=[] selector=5-6 expression=5-6) when_bodies=[(when patterns=[(regexp parts=[(str value=\x22a\xff\x00\x22 expression=14-16)] begin=13-14 end=16-17 expression=13-17) (regexp parts=[(str value=\x22b\xff\x01\x22 expression=20-22)] begin=19-20 end=22-23 expression=19-23)] keyword=8-12 begin=23-24 expression=8-23)] keyword=0-4 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-6 x\x0atSEMI 6-7 ;\x0akWHEN 8-12 when\x0atREGEXP_BEG 13-14 /\x0atSTRING_CONTENT 14-16 a\xff\x00\x0atREGEXP_END 16-17 /\x0atCOMMA 17-18 ,\x0atREGEXP_BEG 19-20 /\x0atSTRING_CONTENT 20-22 b\xff\x01\x0atREGEXP_END 22-23 /\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"case x; in /a\xffa/; end", shape: b"(case_match expr=(send method_name=\x22x\x22 args=[]) in_bodies=[(in_pattern pattern=(regexp parts=[(str value=\x22a\xff\x00\x22)]))])", full: b"(case_match expr=(send method_name=\x22x\x22 args=[] selector=5-6 expression=5-6) in_bodies=[(in_pattern pattern=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=12-14)] begin=11-12 end=14-15 expression=11-15) keyword=8-10 begin=15-16 expression=8-15)] keyword=0-4 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-6 x\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atREGEXP_BEG 11-12 /\x0atSTRING_CONTENT 12-14 a\xff\x00\x0atREGEXP_END 14-15 /\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"x in /a\xffa/", shape: b"(match_pattern_p value=(send method_name=\x22x\x22 args=[]) pattern=(regexp parts=[(str value=\x22a\xff\x00\x22)]))", full: b"(match_pattern_p value=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) pattern=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=6-8)] begin=5-6 end=8-9 expression=5-9) operator=2-4 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0akIN 2-4 in\x0atREGEXP_BEG 5-6 /\x0atSTRING_CONTENT 6-8 a\xff\x00\x0atREGEXP_END 8-9 /\x0aEOF 9-9 " },
    Rec { t: b"x => /a\xffa/", shape: b"(match_pattern value=(send method_name=\x22x\x22 args=[]) pattern=(regexp parts=[(str value=\x22a\xff\x00\x22)]))", full: b"(match_pattern value=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) pattern=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=6-8)] begin=5-6 end=8-9 expression=5-9) operator=2-4 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atASSOC 2-4 =>\x0atREGEXP_BEG 5-6 /\x0atSTRING_CONTENT 6-8 a\xff\x00\x0atREGEXP_END 8-9 /\x0aEOF 9-9 " },
    Rec { t: b"x or /a\xffa/", shape: b"(or lhs=(send method_name=\x22x\x22 args=[]) rhs=(regexp parts=[(str value=\x22a\xff\x00\x22)]))", full: b"(or lhs=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) rhs=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=6-8)] begin=5-6 end=8-9 expression=5-9) operator=2-4 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0akOR 2-4 or\x0atREGEXP_BEG 5-6 /\x0atSTRING_CONTENT 6-8 a\xff\x00\x0atREGEXP_END 8-9 /\x0aEOF 9-9 " },
    Rec { t: b"x and /a\xffa/", shape: b"(and lhs=(send method_name=\x22x\x22 args=[]) rhs=(regexp parts=[(str value=\x22a\xff\x00\x22)]))", full: b"(and lhs=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) rhs=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=7-9)] begin=6-7 end=9-10 expression=6-10) operator=2-5 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0akAND 2-5 and\x0atREGEXP_BEG 6-7 /\x0atSTRING_CONTENT 7-9 a\xff\x00\x0atREGEXP_END 9-10 /\x0aEOF 10-10 " },
    Rec { t: b"x ? /a\xffa/ : /b\xffa/", shape: b"(if_ternary cond=(send method_name=\x22x\x22 args=[]) if_true=(regexp parts=[(str value=\x22a\xff\x00\x22)]) if_false=(regexp parts=[(str value=\x22b\xff\x01\x22)]))", full: b"(if_ternary cond=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) if_true=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=5-7)] begin=4-5 end=7-8 expression=4-8) if_false=(regexp parts=[(str value=\x22b\xff\x01\x22 expression=12-14)] begin=11-12 end=14-15 expression=11-15) question=2-3 colon=9-10 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atEH 2-3 ?\x0atREGEXP_BEG 4-5 /\x0atSTRING_CONTENT 5-7 a\xff\x00\x0atREGEXP_END 7-8 /\x0atCOLON 9-10 :\x0atREGEXP_BEG 11-12 /\x0atSTRING_CONTENT 12-14 b\xff\x01\x0atREGEXP_END 14-15 /\x0aEOF 15-15 " },
    Rec { t: b"x { /a\xffa/ }", shape: b"(block call=(send method_name=\x22x\x22 args=[]) body=(regexp parts=[(str value=\x22a\xff\x00\x22)]))", full: b"(block call=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) body=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=5-7)] begin=4-5 end=7-8 expression=4-8) begin=2-3 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atLCURLY 2-3 {\x0atREGEXP_BEG 4-5 /\x0atSTRING_CONTENT 5-7 a\xff\x00\x0atREGEXP_END 7-8 /\x0atRCURLY 9-10 }\x0aEOF 10-10 " },
    Rec { t: b"x do /a\xffa/ end", shape: b"(block call=(send method_name=\x22x\x22 args=[]) body=(regexp parts=[(str value=\x22a\xff\x00\x22)]))", full: b"(block call=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) body=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=6-8)] begin=5-6 end=8-9 expression=5-9) begin=2-4 end=10-13 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0akDO 2-4 do\x0atREGEXP_BEG 5-6 /\x0atSTRING_CONTENT 6-8 a\xff\x00\x0atREGEXP_END 8-9 /\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"-> { /a\xffa/ }", shape: b"(block call=(lambda) body=(regexp parts=[(str value=\x22a\xff\x00\x22)]))", full: b"(block call=(lambda expression=0-2) body=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=6-8)] begin=5-6 end=8-9 expression=5-9) begin=3-4 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLAMBEG 3-4 {\x0atREGEXP_BEG 5-6 /\x0atSTRING_CONTENT 6-8 a\xff\x00\x0atREGEXP_END 8-9 /\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"x { |y| /a\xffa/ }", shape: b"(block call=(send method_name=\x22x\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22y\x22)])]) body=(regexp parts=[(str value=\x22a\xff\x00\x22)]))", full: b"(block call=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) args=(args args=[(procarg0 args=[(arg name=\x22y\x22 expression=5-6)] expression=5-6)] expression=4-7 begin=4-5 end=6-7) body=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=9-11)] begin=8-9 end=11-12 expression=8-12) begin=2-3 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atIDENTIFIER 5-6 y\x0atPIPE 6-7 |\x0atREGEXP_BEG 8-9 /\x0atSTRING_CONTENT 9-11 a\xff\x00\x0atREGEXP_END 11-12 /\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"x { |y = /a\xffa/| }", shape: b"(block call=(send method_name=\x22x\x22 args=[]) args=(args args=[(optarg name=\x22y\x22 default=(regexp parts=[(str value=\x22a\xff\x00\x22)]))]))", full: b"(block call=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) args=(args args=[(optarg name=\x22y\x22 default=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=10-12)] begin=9-10 end=12-13 expression=9-13) name=5-6 operator=7-8 expression=5-13)] expression=4-14 begin=4-5 end=13-14) begin=2-3 end=15-16 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atIDENTIFIER 5-6 y\x0atEQL 7-8 =\x0atREGEXP_BEG 9-10 /\x0atSTRING_CONTENT 10-12 a\xff\x00\x0atREGEXP_END 12-13 /\x0atPIPE 13-14 |\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"def x(y = /a\xffa/); end", shape: b"(def name=\x22x\x22 args=(args args=[(optarg name=\x22y\x22 default=(regexp parts=[(str value=\x22a\xff\x00\x22)]))]))", full: b"(def name=\x22x\x22 args=(args args=[(optarg name=\x22y\x22 default=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=11-13)] begin=10-11 end=13-14 expression=10-14) name=6-7 operator=8-9 expression=6-14)] expression=5-15 begin=5-6 end=14-15) keyword=0-3 name=4-5 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 x\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-7 y\x0atEQL 8-9 =\x0atREGEXP_BEG 10-11 /\x0atSTRING_CONTENT 11-13 a\xff\x00\x0atREGEXP_END 13-14 /\x0atRPAREN 14-15 )\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"def x = /a\xffa/", shape: b"(def name=\x22x\x22 body=(regexp parts=[(str value=\x22a\xff\x00\x22)]))", full: b"(def name=\x22x\x22 body=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=9-11)] begin=8-9 end=11-12 expression=8-12) keyword=0-3 name=4-5 assignment=6-7 expression=0-12)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 x\x0atEQL 6-7 =\x0atREGEXP_BEG 8-9 /\x0atSTRING_CONTENT 9-11 a\xff\x00\x0atREGEXP_END 11-12 /\x0aEOF 12-12 " },
    Rec { t: b"def x() /a\xffa/ end", shape: b"(def name=\x22x\x22 args=(args args=[]) body=(regexp parts=[(str value=\x22a\xff\x00\x22)]))", full: b"(def name=\x22x\x22 args=(args args=[] expression=5-7 begin=5-6 end=6-7) body=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=9-11)] begin=8-9 end=11-12 expression=8-12) keyword=0-3 name=4-5 end=13-16 expression=0-16)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 x\x0atLPAREN2 5-6 (\x0atRPAREN 6-7 )\x0atREGEXP_BEG 8-9 /\x0atSTRING_CONTENT 9-11 a\xff\x00\x0atREGEXP_END 11-12 /\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"x; /a\xffa/", shape: b"(begin statements=[(send method_name=\x22x\x22 args=[]) (regexp parts=[(str value=\x22a\xff\x00\x22)])])", full: b"(begin statements=[(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) (regexp parts=[(str value=\x22a\xff\x00\x22 expression=4-6)] begin=3-4 end=6-7 expression=3-7)] expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atSEMI 1-2 ;\x0atREGEXP_BEG 3-4 /\x0atSTRING_CONTENT 4-6 a\xff\x00\x0atREGEXP_END 6-7 /\x0aEOF 7-7 " },
    Rec { t: b"begin /a\xffa/ end", shape: b"(kw_begin statements=[(regexp parts=[(str value=\x22a\xff\x00\x22)])])", full: b"(kw_begin statements=[(regexp parts=[(str value=\x22a\xff\x00\x22 expression=7-9)] begin=6-7 end=9-10 expression=6-10)] begin=0-5 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atREGEXP_BEG 6-7 /\x0atSTRING_CONTENT 7-9 a\xff\x00\x0atREGEXP_END 9-10 /\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"begin; x; rescue /a\xffa/; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22x\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(regexp parts=[(str value=\x22a\xff\x00\x22)])]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22x\x22 args=[] selector=7-8 expression=7-8) rescue_bodies=[(rescue_body exc_list=(array elements=[(regexp parts=[(str value=\x22a\xff\x00\x22 expression=18-20)] begin=17-18 end=20-21 expression=17-21)] expression=17-21) keyword=10-16 begin=21-22 expression=10-22)] expression=7-22)] begin=0-5 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-8 x\x0atSEMI 8-9 ;\x0akRESCUE 10-16 rescue\x0atREGEXP_BEG 17-18 /\x0atSTRING_CONTENT 18-20 a\xff\x00\x0atREGEXP_END 20-21 /\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"x rescue /a\xffa/", shape: b"(rescue body=(send method_name=\x22x\x22 args=[]) rescue_bodies=[(rescue_body body=(regexp parts=[(str value=\x22a\xff\x00\x22)]))])", full: b"(rescue body=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) rescue_bodies=[(rescue_body body=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=10-12)] begin=9-10 end=12-13 expression=9-13) keyword=2-8 expression=2-13)] expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0akRESCUE_MOD 2-8 rescue\x0atREGEXP_BEG 9-10 /\x0atSTRING_CONTENT 10-12 a\xff\x00\x0atREGEXP_END 12-13 /\x0aEOF 13-13 " },
    Rec { t: b"\x22#{/a\xffa/}\x22", shape: b"(dstr parts=[(begin statements=[(regexp parts=[(str value=\x22a\xff\x00\x22)])])])", full: b"(dstr parts=[(begin statements=[(regexp parts=[(str value=\x22a\xff\x00\x22 expression=4-6)] begin=3-4 end=6-7 expression=3-7)] begin=1-3 end=7-8 expression=1-8)] begin=0-1 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_DBEG 1-3 #{\x0atREGEXP_BEG 3-4 /\x0atSTRING_CONTENT 4-6 a\xff\x00\x0atREGEXP_END 6-7 /\x0atSTRING_DEND 7-8 }\x0atSTRING_END 8-9 \x22\x0aEOF 9-9 " },
    Rec { t: b"/a#{/b\xffa/}c/", shape: b"(regexp parts=[(str value=\x22a\x22) (begin statements=[(regexp parts=[(str value=\x22b\xff\x00\x22)])]) (str value=\x22c\x22)])", full: b"(regexp parts=[(str value=\x22a\x22 expression=1-2) (begin statements=[(regexp parts=[(str value=\x22b\xff\x00\x22 expression=5-7)] begin=4-5 end=7-8 expression=4-8)] begin=2-4 end=8-9 expression=2-9) (str value=\x22c\x22 expression=9-10)] begin=0-1 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-2 a\x0atSTRING_DBEG 2-4 #{\x0atREGEXP_BEG 4-5 /\x0atSTRING_CONTENT 5-7 b\xff\x00\x0atREGEXP_END 7-8 /\x0atSTRING_DEND 8-9 }\x0atSTRING_CONTENT 9-10 c\x0atREGEXP_END 10-11 /\x0aEOF 11-11 " },
    Rec { t: b"/a#{x / \xffd}c/", shape: b"(regexp parts=[(str value=\x22a\x22) (begin statements=[(send recv=(send method_name=\x22x\x22 args=[]) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)])]) (str value=\x22c\x22)])", full: b"(regexp parts=[(str value=\x22a\x22 expression=1-2) (begin statements=[(send recv=(send method_name=\x22x\x22 args=[] selector=4-5 expression=4-5) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=8-9)] selector=6-7 expression=4-9)] begin=2-4 end=9-10 expression=2-10) (str value=\x22c\x22 expression=10-11)] begin=0-1 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-2 a\x0atSTRING_DBEG 2-4 #{\x0atIDENTIFIER 4-5 x\x0atDIVIDE 6-7 /\x0atINTEGER 8-9 \xff\x00\x0atSTRING_DEND 9-10 }\x0atSTRING_CONTENT 10-11 c\x0atREGEXP_END 11-12 /\x0aEOF 12-12 " },
    Rec { t: b"x.y.z /a\xffa/i", shape: b"(send recv=(send recv=(send method_name=\x22x\x22 args=[]) method_name=\x22y\x22 args=[]) method_name=\x22z\x22 args=[(regexp parts=[(str value=\x22a\xff\x00\x22)] options=(reg_opt options=\x22i\x22))])", full: b"(send recv=(send recv=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) method_name=\x22y\x22 args=[] dot=1-2 selector=2-3 expression=0-3) method_name=\x22z\x22 args=[(regexp parts=[(str value=\x22a\xff\x00\x22 expression=7-9)] options=(reg_opt options=\x22i\x22 expression=10-11) begin=6-7 end=9-10 expression=6-11)] dot=3-4 selector=4-5 expression=0-11)", diag: b"\x0aW 6-7 ambiguity between regexp and two divisions: wrap regexp in parentheses or add a space after `/' operator", toks: b"\x0atIDENTIFIER 0-1 x\x0atDOT 1-2 .\x0atIDENTIFIER 2-3 y\x0atDOT 3-4 .\x0atIDENTIFIER 4-5 z\x0atREGEXP_BEG 6-7 /\x0atSTRING_CONTENT 7-9 a\xff\x00\x0atREGEXP_END 9-11 /i\x0aEOF 11-11 " },
    Rec { t: b"x -/a\xffa/", shape: b"(send method_name=\x22x\x22 args=[(send recv=(regexp parts=[(str value=\x22a\xff\x00\x22)]) method_name=\x22-@\x22 args=[])])", full: b"(send method_name=\x22x\x22 args=[(send recv=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=4-6)] begin=3-4 end=6-7 expression=3-7) method_name=\x22-@\x22 args=[] selector=2-3 expression=2-7)] selector=0-1 expression=0-7)", diag: b"\x0aW 2-3 ambiguous first argument; put parentheses or a space even after `-' operator", toks: b"\x0atIDENTIFIER 0-1 x\x0atUMINUS 2-3 -\x0atREGEXP_BEG 3-4 /\x0atSTRING_CONTENT 4-6 a\xff\x00\x0atREGEXP_END 6-7 /\x0aEOF 7-7 " },
    Rec { t: b"x *y / \xffd", shape: b"(send method_name=\x22x\x22 args=[(splat value=(send recv=(send method_name=\x22y\x22 args=[]) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22)]))])", full: b"(send method_name=\x22x\x22 args=[(splat value=(send recv=(send method_name=\x22y\x22 args=[] selector=3-4 expression=3-4) method_name=\x22/\x22 args=[(int value=\x22\xff\x00\x22 expression=7-8)] selector=5-6 expression=3-8) operator=2-3 expression=2-8)] selector=0-1 expression=0-8)", diag: b"\x0aW 2-3 `*' interpreted as argument prefix", toks: b"\x0atIDENTIFIER 0-1 x\x0atSTAR 2-3 *\x0atIDENTIFIER 3-4 y\x0atDIVIDE 5-6 /\x0atINTEGER 7-8 \xff\x00\x0aEOF 8-8 " },
    Rec { t: b"(/a\xffa/)", shape: b"(begin statements=[(regexp parts=[(str value=\x22a\xff\x00\x22)])])", full: b"(begin statements=[(regexp parts=[(str value=\x22a\xff\x00\x22 expression=2-4)] begin=1-2 end=4-5 expression=1-5)] begin=0-1 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atREGEXP_BEG 1-2 /\x0atSTRING_CONTENT 2-4 a\xff\x00\x0atREGEXP_END 4-5 /\x0atRPAREN 5-6 )\x0aEOF 6-6 " },
    Rec { t: b"x = /a\xffa/i; x /\xffd", shape: b"(begin statements=[(lvasgn name=\x22x\x22 value=(regexp parts=[(str value=\x22a\xff\x00\x22)] options=(reg_opt options=\x22i\x22))) (send recv=(lvar name=\x22x\x22) method_name=\x22/\x22 args=[(int value=\x22\xff\x01\x22)])])", full: b"(begin statements=[(lvasgn name=\x22x\x22 value=(regexp parts=[(str value=\x22a\xff\x00\x22 expression=5-7)] options=(reg_opt options=\x22i\x22 expression=8-9) begin=4-5 end=7-8 expression=4-9) name=0-1 operator=2-3 expression=0-9) (send recv=(lvar name=\x22x\x22 expression=11-12) method_name=\x22/\x22 args=[(int value=\x22\xff\x01\x22 expression=14-15)] selector=13-14 expression=11-15)] expression=0-15)", diag: b"\x0aW 13-14 `/' after local variable or literal is interpreted as binary operator even though it seems like regexp literal", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0atREGEXP_BEG 4-5 /\x0atSTRING_CONTENT 5-7 a\xff\x00\x0atREGEXP_END 7-9 /i\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-12 x\x0atDIVIDE 13-14 /\x0atINTEGER 14-15 \xff\x01\x0aEOF 15-15 " },
    Rec { t: b"/a\xffa/q", shape: b"(regexp parts=[(str value=\x22a\xff\x00\x22)] options=(reg_opt))", full: b"(regexp parts=[(str value=\x22a\xff\x00\x22 expression=1-3)] options=(reg_opt expression=4-5) begin=0-1 end=3-4 expression=0-5)", diag: b"\x0aE 3-5 unknown regexp options - q", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-3 a\xff\x00\x0atREGEXP_END 3-5 /\x0aEOF 5-5 " },
    Rec { t: b"/a\xffa/ixk", shape: b"(regexp parts=[(str value=\x22a\xff\x00\x22)] options=(reg_opt options=\x22ix\x22))", full: b"(regexp parts=[(str value=\x22a\xff\x00\x22 expression=1-3)] options=(reg_opt options=\x22ix\x22 expression=4-7) begin=0-1 end=3-4 expression=0-7)", diag: b"\x0aE 3-7 unknown regexp options - k", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-3 a\xff\x00\x0atREGEXP_END 3-7 /ix\x0aEOF 7-7 " },
    Rec { t: b"/a\xffa/qzk", shape: b"(regexp parts=[(str value=\x22a\xff\x00\x22)] options=(reg_opt))", full: b"(regexp parts=[(str value=\x22a\xff\x00\x22 expression=1-3)] options=(reg_opt expression=4-7) begin=0-1 end=3-4 expression=0-7)", diag: b"\x0aE 3-7 unknown regexp options - qzk", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-3 a\xff\x00\x0atREGEXP_END 3-7 /\x0aEOF 7-7 " },
    Rec { t: b"/a\xffa", shape: b"(regexp parts=[(str value=\x22a\xff\x00\x22)])", full: b"(regexp parts=[(str value=\x22a\xff\x00\x22 expression=1-3)] begin=0-1 end=3-3 expression=0-3)", diag: b"\x0aE 3-3 unterminated regexp meets end of file", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-3 a\xff\x00\x0atREGEXP_END 3-3 \x0aEOF 3-3 " },
    Rec { t: b"/a\xffa#{v\xffa", shape: b"none", full: b"none", diag: b"\x0aE 7-7 unexpected END_OF_INPUT", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-3 a\xff\x00\x0atSTRING_DBEG 3-5 #{\x0atIDENTIFIER 5-7 v\xff\x01\x0aEOF 7-7 " },
    Rec { t: b"%r{a\xffa", shape: b"(regexp parts=[(str value=\x22a\xff\x00\x22)])", full: b"(regexp parts=[(str value=\x22a\xff\x00\x22 expression=3-5)] begin=0-3 end=5-5 expression=0-5)", diag: b"\x0aE 5-5 unterminated regexp meets end of file", toks: b"\x0atREGEXP_BEG 0-3 %r{\x0atSTRING_CONTENT 3-5 a\xff\x00\x0atREGEXP_END 5-5 \x0aEOF 5-5 " },
    Rec { t: b"/a\x5cxg/", shape: b"(regexp parts=[(str value=\x22a\x22) (str value=\x22g\x22)])", full: b"(regexp parts=[(str value=\x22a\x22 expression=1-4) (str value=\x22g\x22 expression=4-5)] begin=0-1 end=5-6 expression=0-6)", diag: b"\x0aE 2-4 invalid hex escape", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-4 a\x0atSTRING_CONTENT 4-5 g\x0atREGEXP_END 5-6 /\x0aEOF 6-6 " },
    Rec { t: b"/a\x5cu12/", shape: b"(regexp parts=[(str value=\x22a\x5cu\x22)])", full: b"(regexp parts=[(str value=\x22a\x5cu\x22 expression=1-6)] begin=0-1 end=6-7 expression=0-7)", diag: b"\x0aE 6-7 invalid Unicode escape", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-6 a\x5cu\x0atREGEXP_END 6-7 /\x0aEOF 7-7 " },
    Rec { t: b"/a\x5cu{110000}/", shape: b"(regexp parts=[(str value=\x22a\x5cu{}\x22)])", full: b"(regexp parts=[(str value=\x22a\x5cu{}\x22 expression=1-12)] begin=0-1 end=12-13 expression=0-13)", diag: b"\x0aE 5-11 invalid Unicode codepoint (too large)", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-12 a\x5cu{}\x0atREGEXP_END 12-13 /\x0aEOF 13-13 " },
];
pub static WORDS: &[Rec] = &[
    Rec { t: b"{\x22if\x22: \xffd, if: 2}", shape: b"(hash pairs=[(pair key=(sym name=\x22if\x22) value=(int value=\x22\xff\x00\x22)) (pair key=(sym name=\x22if\x22) value=(int value=\x222\x22))])", full: b"(hash pairs=[(pair key=(sym name=\x22if\x22 begin=1-2 end=4-5 expression=1-5) value=(int value=\x22\xff\x00\x22 expression=7-8) operator=5-6 expression=1-8) (pair key=(sym name=\x22if\x22 expression=10-12) value=(int value=\x222\x22 expression=14-15) operator=12-13 expression=10-15)] begin=0-1 end=15-16 expression=0-16)", diag: b"\x0aW 10-12 key is duplicated and overwritten", toks: b"\x0atLBRACE 0-1 {\x0atSTRING_BEG 1-2 \x22\x0atSTRING_CONTENT 2-4 if\x0atLABEL_END 4-6 \x22:\x0atINTEGER 7-8 \xff\x00\x0atCOMMA 8-9 ,\x0atLABEL 10-13 if\x0atINTEGER 14-15 2\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"{if: \xffd, end: 2, class: 3}", shape: b"(hash pairs=[(pair key=(sym name=\x22if\x22) value=(int value=\x22\xff\x00\x22)) (pair key=(sym name=\x22end\x22) value=(int value=\x222\x22)) (pair key=(sym name=\x22class\x22) value=(int value=\x223\x22))])", full: b"(hash pairs=[(pair key=(sym name=\x22if\x22 expression=1-3) value=(int value=\x22\xff\x00\x22 expression=5-6) operator=3-4 expression=1-6) (pair key=(sym name=\x22end\x22 expression=8-11) value=(int value=\x222\x22 expression=13-14) operator=11-12 expression=8-14) (pair key=(sym name=\x22class\x22 expression=16-21) value=(int value=\x223\x22 expression=23-24) operator=21-22 expression=16-24)] begin=0-1 end=24-25 expression=0-25)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 1-4 if\x0atINTEGER 5-6 \xff\x00\x0atCOMMA 6-7 ,\x0atLABEL 8-12 end\x0atINTEGER 13-14 2\x0atCOMMA 14-15 ,\x0atLABEL 16-22 class\x0atINTEGER 23-24 3\x0atRCURLY 24-25 }\x0aEOF 25-25 " },
    Rec { t: b"p if: \xffd", shape: b"(send method_name=\x22p\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22if\x22) value=(int value=\x22\xff\x00\x22))])])", full: b"(send method_name=\x22p\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22if\x22 expression=2-4) value=(int value=\x22\xff\x00\x22 expression=6-7) operator=4-5 expression=2-7)] expression=2-7)] selector=0-1 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 p\x0atLABEL 2-5 if\x0atINTEGER 6-7 \xff\x00\x0aEOF 7-7 " },
    Rec { t: b"p if: \xffd, unless: 2", shape: b"(send method_name=\x22p\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22if\x22) value=(int value=\x22\xff\x00\x22)) (pair key=(sym name=\x22unless\x22) value=(int value=\x222\x22))])])", full: b"(send method_name=\x22p\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22if\x22 expression=2-4) value=(int value=\x22\xff\x00\x22 expression=6-7) operator=4-5 expression=2-7) (pair key=(sym name=\x22unless\x22 expression=9-15) value=(int value=\x222\x22 expression=17-18) operator=15-16 expression=9-18)] expression=2-18)] selector=0-1 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 p\x0atLABEL 2-5 if\x0atINTEGER 6-7 \xff\x00\x0atCOMMA 7-8 ,\x0atLABEL 9-16 unless\x0atINTEGER 17-18 2\x0aEOF 18-18 " },
    Rec { t: b"p(end: \xffd)", shape: b"(send method_name=\x22p\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22end\x22) value=(int value=\x22\xff\x00\x22))])])", full: b"(send method_name=\x22p\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22end\x22 expression=2-5) value=(int value=\x22\xff\x00\x22 expression=7-8) operator=5-6 expression=2-8)] expression=2-8)] selector=0-1 begin=1-2 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 p\x0atLPAREN2 1-2 (\x0atLABEL 2-6 end\x0atINTEGER 7-8 \xff\x00\x0atRPAREN 8-9 )\x0aEOF 9-9 " },
    Rec { t: b"a.class.end.if", shape: b"(send recv=(send recv=(send recv=(send method_name=\x22a\x22 args=[]) method_name=\x22class\x22 args=[]) method_name=\x22end\x22 args=[]) method_name=\x22if\x22 args=[])", full: b"(send recv=(send recv=(send recv=(send method_name=\x22a\x22 args=[] selector=0-1 expression=0-1) method_name=\x22class\x22 args=[] dot=1-2 selector=2-7 expression=0-7) method_name=\x22end\x22 args=[] dot=7-8 selector=8-11 expression=0-11) method_name=\x22if\x22 args=[] dot=11-12 selector=12-14 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 a\x0atDOT 1-2 .\x0atIDENTIFIER 2-7 class\x0atDOT 7-8 .\x0atIDENTIFIER 8-11 end\x0atDOT 11-12 .\x0atIDENTIFIER 12-14 if\x0aEOF 14-14 " },
    Rec { t: b"a.if(\xffd)", shape: b"(send recv=(send method_name=\x22a\x22 args=[]) method_name=\x22if\x22 args=[(int value=\x22\xff\x00\x22)])", full: b"(send recv=(send method_name=\x22a\x22 args=[] selector=0-1 expression=0-1) method_name=\x22if\x22 args=[(int value=\x22\xff\x00\x22 expression=5-6)] dot=1-2 selector=2-4 begin=4-5 end=6-7 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 a\x0atDOT 1-2 .\x0atIDENTIFIER 2-4 if\x0atLPAREN2 4-5 (\x0atINTEGER 5-6 \xff\x00\x0atRPAREN 6-7 )\x0aEOF 7-7 " },
    Rec { t: b"a.end { a\xffa }", shape: b"(block call=(send recv=(send method_name=\x22a\x22 args=[]) method_name=\x22end\x22 args=[]) body=(send method_name=\x22a\xff\x00\x22 args=[]))", full: b"(block call=(send recv=(send method_name=\x22a\x22 args=[] selector=0-1 expression=0-1) method_name=\x22end\x22 args=[] dot=1-2 selector=2-5 expression=0-5) body=(send method_name=\x22a\xff\x00\x22 args=[] selector=8-10 expression=8-10) begin=6-7 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 a\x0atDOT 1-2 .\x0atIDENTIFIER 2-5 end\x0atLCURLY 6-7 {\x0atIDENTIFIER 8-10 a\xff\x00\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"a.class = \xffd", shape: b"(send recv=(send method_name=\x22a\x22 args=[]) method_name=\x22class=\x22 args=[(int value=\x22\xff\x00\x22)])", full: b"(send recv=(send method_name=\x22a\x22 args=[] selector=0-1 expression=0-1) method_name=\x22class=\x22 args=[(int value=\x22\xff\x00\x22 expression=10-11)] dot=1-2 selector=2-7 operator=8-9 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 a\x0atDOT 1-2 .\x0atIDENTIFIER 2-7 class\x0atEQL 8-9 =\x0atINTEGER 10-11 \xff\x00\x0aEOF 11-11 " },
    Rec { t: b"a.class += \xffd", shape: b"(op_asgn recv=(send recv=(send method_name=\x22a\x22 args=[]) method_name=\x22class\x22 args=[]) operator=\x22+\x22 value=(int value=\x22\xff\x00\x22))", full: b"(op_asgn recv=(send recv=(send method_name=\x22a\x22 args=[] selector=0-1 expression=0-1) method_name=\x22class\x22 args=[] dot=1-2 selector=2-7 expression=0-7) operator=\x22+\x22 value=(int value=\x22\xff\x00\x22 expression=11-12) operator=8-10 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 a\x0atDOT 1-2 .\x0atIDENTIFIER 2-7 class\x0atOP_ASGN 8-10 +=\x0atINTEGER 11-12 \xff\x00\x0aEOF 12-12 " },
    Rec { t: b"a&.end ||= \xffd", shape: b"(or_asgn recv=(c_send recv=(send method_name=\x22a\x22 args=[]) method_name=\x22end\x22 args=[]) value=(int value=\x22\xff\x00\x22))", full: b"(or_asgn recv=(c_send recv=(send method_name=\x22a\x22 args=[] selector=0-1 expression=0-1) method_name=\x22end\x22 args=[] dot=1-3 selector=3-6 expression=0-6) value=(int value=\x22\xff\x00\x22 expression=11-12) operator=7-10 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 a\x0atANDDOT 1-3 &.\x0atIDENTIFIER 3-6 end\x0atOP_ASGN 7-10 ||=\x0atINTEGER 11-12 \xff\x00\x0aEOF 12-12 " },
    Rec { t: b"a::class", shape: b"(send recv=(send method_name=\x22a\x22 args=[]) method_name=\x22class\x22 args=[])", full: b"(send recv=(send method_name=\x22a\x22 args=[] selector=0-1 expression=0-1) method_name=\x22class\x22 args=[] dot=1-3 selector=3-8 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 a\x0atCOLON2 1-3 ::\x0atIDENTIFIER 3-8 class\x0aEOF 8-8 " },
    Rec { t: b"a::if(\xffd)", shape: b"(send recv=(send method_name=\x22a\x22 args=[]) method_name=\x22if\x22 args=[(int value=\x22\xff\x00\x22)])", full: b"(send recv=(send method_name=\x22a\x22 args=[] selector=0-1 expression=0-1) method_name=\x22if\x22 args=[(int value=\x22\xff\x00\x22 expression=6-7)] dot=1-3 selector=3-5 begin=5-6 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 a\x0atCOLON2 1-3 ::\x0atIDENTIFIER 3-5 if\x0atLPAREN2 5-6 (\x0atINTEGER 6-7 \xff\x00\x0atRPAREN 7-8 )\x0aEOF 8-8 " },
    Rec { t: b"a.nil?", shape: b"(send recv=(send method_name=\x22a\x22 args=[]) method_name=\x22nil?\x22 args=[])", full: b"(send recv=(send method_name=\x22a\x22 args=[] selector=0-1 expression=0-1) method_name=\x22nil?\x22 args=[] dot=1-2 selector=2-6 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 a\x0atDOT 1-2 .\x0atFID 2-6 nil?\x0aEOF 6-6 " },
    Rec { t: b"a.if?", shape: b"(send recv=(send method_name=\x22a\x22 args=[]) method_name=\x22if?\x22 args=[])", full: b"(send recv=(send method_name=\x22a\x22 args=[] selector=0-1 expression=0-1) method_name=\x22if?\x22 args=[] dot=1-2 selector=2-5 expression=0-5)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 a\x0atDOT 1-2 .\x0atFID 2-5 if?\x0aEOF 5-5 " },
    Rec { t: b"def if; end", shape: b"(def name=\x22if\x22)", full: b"(def name=\x22if\x22 keyword=0-3 name=4-6 end=8-11 expression=0-11)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akIF 4-6 if\x0atSEMI 6-7 ;\x0akEND 8-11 end\x0aEOF 11-11 " },
    Rec { t: b"def self.end; end", shape: b"(defs definee=(self_) name=\x22end\x22)", full: b"(defs definee=(self_ expression=4-8) name=\x22end\x22 keyword=0-3 operator=8-9 name=9-12 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0akEND 9-12 end\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"def a.class; end", shape: b"(defs definee=(send method_name=\x22a\x22 args=[]) name=\x22class\x22)", full: b"(defs definee=(send method_name=\x22a\x22 args=[] selector=4-5 expression=4-5) name=\x22class\x22 keyword=0-3 operator=5-6 name=6-11 end=13-16 expression=0-16)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 a\x0atDOT 5-6 .\x0akCLASS 6-11 class\x0atSEMI 11-12 ;\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"def nil?; end", shape: b"(def name=\x22nil?\x22)", full: b"(def name=\x22nil?\x22 keyword=0-3 name=4-8 end=10-13 expression=0-13)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atFID 4-8 nil?\x0atSEMI 8-9 ;\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"def end=(a\xffa); end", shape: b"(def name=\x22end=\x22 args=(args args=[(arg name=\x22a\xff\x00\x22)]))", full: b"(def name=\x22end=\x22 args=(args args=[(arg name=\x22a\xff\x00\x22 expression=9-11)] expression=8-12 begin=8-9 end=11-12) keyword=0-3 name=4-8 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-8 end=\x0atLPAREN2 8-9 (\x0atIDENTIFIER 9-11 a\xff\x00\x0atRPAREN 11-12 )\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"def class() = \xffd", shape: b"(def name=\x22class\x22 args=(args args=[]) body=(int value=\x22\xff\x00\x22))", full: b"(def name=\x22class\x22 args=(args args=[] expression=9-11 begin=9-10 end=10-11) body=(int value=\x22\xff\x00\x22 expression=14-15) keyword=0-3 name=4-9 assignment=12-13 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akCLASS 4-9 class\x0atLPAREN2 9-10 (\x0atRPAREN 10-11 )\x0atEQL 12-13 =\x0atINTEGER 14-15 \xff\x00\x0aEOF 15-15 " },
    Rec { t: b"def if(a\xffa) end", shape: b"(def name=\x22if\x22 args=(args args=[(arg name=\x22a\xff\x00\x22)]))", full: b"(def name=\x22if\x22 args=(args args=[(arg name=\x22a\xff\x00\x22 expression=7-9)] expression=6-10 begin=6-7 end=9-10) keyword=0-3 name=4-6 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akIF 4-6 if\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 a\xff\x00\x0atRPAREN 9-10 )\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b":if", shape: b"(sym name=\x22if\x22)", full: b"(sym name=\x22if\x22 begin=0-1 expression=0-3)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0akIF 1-3 if\x0aEOF 3-3 " },
    Rec { t: b":end?", shape: b"(sym name=\x22end?\x22)", full: b"(sym name=\x22end?\x22 begin=0-1 expression=0-5)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atFID 1-5 end?\x0aEOF 5-5 " },
    Rec { t: b":class=", shape: b"(sym name=\x22class=\x22)", full: b"(sym name=\x22class=\x22 begin=0-1 expression=0-7)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atIDENTIFIER 1-7 class=\x0aEOF 7-7 " },
    Rec { t: b":nil", shape: b"(sym name=\x22nil\x22)", full: b"(sym name=\x22nil\x22 begin=0-1 expression=0-4)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0akNIL 1-4 nil\x0aEOF 4-4 " },
    Rec { t: b":self", shape: b"(sym name=\x22self\x22)", full: b"(sym name=\x22self\x22 begin=0-1 expression=0-5)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0akSELF 1-5 self\x0aEOF 5-5 " },
    Rec { t: b":\x22if\x22", shape: b"(sym name=\x22if\x22)", full: b"(sym name=\x22if\x22 begin=0-2 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atSYMBEG 0-2 :\x22\x0atSTRING_CONTENT 2-4 if\x0atSTRING_END 4-5 \x22\x0aEOF 5-5 " },
    Rec { t: b"alias if end", shape: b"(alias to=(sym name=\x22if\x22) from=(sym name=\x22end\x22))", full: b"(alias to=(sym name=\x22if\x22 expression=6-8) from=(sym name=\x22end\x22 expression=9-12) keyword=0-5 expression=0-12)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0akIF 6-8 if\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"alias class= end=", shape: b"(alias to=(sym name=\x22class=\x22) from=(sym name=\x22end=\x22))", full: b"(alias to=(sym name=\x22class=\x22 expression=6-12) from=(sym name=\x22end=\x22 expression=13-17) keyword=0-5 expression=0-17)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atIDENTIFIER 6-12 class=\x0atIDENTIFIER 13-17 end=\x0aEOF 17-17 " },
    Rec { t: b"undef if, end", shape: b"(undef names=[(sym name=\x22if\x22) (sym name=\x22end\x22)])", full: b"(undef names=[(sym name=\x22if\x22 expression=6-8) (sym name=\x22end\x22 expression=10-13)] keyword=0-5 expression=0-13)", diag: b"", toks: b"\x0akUNDEF 0-5 undef\x0akIF 6-8 if\x0atCOMMA 8-9 ,\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"undef class", shape: b"(undef names=[(sym name=\x22class\x22)])", full: b"(undef names=[(sym name=\x22class\x22 expression=6-11)] keyword=0-5 expression=0-11)", diag: b"", toks: b"\x0akUNDEF 0-5 undef\x0akCLASS 6-11 class\x0aEOF 11-11 " },
    Rec { t: b"%w[if end]", shape: b"(array elements=[(str value=\x22if\x22) (str value=\x22end\x22)])", full: b"(array elements=[(str value=\x22if\x22 expression=3-5) (str value=\x22end\x22 expression=6-9)] begin=0-3 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atQWORDS_BEG 0-3 %w[\x0atSPACE 3-3 \x0atSTRING_CONTENT 3-5 if\x0atSPACE 5-6  \x0atSTRING_CONTENT 6-9 end\x0atSPACE 9-9 \x0atSTRING_END 9-10 ]\x0aEOF 10-10 " },
    Rec { t: b"%i[if end]", shape: b"(array elements=[(sym name=\x22if\x22) (sym name=\x22end\x22)])", full: b"(array elements=[(sym name=\x22if\x22 expression=3-5) (sym name=\x22end\x22 expression=6-9)] begin=0-3 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atQSYMBOLS_BEG 0-3 %i[\x0atSPACE 3-3 \x0atSTRING_CONTENT 3-5 if\x0atSPACE 5-6  \x0atSTRING_CONTENT 6-9 end\x0atSPACE 9-9 \x0atSTRING_END 9-10 ]\x0aEOF 10-10 " },
    Rec { t: b"-> (if: 1) { \xffd }", shape: b"(block call=(lambda) args=(args args=[(kwoptarg name=\x22if\x22 default=(int value=\x221\x22))]) body=(int value=\x22\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(kwoptarg name=\x22if\x22 default=(int value=\x221\x22 expression=8-9) name=4-6 expression=4-9)] expression=3-10 begin=3-4 end=9-10) body=(int value=\x22\xff\x00\x22 expression=13-14) begin=11-12 end=15-16 expression=0-16)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 3-4 (\x0atLABEL 4-7 if\x0atINTEGER 8-9 1\x0atRPAREN 9-10 )\x0atLAMBEG 11-12 {\x0atINTEGER 13-14 \xff\x00\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"def m(if:); end", shape: b"(def name=\x22m\x22 args=(args args=[(kwarg name=\x22if\x22)]))", full: b"(def name=\x22m\x22 args=(args args=[(kwarg name=\x22if\x22 name=6-8 expression=6-9)] expression=5-10 begin=5-6 end=9-10) keyword=0-3 name=4-5 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atLABEL 6-9 if\x0atRPAREN 9-10 )\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def m(if: \xffd, end:); end", shape: b"(def name=\x22m\x22 args=(args args=[(kwoptarg name=\x22if\x22 default=(int value=\x22\xff\x00\x22)) (kwarg name=\x22end\x22)]))", full: b"(def name=\x22m\x22 args=(args args=[(kwoptarg name=\x22if\x22 default=(int value=\x22\xff\x00\x22 expression=10-11) name=6-8 expression=6-11) (kwarg name=\x22end\x22 name=13-16 expression=13-17)] expression=5-18 begin=5-6 end=17-18) keyword=0-3 name=4-5 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atLABEL 6-9 if\x0atINTEGER 10-11 \xff\x00\x0atCOMMA 11-12 ,\x0atLABEL 13-17 end\x0atRPAREN 17-18 )\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"case x; in {if: a\xffa}; end", shape: b"(case_match expr=(send method_name=\x22x\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22if\x22) value=(match_var name=\x22a\xff\x00\x22))]))])", full: b"(case_match expr=(send method_name=\x22x\x22 args=[] selector=5-6 expression=5-6) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22if\x22 expression=12-14) value=(match_var name=\x22a\xff\x00\x22 name=16-18 expression=16-18) operator=14-15 expression=12-18)] begin=11-12 end=18-19 expression=11-19) keyword=8-10 begin=19-20 expression=8-19)] keyword=0-4 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-6 x\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atLABEL 12-15 if\x0atIDENTIFIER 16-18 a\xff\x00\x0atRCURLY 18-19 }\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"case x; in {if:}; end", shape: b"(case_match expr=(send method_name=\x22x\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22if\x22)]))])", full: b"(case_match expr=(send method_name=\x22x\x22 args=[] selector=5-6 expression=5-6) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22if\x22 name=12-14 expression=12-15)] begin=11-12 end=15-16 expression=11-16) keyword=8-10 begin=16-17 expression=8-16)] keyword=0-4 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-6 x\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atLABEL 12-15 if\x0atRCURLY 15-16 }\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"x => {end: a\xffa}", shape: b"(match_pattern value=(send method_name=\x22x\x22 args=[]) pattern=(hash_pattern elements=[(pair key=(sym name=\x22end\x22) value=(match_var name=\x22a\xff\x00\x22))]))", full: b"(match_pattern value=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) pattern=(hash_pattern elements=[(pair key=(sym name=\x22end\x22 expression=6-9) value=(match_var name=\x22a\xff\x00\x22 name=11-13 expression=11-13) operator=9-10 expression=6-13)] begin=5-6 end=13-14 expression=5-14) operator=2-4 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atASSOC 2-4 =>\x0atLBRACE 5-6 {\x0atLABEL 6-10 end\x0atIDENTIFIER 11-13 a\xff\x00\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"@if", shape: b"(ivar name=\x22@if\x22)", full: b"(ivar name=\x22@if\x22 expression=0-3)", diag: b"", toks: b"\x0atIVAR 0-3 @if\x0aEOF 3-3 " },
    Rec { t: b"@@end", shape: b"(cvar name=\x22@@end\x22)", full: b"(cvar name=\x22@@end\x22 expression=0-5)", diag: b"", toks: b"\x0atCVAR 0-5 @@end\x0aEOF 5-5 " },
    Rec { t: b"$class", shape: b"(gvar name=\x22$class\x22)", full: b"(gvar name=\x22$class\x22 expression=0-6)", diag: b"", toks: b"\x0atGVAR 0-6 $class\x0aEOF 6-6 " },
    Rec { t: b"@end = \xffd", shape: b"(ivasgn name=\x22@end\x22 value=(int value=\x22\xff\x00\x22))", full: b"(ivasgn name=\x22@end\x22 value=(int value=\x22\xff\x00\x22 expression=7-8) name=0-4 operator=5-6 expression=0-8)", diag: b"", toks: b"\x0atIVAR 0-4 @end\x0atEQL 5-6 =\x0atINTEGER 7-8 \xff\x00\x0aEOF 8-8 " },
    Rec { t: b"$if += \xffd", shape: b"(op_asgn recv=(gvasgn name=\x22$if\x22) operator=\x22+\x22 value=(int value=\x22\xff\x00\x22))", full: b"(op_asgn recv=(gvasgn name=\x22$if\x22 name=0-3 expression=0-3) operator=\x22+\x22 value=(int value=\x22\xff\x00\x22 expression=7-8) operator=4-6 expression=0-8)", diag: b"", toks: b"\x0atGVAR 0-3 $if\x0atOP_ASGN 4-6 +=\x0atINTEGER 7-8 \xff\x00\x0aEOF 8-8 " },
    Rec { t: b"not_if", shape: b"(send method_name=\x22not_if\x22 args=[])", full: b"(send method_name=\x22not_if\x22 args=[] selector=0-6 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-6 not_if\x0aEOF 6-6 " },
    Rec { t: b"if_not", shape: b"(send method_name=\x22if_not\x22 args=[])", full: b"(send method_name=\x22if_not\x22 args=[] selector=0-6 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-6 if_not\x0aEOF 6-6 " },
    Rec { t: b"iff", shape: b"(send method_name=\x22iff\x22 args=[])", full: b"(send method_name=\x22iff\x22 args=[] selector=0-3 expression=0-3)", diag: b"", toks: b"\x0atIDENTIFIER 0-3 iff\x0aEOF 3-3 " },
    Rec { t: b"end\xffa", shape: b"(send method_name=\x22end\xff\x00\x22 args=[])", full: b"(send method_name=\x22end\xff\x00\x22 args=[] selector=0-4 expression=0-4)", diag: b"", toks: b"\x0atIDENTIFIER 0-4 end\xff\x00\x0aEOF 4-4 " },
    Rec { t: b"End\xffa", shape: b"(const name=\x22End\xff\x00\x22)", full: b"(const name=\x22End\xff\x00\x22 name=0-4 expression=0-4)", diag: b"", toks: b"\x0atCONSTANT 0-4 End\xff\x00\x0aEOF 4-4 " },
    Rec { t: b"self\xffa", shape: b"(send method_name=\x22self\xff\x00\x22 args=[])", full: b"(send method_name=\x22self\xff\x00\x22 args=[] selector=0-5 expression=0-5)", diag: b"", toks: b"\x0atIDENTIFIER 0-5 self\xff\x00\x0aEOF 5-5 " },
    Rec { t: b"nil\xffa", shape: b"(send method_name=\x22nil\xff\x00\x22 args=[])", full: b"(send method_name=\x22nil\xff\x00\x22 args=[] selector=0-4 expression=0-4)", diag: b"", toks: b"\x0atIDENTIFIER 0-4 nil\xff\x00\x0aEOF 4-4 " },
    Rec { t: b"true\xffa", shape: b"(send method_name=\x22true\xff\x00\x22 args=[])", full: b"(send method_name=\x22true\xff\x00\x22 args=[] selector=0-5 expression=0-5)", diag: b"", toks: b"\x0atIDENTIFIER 0-5 true\xff\x00\x0aEOF 5-5 " },
    Rec { t: b"_\xffa", shape: b"(send method_name=\x22_\xff\x00\x22 args=[])", full: b"(send method_name=\x22_\xff\x00\x22 args=[] selector=0-2 expression=0-2)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 _\xff\x00\x0aEOF 2-2 " },
    Rec { t: b"__\xffa", shape: b"(send method_name=\x22__\xff\x00\x22 args=[])", full: b"(send method_name=\x22__\xff\x00\x22 args=[] selector=0-3 expression=0-3)", diag: b"", toks: b"\x0atIDENTIFIER 0-3 __\xff\x00\x0aEOF 3-3 " },
    Rec { t: b"a1\xffd", shape: b"(send method_name=\x22a1\xff\x00\x22 args=[])", full: b"(send method_name=\x22a1\xff\x00\x22 args=[] selector=0-3 expression=0-3)", diag: b"", toks: b"\x0atIDENTIFIER 0-3 a1\xff\x00\x0aEOF 3-3 " },
    Rec { t: b"a_b\xffb", shape: b"(send method_name=\x22a_b\xff\x00\x22 args=[])", full: b"(send method_name=\x22a_b\xff\x00\x22 args=[] selector=0-4 expression=0-4)", diag: b"", toks: b"\x0atIDENTIFIER 0-4 a_b\xff\x00\x0aEOF 4-4 " },
    Rec { t: b"\xffa\xffb?", shape: b"(send method_name=\x22\xff\x00\xff\x01?\x22 args=[])", full: b"(send method_name=\x22\xff\x00\xff\x01?\x22 args=[] selector=0-3 expression=0-3)", diag: b"", toks: b"\x0atFID 0-3 \xff\x00\xff\x01?\x0aEOF 3-3 " },
    Rec { t: b"\xffa\xffb!", shape: b"(send method_name=\x22\xff\x00\xff\x01!\x22 args=[])", full: b"(send method_name=\x22\xff\x00\xff\x01!\x22 args=[] selector=0-3 expression=0-3)", diag: b"", toks: b"\x0atFID 0-3 \xff\x00\xff\x01!\x0aEOF 3-3 " },
    Rec { t: b"\xffa\xffb? \xffd", shape: b"(send method_name=\x22\xff\x00\xff\x01?\x22 args=[(int value=\x22\xff\x02\x22)])", full: b"(send method_name=\x22\xff\x00\xff\x01?\x22 args=[(int value=\x22\xff\x02\x22 expression=4-5)] selector=0-3 expression=0-5)", diag: b"", toks: b"\x0atFID 0-3 \xff\x00\xff\x01?\x0atINTEGER 4-5 \xff\x02\x0aEOF 5-5 " },
    Rec { t: b"\xffu\xffb", shape: b"(const name=\x22\xff\x00\xff\x01\x22)", full: b"(const name=\x22\xff\x00\xff\x01\x22 name=0-2 expression=0-2)", diag: b"", toks: b"\x0atCONSTANT 0-2 \xff\x00\xff\x01\x0aEOF 2-2 " },
    Rec { t: b"\xffu\xffb::\xffu\xffb", shape: b"(const scope=(const name=\x22\xff\x00\xff\x01\x22) name=\x22\xff\x02\xff\x03\x22)", full: b"(const scope=(const name=\x22\xff\x00\xff\x01\x22 name=0-2 expression=0-2) name=\x22\xff\x02\xff\x03\x22 double_colon=2-4 name=4-6 expression=0-6)", diag: b"", toks: b"\x0atCONSTANT 0-2 \xff\x00\xff\x01\x0atCOLON2 2-4 ::\x0atCONSTANT 4-6 \xff\x02\xff\x03\x0aEOF 6-6 " },
    Rec { t: b"\xffu\xffb.\xffa\xffb", shape: b"(send recv=(const name=\x22\xff\x00\xff\x01\x22) method_name=\x22\xff\x02\xff\x03\x22 args=[])", full: b"(send recv=(const name=\x22\xff\x00\xff\x01\x22 name=0-2 expression=0-2) method_name=\x22\xff\x02\xff\x03\x22 args=[] dot=2-3 selector=3-5 expression=0-5)", diag: b"", toks: b"\x0atCONSTANT 0-2 \xff\x00\xff\x01\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 \xff\x02\xff\x03\x0aEOF 5-5 " },
    Rec { t: b"::\xffu\xffb", shape: b"(const scope=(cbase) name=\x22\xff\x00\xff\x01\x22)", full: b"(const scope=(cbase expression=0-2) name=\x22\xff\x00\xff\x01\x22 double_colon=0-2 name=2-4 expression=0-4)", diag: b"", toks: b"\x0atCOLON3 0-2 ::\x0atCONSTANT 2-4 \xff\x00\xff\x01\x0aEOF 4-4 " },
    Rec { t: b"\xffu\xffb()", shape: b"(send method_name=\x22\xff\x00\xff\x01\x22 args=[])", full: b"(send method_name=\x22\xff\x00\xff\x01\x22 args=[] selector=0-2 begin=2-3 end=3-4 expression=0-4)", diag: b"", toks: b"\x0atCONSTANT 0-2 \xff\x00\xff\x01\x0atLPAREN2 2-3 (\x0atRPAREN 3-4 )\x0aEOF 4-4 " },
    Rec { t: b"\xffu\xffb \xffd", shape: b"(send method_name=\x22\xff\x00\xff\x01\x22 args=[(int value=\x22\xff\x02\x22)])", full: b"(send method_name=\x22\xff\x00\xff\x01\x22 args=[(int value=\x22\xff\x02\x22 expression=3-4)] selector=0-2 expression=0-4)", diag: b"", toks: b"\x0atCONSTANT 0-2 \xff\x00\xff\x01\x0atINTEGER 3-4 \xff\x02\x0aEOF 4-4 " },
    Rec { t: b"\xffu\xffb = \xffd", shape: b"(casgn name=\x22\xff\x00\xff\x01\x22 value=(int value=\x22\xff\x02\x22))", full: b"(casgn name=\x22\xff\x00\xff\x01\x22 value=(int value=\x22\xff\x02\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6)", diag: b"", toks: b"\x0atCONSTANT 0-2 \xff\x00\xff\x01\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x02\x0aEOF 6-6 " },
    Rec { t: b"\xffu\xffb?", shape: b"(send method_name=\x22\xff\x00\xff\x01?\x22 args=[])", full: b"(send method_name=\x22\xff\x00\xff\x01?\x22 args=[] selector=0-3 expression=0-3)", diag: b"", toks: b"\x0atFID 0-3 \xff\x00\xff\x01?\x0aEOF 3-3 " },
    Rec { t: b"a.\xffu\xffb", shape: b"(send recv=(send method_name=\x22a\x22 args=[]) method_name=\x22\xff\x00\xff\x01\x22 args=[])", full: b"(send recv=(send method_name=\x22a\x22 args=[] selector=0-1 expression=0-1) method_name=\x22\xff\x00\xff\x01\x22 args=[] dot=1-2 selector=2-4 expression=0-4)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 a\x0atDOT 1-2 .\x0atCONSTANT 2-4 \xff\x00\xff\x01\x0aEOF 4-4 " },
    Rec { t: b"a.\xffu\xffb = \xffd", shape: b"(send recv=(send method_name=\x22a\x22 args=[]) method_name=\x22\xff\x00\xff\x01=\x22 args=[(int value=\x22\xff\x02\x22)])", full: b"(send recv=(send method_name=\x22a\x22 args=[] selector=0-1 expression=0-1) method_name=\x22\xff\x00\xff\x01=\x22 args=[(int value=\x22\xff\x02\x22 expression=7-8)] dot=1-2 selector=2-4 operator=5-6 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 a\x0atDOT 1-2 .\x0atCONSTANT 2-4 \xff\x00\xff\x01\x0atEQL 5-6 =\x0atINTEGER 7-8 \xff\x02\x0aEOF 8-8 " },
    Rec { t: b"a.\xffu\xffb()", shape: b"(send recv=(send method_name=\x22a\x22 args=[]) method_name=\x22\xff\x00\xff\x01\x22 args=[])", full: b"(send recv=(send method_name=\x22a\x22 args=[] selector=0-1 expression=0-1) method_name=\x22\xff\x00\xff\x01\x22 args=[] dot=1-2 selector=2-4 begin=4-5 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 a\x0atDOT 1-2 .\x0atCONSTANT 2-4 \xff\x00\xff\x01\x0atLPAREN2 4-5 (\x0atRPAREN 5-6 )\x0aEOF 6-6 " },
    Rec { t: b"a::\xffu\xffb", shape: b"(const scope=(send method_name=\x22a\x22 args=[]) name=\x22\xff\x00\xff\x01\x22)", full: b"(const scope=(send method_name=\x22a\x22 args=[] selector=0-1 expression=0-1) name=\x22\xff\x00\xff\x01\x22 double_colon=1-3 name=3-5 expression=0-5)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 a\x0atCOLON2 1-3 ::\x0atCONSTANT 3-5 \xff\x00\xff\x01\x0aEOF 5-5 " },
    Rec { t: b"a::\xffu\xffb()", shape: b"(send recv=(send method_name=\x22a\x22 args=[]) method_name=\x22\xff\x00\xff\x01\x22 args=[])", full: b"(send recv=(send method_name=\x22a\x22 args=[] selector=0-1 expression=0-1) method_name=\x22\xff\x00\xff\x01\x22 args=[] dot=1-3 selector=3-5 begin=5-6 end=6-7 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 a\x0atCOLON2 1-3 ::\x0atCONSTANT 3-5 \xff\x00\xff\x01\x0atLPAREN2 5-6 (\x0atRPAREN 6-7 )\x0aEOF 7-7 " },
    Rec { t: b"a::\xffu\xffb \xffd", shape: b"(send recv=(send method_name=\x22a\x22 args=[]) method_name=\x22\xff\x00\xff\x01\x22 args=[(int value=\x22\xff\x02\x22)])", full: b"(send recv=(send method_name=\x22a\x22 args=[] selector=0-1 expression=0-1) method_name=\x22\xff\x00\xff\x01\x22 args=[(int value=\x22\xff\x02\x22 expression=6-7)] dot=1-3 selector=3-5 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 a\x0atCOLON2 1-3 ::\x0atCONSTANT 3-5 \xff\x00\xff\x01\x0atINTEGER 6-7 \xff\x02\x0aEOF 7-7 " },
    Rec { t: b"a\xffa = 1; a\xfe\x00?", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (send method_name=\x22a\xff\x00?\x22 args=[])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (send method_name=\x22a\xff\x00?\x22 args=[] selector=8-11 expression=8-11)] expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atFID 8-11 a\xff\x00?\x0aEOF 11-11 " },
    Rec { t: b"a\xffa = 1; a\xfe\x00!", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (send method_name=\x22a\xff\x00!\x22 args=[])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (send method_name=\x22a\xff\x00!\x22 args=[] selector=8-11 expression=8-11)] expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atFID 8-11 a\xff\x00!\x0aEOF 11-11 " },
    Rec { t: b"a\xffa = 1; a\xfe\x00()", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (send method_name=\x22a\xff\x00\x22 args=[])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (send method_name=\x22a\xff\x00\x22 args=[] selector=8-10 begin=10-11 end=11-12 expression=8-12)] expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 a\xff\x00\x0atLPAREN2 10-11 (\x0atRPAREN 11-12 )\x0aEOF 12-12 " },
    Rec { t: b"a\xffa = 1; a\xfe\x00 \xffd", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (send method_name=\x22a\xff\x00\x22 args=[(int value=\x22\xff\x01\x22)])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (send method_name=\x22a\xff\x00\x22 args=[(int value=\x22\xff\x01\x22 expression=11-12)] selector=8-10 expression=8-12)] expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 a\xff\x00\x0atINTEGER 11-12 \xff\x01\x0aEOF 12-12 " },
    Rec { t: b"a\xffa = 1; a\xfe\x00.b", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (send recv=(lvar name=\x22a\xff\x00\x22) method_name=\x22b\x22 args=[])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (send recv=(lvar name=\x22a\xff\x00\x22 expression=8-10) method_name=\x22b\x22 args=[] dot=10-11 selector=11-12 expression=8-12)] expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 a\xff\x00\x0atDOT 10-11 .\x0atIDENTIFIER 11-12 b\x0aEOF 12-12 " },
    Rec { t: b"a\xffa = 1; self.a\xfe\x00", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (send recv=(self_) method_name=\x22a\xff\x00\x22 args=[])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (send recv=(self_ expression=8-12) method_name=\x22a\xff\x00\x22 args=[] dot=12-13 selector=13-15 expression=8-15)] expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0akSELF 8-12 self\x0atDOT 12-13 .\x0atIDENTIFIER 13-15 a\xff\x00\x0aEOF 15-15 " },
    Rec { t: b"a\xffa = 1; a\xfe\x00", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (lvar name=\x22a\xff\x00\x22)])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (lvar name=\x22a\xff\x00\x22 expression=8-10)] expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 a\xff\x00\x0aEOF 10-10 " },
    Rec { t: b"defined? a\xffa", shape: b"(defined value=(send method_name=\x22a\xff\x00\x22 args=[]))", full: b"(defined value=(send method_name=\x22a\xff\x00\x22 args=[] selector=9-11 expression=9-11) keyword=0-8 expression=0-11)", diag: b"", toks: b"\x0akDEFINED 0-8 defined?\x0atIDENTIFIER 9-11 a\xff\x00\x0aEOF 11-11 " },
    Rec { t: b"defined?(a\xffa)", shape: b"(defined value=(send method_name=\x22a\xff\x00\x22 args=[]))", full: b"(defined value=(send method_name=\x22a\xff\x00\x22 args=[] selector=9-11 expression=9-11) keyword=0-8 begin=8-9 end=11-12 expression=0-12)", diag: b"", toks: b"\x0akDEFINED 0-8 defined?\x0atLPAREN2 8-9 (\x0atIDENTIFIER 9-11 a\xff\x00\x0atRPAREN 11-12 )\x0aEOF 12-12 " },
    Rec { t: b"defined?(@a\xffa)", shape: b"(defined value=(ivar name=\x22@a\xff\x00\x22))", full: b"(defined value=(ivar name=\x22@a\xff\x00\x22 expression=9-12) keyword=0-8 begin=8-9 end=12-13 expression=0-13)", diag: b"", toks: b"\x0akDEFINED 0-8 defined?\x0atLPAREN2 8-9 (\x0atIVAR 9-12 @a\xff\x00\x0atRPAREN 12-13 )\x0aEOF 13-13 " },
    Rec { t: b"__FILE__", shape: b"(file)", full: b"(file expression=0-8)", diag: b"", toks: b"\x0ak__FILE__ 0-8 __FILE__\x0aEOF 8-8 " },
    Rec { t: b"__LINE__", shape: b"(line)", full: b"(line expression=0-8)", diag: b"", toks: b"\x0ak__LINE__ 0-8 __LINE__\x0aEOF 8-8 " },
    Rec { t: b"__ENCODING__", shape: b"(encoding)", full: b"(encoding expression=0-12)", diag: b"", toks: b"\x0ak__ENCODING__ 0-12 __ENCODING__\x0aEOF 12-12 " },
    Rec { t: b"__method__", shape: b"(send method_name=\x22__method__\x22 args=[])", full: b"(send method_name=\x22__method__\x22 args=[] selector=0-10 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-10 __method__\x0aEOF 10-10 " },
    Rec { t: b"__dir__", shape: b"(send method_name=\x22__dir__\x22 args=[])", full: b"(send method_name=\x22__dir__\x22 args=[] selector=0-7 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-7 __dir__\x0aEOF 7-7 " },
    Rec { t: b"BEGIN { a\xffa }", shape: b"(preexe body=(send method_name=\x22a\xff\x00\x22 args=[]))", full: b"(preexe body=(send method_name=\x22a\xff\x00\x22 args=[] selector=8-10 expression=8-10) keyword=0-5 begin=6-7 end=11-12 expression=0-12)", diag: b"", toks: b"\x0aklBEGIN 0-5 BEGIN\x0atLCURLY 6-7 {\x0atIDENTIFIER 8-10 a\xff\x00\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"END { a\xffa }", shape: b"(postexe body=(send method_name=\x22a\xff\x00\x22 args=[]))", full: b"(postexe body=(send method_name=\x22a\xff\x00\x22 args=[] selector=6-8 expression=6-8) keyword=0-3 begin=4-5 end=9-10 expression=0-10)", diag: b"", toks: b"\x0aklEND 0-3 END\x0atLCURLY 4-5 {\x0atIDENTIFIER 6-8 a\xff\x00\x0atRCURLY 9-10 }\x0aEOF 10-10 " },
    Rec { t: b"$1 + $\xffD", shape: b"(send recv=(nth_ref name=\x221\x22) method_name=\x22+\x22 args=[(nth_ref name=\x22\xff\x00\x22)])", full: b"(send recv=(nth_ref name=\x221\x22 expression=0-2) method_name=\x22+\x22 args=[(nth_ref name=\x22\xff\x00\x22 expression=5-7)] selector=3-4 expression=0-7)", diag: b"", toks: b"\x0atNTH_REF 0-2 $1\x0atPLUS 3-4 +\x0atNTH_REF 5-7 $\xff\x00\x0aEOF 7-7 " },
    Rec { t: b"$&", shape: b"(back_ref name=\x22$&\x22)", full: b"(back_ref name=\x22$&\x22 expression=0-2)", diag: b"", toks: b"\x0atBACK_REF 0-2 $&\x0aEOF 2-2 " },
    Rec { t: b"$`", shape: b"(back_ref name=\x22$`\x22)", full: b"(back_ref name=\x22$`\x22 expression=0-2)", diag: b"", toks: b"\x0atBACK_REF 0-2 $`\x0aEOF 2-2 " },
    Rec { t: b"$'", shape: b"(back_ref name=\x22$'\x22)", full: b"(back_ref name=\x22$'\x22 expression=0-2)", diag: b"", toks: b"\x0atBACK_REF 0-2 $'\x0aEOF 2-2 " },
    Rec { t: b"$+", shape: b"(back_ref name=\x22$+\x22)", full: b"(back_ref name=\x22$+\x22 expression=0-2)", diag: b"", toks: b"\x0atBACK_REF 0-2 $+\x0aEOF 2-2 " },
    Rec { t: b"$~", shape: b"(gvar name=\x22$~\x22)", full: b"(gvar name=\x22$~\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $~\x0aEOF 2-2 " },
    Rec { t: b"$_", shape: b"(gvar name=\x22$_\x22)", full: b"(gvar name=\x22$_\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $_\x0aEOF 2-2 " },
    Rec { t: b"$0", shape: b"(gvar name=\x22$0\x22)", full: b"(gvar name=\x22$0\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $0\x0aEOF 2-2 " },
    Rec { t: b"$!", shape: b"(gvar name=\x22$!\x22)", full: b"(gvar name=\x22$!\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $!\x0aEOF 2-2 " },
    Rec { t: b"$@", shape: b"(gvar name=\x22$@\x22)", full: b"(gvar name=\x22$@\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $@\x0aEOF 2-2 " },
    Rec { t: b"$,", shape: b"(gvar name=\x22$,\x22)", full: b"(gvar name=\x22$,\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $,\x0aEOF 2-2 " },
    Rec { t: b"$/", shape: b"(gvar name=\x22$/\x22)", full: b"(gvar name=\x22$/\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $/\x0aEOF 2-2 " },
    Rec { t: b"$\x5c", shape: b"(gvar name=\x22$\x5c\x22)", full: b"(gvar name=\x22$\x5c\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $\x5c\x0aEOF 2-2 " },
    Rec { t: b"$;", shape: b"(gvar name=\x22$;\x22)", full: b"(gvar name=\x22$;\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $;\x0aEOF 2-2 " },
    Rec { t: b"$.", shape: b"(gvar name=\x22$.\x22)", full: b"(gvar name=\x22$.\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $.\x0aEOF 2-2 " },
    Rec { t: b"$<", shape: b"(gvar name=\x22$<\x22)", full: b"(gvar name=\x22$<\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $<\x0aEOF 2-2 " },
    Rec { t: b"$>", shape: b"(gvar name=\x22$>\x22)", full: b"(gvar name=\x22$>\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $>\x0aEOF 2-2 " },
    Rec { t: b"$:", shape: b"(gvar name=\x22$:\x22)", full: b"(gvar name=\x22$:\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $:\x0aEOF 2-2 " },
    Rec { t: b"$\x22", shape: b"(gvar name=\x22$\x22\x22)", full: b"(gvar name=\x22$\x22\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $\x22\x0aEOF 2-2 " },
    Rec { t: b"$$", shape: b"(gvar name=\x22$$\x22)", full: b"(gvar name=\x22$$\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $$\x0aEOF 2-2 " },
    Rec { t: b"$?", shape: b"(gvar name=\x22$?\x22)", full: b"(gvar name=\x22$?\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $?\x0aEOF 2-2 " },
    Rec { t: b"$*", shape: b"(gvar name=\x22$*\x22)", full: b"(gvar name=\x22$*\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $*\x0aEOF 2-2 " },
    Rec { t: b"$-\xffa", shape: b"(gvar name=\x22$-\xff\x00\x22)", full: b"(gvar name=\x22$-\xff\x00\x22 expression=0-3)", diag: b"", toks: b"\x0atGVAR 0-3 $-\xff\x00\x0aEOF 3-3 " },
    Rec { t: b"$\xffD\xffd", shape: b"(nth_ref name=\x22\xff\x00\xff\x01\x22)", full: b"(nth_ref name=\x22\xff\x00\xff\x01\x22 expression=0-3)", diag: b"", toks: b"\x0atNTH_REF 0-3 $\xff\x00\xff\x01\x0aEOF 3-3 " },
    Rec { t: b"p $a\xffa", shape: b"(send method_name=\x22p\x22 args=[(gvar name=\x22$a\xff\x00\x22)])", full: b"(send method_name=\x22p\x22 args=[(gvar name=\x22$a\xff\x00\x22 expression=2-5)] selector=0-1 expression=0-5)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 p\x0atGVAR 2-5 $a\xff\x00\x0aEOF 5-5 " },
    Rec { t: b"p @a\xffa, @@b\xffa", shape: b"(send method_name=\x22p\x22 args=[(ivar name=\x22@a\xff\x00\x22) (cvar name=\x22@@b\xff\x01\x22)])", full: b"(send method_name=\x22p\x22 args=[(ivar name=\x22@a\xff\x00\x22 expression=2-5) (cvar name=\x22@@b\xff\x01\x22 expression=7-11)] selector=0-1 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 p\x0atIVAR 2-5 @a\xff\x00\x0atCOMMA 5-6 ,\x0atCVAR 7-11 @@b\xff\x01\x0aEOF 11-11 " },
    Rec { t: b"foo.then { a\xffa }", shape: b"(block call=(send recv=(send method_name=\x22foo\x22 args=[]) method_name=\x22then\x22 args=[]) body=(send method_name=\x22a\xff\x00\x22 args=[]))", full: b"(block call=(send recv=(send method_name=\x22foo\x22 args=[] selector=0-3 expression=0-3) method_name=\x22then\x22 args=[] dot=3-4 selector=4-8 expression=0-8) body=(send method_name=\x22a\xff\x00\x22 args=[] selector=11-13 expression=11-13) begin=9-10 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-3 foo\x0atDOT 3-4 .\x0atIDENTIFIER 4-8 then\x0atLCURLY 9-10 {\x0atIDENTIFIER 11-13 a\xff\x00\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"foo.in", shape: b"(send recv=(send method_name=\x22foo\x22 args=[]) method_name=\x22in\x22 args=[])", full: b"(send recv=(send method_name=\x22foo\x22 args=[] selector=0-3 expression=0-3) method_name=\x22in\x22 args=[] dot=3-4 selector=4-6 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-3 foo\x0atDOT 3-4 .\x0atIDENTIFIER 4-6 in\x0aEOF 6-6 " },
    Rec { t: b"foo.do", shape: b"(send recv=(send method_name=\x22foo\x22 args=[]) method_name=\x22do\x22 args=[])", full: b"(send recv=(send method_name=\x22foo\x22 args=[] selector=0-3 expression=0-3) method_name=\x22do\x22 args=[] dot=3-4 selector=4-6 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-3 foo\x0atDOT 3-4 .\x0atIDENTIFIER 4-6 do\x0aEOF 6-6 " },
    Rec { t: b"x.self", shape: b"(send recv=(send method_name=\x22x\x22 args=[]) method_name=\x22self\x22 args=[])", full: b"(send recv=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) method_name=\x22self\x22 args=[] dot=1-2 selector=2-6 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atDOT 1-2 .\x0atIDENTIFIER 2-6 self\x0aEOF 6-6 " },
    Rec { t: b"x.then", shape: b"(send recv=(send method_name=\x22x\x22 args=[]) method_name=\x22then\x22 args=[])", full: b"(send recv=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) method_name=\x22then\x22 args=[] dot=1-2 selector=2-6 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atDOT 1-2 .\x0atIDENTIFIER 2-6 then\x0aEOF 6-6 " },
    Rec { t: b"x.not", shape: b"(send recv=(send method_name=\x22x\x22 args=[]) method_name=\x22not\x22 args=[])", full: b"(send recv=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) method_name=\x22not\x22 args=[] dot=1-2 selector=2-5 expression=0-5)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atDOT 1-2 .\x0atIDENTIFIER 2-5 not\x0aEOF 5-5 " },
    Rec { t: b"x.and y", shape: b"(send recv=(send method_name=\x22x\x22 args=[]) method_name=\x22and\x22 args=[(send method_name=\x22y\x22 args=[])])", full: b"(send recv=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) method_name=\x22and\x22 args=[(send method_name=\x22y\x22 args=[] selector=6-7 expression=6-7)] dot=1-2 selector=2-5 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atDOT 1-2 .\x0atIDENTIFIER 2-5 and\x0atIDENTIFIER 6-7 y\x0aEOF 7-7 " },
    Rec { t: b"x.or(y)", shape: b"(send recv=(send method_name=\x22x\x22 args=[]) method_name=\x22or\x22 args=[(send method_name=\x22y\x22 args=[])])", full: b"(send recv=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) method_name=\x22or\x22 args=[(send method_name=\x22y\x22 args=[] selector=5-6 expression=5-6)] dot=1-2 selector=2-4 begin=4-5 end=6-7 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atDOT 1-2 .\x0atIDENTIFIER 2-4 or\x0atLPAREN2 4-5 (\x0atIDENTIFIER 5-6 y\x0atRPAREN 6-7 )\x0aEOF 7-7 " },
    Rec { t: b"x.not y", shape: b"(send recv=(send method_name=\x22x\x22 args=[]) method_name=\x22not\x22 args=[(send method_name=\x22y\x22 args=[])])", full: b"(send recv=(send method_name=\x22x\x22 args=[] selector=0-1 expression=0-1) method_name=\x22not\x22 args=[(send method_name=\x22y\x22 args=[] selector=6-7 expression=6-7)] dot=1-2 selector=2-5 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atDOT 1-2 .\x0atIDENTIFIER 2-5 not\x0atIDENTIFIER 6-7 y\x0aEOF 7-7 " },
    Rec { t: b"@1", shape: b"(ivar name=\x22@1\x22)", full: b"(ivar name=\x22@1\x22 expression=0-2)", diag: b"\x0aE 0-2 `@1' is not allowed as an instance variable name", toks: b"\x0atIVAR 0-2 @1\x0aEOF 2-2 " },
    Rec { t: b"@@1", shape: b"(cvar name=\x22@@1\x22)", full: b"(cvar name=\x22@@1\x22 expression=0-3)", diag: b"\x0aE 0-3 `@@1' is not allowed as a class variable name", toks: b"\x0atCVAR 0-3 @@1\x0aEOF 3-3 " },
    Rec { t: b"$-", shape: b"(gvar name=\x22$-\x22)", full: b"(gvar name=\x22$-\x22 expression=0-2)", diag: b"\x0aE 0-2 `$-' is not allowed as a global variable name", toks: b"\x0atGVAR 0-2 $-\x0aEOF 2-2 " },
    Rec { t: b"@", shape: b"(ivar name=\x22@\x22)", full: b"(ivar name=\x22@\x22 expression=0-1)", diag: b"\x0aE 0-1 `@' without identifiers is not allowed as an instance variable name", toks: b"\x0atIVAR 0-1 @\x0aEOF 1-1 " },
    Rec { t: b"@@", shape: b"(cvar name=\x22@@\x22)", full: b"(cvar name=\x22@@\x22 expression=0-2)", diag: b"\x0aE 0-2 `@@' without identifiers is not allowed as a class variable name", toks: b"\x0atCVAR 0-2 @@\x0aEOF 2-2 " },
    Rec { t: b"$", shape: b"(gvar name=\x22$\x22)", full: b"(gvar name=\x22$\x22 expression=0-1)", diag: b"\x0aE 0-1 `$' without identifiers is not allowed as a global variable name", toks: b"\x0atGVAR 0-1 $\x0aEOF 1-1 " },
    Rec { t: b"if = \xffd", shape: b"(int value=\x22\xff\x00\x22)", full: b"(int value=\x22\xff\x00\x22 expression=5-6)", diag: b"\x0aE 3-4 unexpected tEQL", toks: b"\x0akIF 0-2 if\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x00\x0aEOF 6-6 " },
    Rec { t: b"self = \xffd", shape: b"(int value=\x22\xff\x00\x22)", full: b"(int value=\x22\xff\x00\x22 expression=7-8)", diag: b"\x0aE 0-4 Can't change the value of self", toks: b"\x0akSELF 0-4 self\x0atEQL 5-6 =\x0atINTEGER 7-8 \xff\x00\x0aEOF 8-8 " },
    Rec { t: b"nil = \xffd", shape: b"(int value=\x22\xff\x00\x22)", full: b"(int value=\x22\xff\x00\x22 expression=6-7)", diag: b"\x0aE 0-3 Can't assign to nil", toks: b"\x0akNIL 0-3 nil\x0atEQL 4-5 =\x0atINTEGER 6-7 \xff\x00\x0aEOF 7-7 " },
    Rec { t: b"__FILE__ = \xffd", shape: b"(int value=\x22\xff\x00\x22)", full: b"(int value=\x22\xff\x00\x22 expression=11-12)", diag: b"\x0aE 0-8 Can't assign to __FILE__", toks: b"\x0ak__FILE__ 0-8 __FILE__\x0atEQL 9-10 =\x0atINTEGER 11-12 \xff\x00\x0aEOF 12-12 " },
    Rec { t: b"end", shape: b"none", full: b"none", diag: b"\x0aE 0-3 unexpected kEND", toks: b"\x0akEND 0-3 end\x0aEOF 3-3 " },
    Rec { t: b"a\xffa end", shape: b"(send method_name=\x22a\xff\x00\x22 args=[])", full: b"(send method_name=\x22a\xff\x00\x22 args=[] selector=0-2 expression=0-2)", diag: b"\x0aE 3-6 unexpected kEND", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0akEND 3-6 end" },
    Rec { t: b"$\xffD = \xffd", shape: b"(int value=\x22\xff\x01\x22)", full: b"(int value=\x22\xff\x01\x22 expression=5-6)", diag: b"\x0aE 0-2 Can't set variable $\xff\x00", toks: b"\x0atNTH_REF 0-2 $\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x01\x0aEOF 6-6 " },
    Rec { t: b"$& = \xffd", shape: b"(int value=\x22\xff\x00\x22)", full: b"(int value=\x22\xff\x00\x22 expression=5-6)", diag: b"\x0aE 0-2 Can't set variable $&", toks: b"\x0atBACK_REF 0-2 $&\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x00\x0aEOF 6-6 " },
    Rec { t: b":1", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=1-2)", diag: b"\x0aE 1-2 unexpected tINTEGER", toks: b"\x0atSYMBEG 0-1 :\x0atINTEGER 1-2 1\x0aEOF 2-2 " },
    Rec { t: b":@1", shape: b"(sym name=\x22@1\x22)", full: b"(sym name=\x22@1\x22 begin=0-1 expression=0-3)", diag: b"\x0aE 1-3 `@1' is not allowed as an instance variable name", toks: b"\x0atSYMBEG 0-1 :\x0atIVAR 1-3 @1\x0aEOF 3-3 " },
    Rec { t: b":@@", shape: b"(sym name=\x22@@\x22)", full: b"(sym name=\x22@@\x22 begin=0-1 expression=0-3)", diag: b"\x0aE 1-3 `@@' without identifiers is not allowed as a class variable name", toks: b"\x0atSYMBEG 0-1 :\x0atCVAR 1-3 @@\x0aEOF 3-3 " },
    Rec { t: b"def 1; end", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=4-5)", diag: b"\x0aE 4-5 unexpected tINTEGER", toks: b"\x0akDEF 0-3 def\x0atINTEGER 4-5 1\x0atSEMI 5-6 ;\x0akEND 7-10 end" },
    Rec { t: b"class a\xffa; end", shape: b"none", full: b"none", diag: b"\x0aE 6-8 class/module name must be CONSTANT", toks: b"\x0akCLASS 0-5 class\x0atIDENTIFIER 6-8 a\xff\x00\x0atSEMI 8-9 ;\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"module a\xffa; end", shape: b"none", full: b"none", diag: b"\x0aE 7-9 class/module name must be CONSTANT", toks: b"\x0akMODULE 0-6 module\x0atIDENTIFIER 7-9 a\xff\x00\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"class a::b\xffa; end", shape: b"none", full: b"none", diag: b"\x0aE 9-11 class/module name must be CONSTANT", toks: b"\x0akCLASS 0-5 class\x0atIDENTIFIER 6-7 a\x0atCOLON2 7-9 ::\x0atIDENTIFIER 9-11 b\xff\x00\x0atSEMI 11-12 ;\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"-> (if) {}", shape: b"none", full: b"none", diag: b"\x0aE 4-6 unexpected kIF", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 3-4 (\x0akIF 4-6 if\x0atRPAREN 6-7 )\x0atLAMBEG 8-9 {\x0atRCURLY 9-10 }\x0aEOF 10-10 " },
    Rec { t: b"def m(if); end", shape: b"none", full: b"none", diag: b"\x0aE 6-8 unexpected kIF", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0akIF 6-8 if\x0atRPAREN 8-9 )\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def m(end = 1); end", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=12-13)", diag: b"\x0aE 6-9 unexpected kEND", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0akEND 6-9 end\x0atEQL 10-11 =\x0atINTEGER 12-13 1\x0atRPAREN 13-14 )" },
    Rec { t: b"x { |self| }", shape: b"none", full: b"none", diag: b"\x0aE 5-9 unexpected kSELF", toks: b"\x0atIDENTIFIER 0-1 x\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0akSELF 5-9 self\x0atPIPE 9-10 |\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"alias a 1", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=8-9)", diag: b"\x0aE 8-9 unexpected tINTEGER", toks: b"\x0akALIAS 0-5 alias\x0atIDENTIFIER 6-7 a\x0atINTEGER 8-9 1\x0aEOF 9-9 " },
    Rec { t: b"undef 1", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=6-7)", diag: b"\x0aE 6-7 unexpected tINTEGER", toks: b"\x0akUNDEF 0-5 undef\x0atINTEGER 6-7 1\x0aEOF 7-7 " },
    Rec { t: b"undef", shape: b"none", full: b"none", diag: b"\x0aE 5-5 unexpected END_OF_INPUT", toks: b"\x0akUNDEF 0-5 undef\x0aEOF 5-5 " },
    Rec { t: b"alias $a b", shape: b"(send method_name=\x22b\x22 args=[])", full: b"(send method_name=\x22b\x22 args=[] selector=9-10 expression=9-10)", diag: b"\x0aE 9-10 unexpected tIDENTIFIER", toks: b"\x0akALIAS 0-5 alias\x0atGVAR 6-8 $a\x0atIDENTIFIER 9-10 b\x0aEOF 10-10 " },
    Rec { t: b"alias $a\xffa $\xffD", shape: b"none", full: b"none", diag: b"\x0aE 10-12 can't make alias for the number variables", toks: b"\x0akALIAS 0-5 alias\x0atGVAR 6-9 $a\xff\x00\x0atNTH_REF 10-12 $\xff\x01\x0aEOF 12-12 " },
    Rec { t: b"{:a\xffa==>\xffd}", shape: b"(hash pairs=[(pair key=(sym name=\x22a\xff\x00=\x22) value=(int value=\x22\xff\x01\x22))])", full: b"(hash pairs=[(pair key=(sym name=\x22a\xff\x00=\x22 begin=1-2 expression=1-5) value=(int value=\x22\xff\x01\x22 expression=7-8) operator=5-7 expression=1-8)] begin=0-1 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atSYMBEG 1-2 :\x0atIDENTIFIER 2-5 a\xff\x00=\x0atASSOC 5-7 =>\x0atINTEGER 7-8 \xff\x01\x0atRCURLY 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"{:a\xffa=>\xffd}", shape: b"(hash pairs=[(pair key=(sym name=\x22a\xff\x00\x22) value=(int value=\x22\xff\x01\x22))])", full: b"(hash pairs=[(pair key=(sym name=\x22a\xff\x00\x22 begin=1-2 expression=1-4) value=(int value=\x22\xff\x01\x22 expression=6-7) operator=4-6 expression=1-7)] begin=0-1 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atSYMBEG 1-2 :\x0atIDENTIFIER 2-4 a\xff\x00\x0atASSOC 4-6 =>\x0atINTEGER 6-7 \xff\x01\x0atRCURLY 7-8 }\x0aEOF 8-8 " },
    Rec { t: b"{:a\xffa= =>\xffd}", shape: b"(hash pairs=[(pair key=(sym name=\x22a\xff\x00=\x22) value=(int value=\x22\xff\x01\x22))])", full: b"(hash pairs=[(pair key=(sym name=\x22a\xff\x00=\x22 begin=1-2 expression=1-5) value=(int value=\x22\xff\x01\x22 expression=8-9) operator=6-8 expression=1-9)] begin=0-1 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atSYMBEG 1-2 :\x0atIDENTIFIER 2-5 a\xff\x00=\x0atASSOC 6-8 =>\x0atINTEGER 8-9 \xff\x01\x0atRCURLY 9-10 }\x0aEOF 10-10 " },
    Rec { t: b"[:a\xffa==\xffd]", shape: b"(array elements=[(send recv=(sym name=\x22a\xff\x00\x22) method_name=\x22==\x22 args=[(int value=\x22\xff\x01\x22)])])", full: b"(array elements=[(send recv=(sym name=\x22a\xff\x00\x22 begin=1-2 expression=1-4) method_name=\x22==\x22 args=[(int value=\x22\xff\x01\x22 expression=6-7)] selector=4-6 expression=1-7)] begin=0-1 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atSYMBEG 1-2 :\x0atIDENTIFIER 2-4 a\xff\x00\x0atEQ 4-6 ==\x0atINTEGER 6-7 \xff\x01\x0atRBRACK 7-8 ]\x0aEOF 8-8 " },
    Rec { t: b"[:a\xffa=~/\xffd/]", shape: b"(array elements=[(send recv=(sym name=\x22a\xff\x00\x22) method_name=\x22=~\x22 args=[(regexp parts=[(str value=\x22\xff\x01\x22)])])])", full: b"(array elements=[(send recv=(sym name=\x22a\xff\x00\x22 begin=1-2 expression=1-4) method_name=\x22=~\x22 args=[(regexp parts=[(str value=\x22\xff\x01\x22 expression=7-8)] begin=6-7 end=8-9 expression=6-9)] selector=4-6 expression=1-9)] begin=0-1 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atSYMBEG 1-2 :\x0atIDENTIFIER 2-4 a\xff\x00\x0atMATCH 4-6 =~\x0atREGEXP_BEG 6-7 /\x0atSTRING_CONTENT 7-8 \xff\x01\x0atREGEXP_END 8-9 /\x0atRBRACK 9-10 ]\x0aEOF 10-10 " },
    Rec { t: b"[:a\xffa===\xffd]", shape: b"(array elements=[(send recv=(sym name=\x22a\xff\x00\x22) method_name=\x22===\x22 args=[(int value=\x22\xff\x01\x22)])])", full: b"(array elements=[(send recv=(sym name=\x22a\xff\x00\x22 begin=1-2 expression=1-4) method_name=\x22===\x22 args=[(int value=\x22\xff\x01\x22 expression=7-8)] selector=4-7 expression=1-8)] begin=0-1 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atSYMBEG 1-2 :\x0atIDENTIFIER 2-4 a\xff\x00\x0atEQQ 4-7 ===\x0atINTEGER 7-8 \xff\x01\x0atRBRACK 8-9 ]\x0aEOF 9-9 " },
    Rec { t: b"[:a\xffa!=\xffd]", shape: b"(array elements=[(send recv=(sym name=\x22a\xff\x00\x22) method_name=\x22!=\x22 args=[(int value=\x22\xff\x01\x22)])])", full: b"(array elements=[(send recv=(sym name=\x22a\xff\x00\x22 begin=1-2 expression=1-4) method_name=\x22!=\x22 args=[(int value=\x22\xff\x01\x22 expression=6-7)] selector=4-6 expression=1-7)] begin=0-1 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atSYMBEG 1-2 :\x0atIDENTIFIER 2-4 a\xff\x00\x0atNEQ 4-6 !=\x0atINTEGER 6-7 \xff\x01\x0atRBRACK 7-8 ]\x0aEOF 8-8 " },
    Rec { t: b"[:a\xffa=, \xffd]", shape: b"(array elements=[(sym name=\x22a\xff\x00=\x22) (int value=\x22\xff\x01\x22)])", full: b"(array elements=[(sym name=\x22a\xff\x00=\x22 begin=1-2 expression=1-5) (int value=\x22\xff\x01\x22 expression=7-8)] begin=0-1 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atSYMBEG 1-2 :\x0atIDENTIFIER 2-5 a\xff\x00=\x0atCOMMA 5-6 ,\x0atINTEGER 7-8 \xff\x01\x0atRBRACK 8-9 ]\x0aEOF 9-9 " },
    Rec { t: b"[:a\xffa ?\xffd : 1]", shape: b"(array elements=[(if_ternary cond=(sym name=\x22a\xff\x00\x22) if_true=(int value=\x22\xff\x01\x22) if_false=(int value=\x221\x22))])", full: b"(array elements=[(if_ternary cond=(sym name=\x22a\xff\x00\x22 begin=1-2 expression=1-4) if_true=(int value=\x22\xff\x01\x22 expression=6-7) if_false=(int value=\x221\x22 expression=10-11) question=5-6 colon=8-9 expression=1-11)] begin=0-1 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atSYMBEG 1-2 :\x0atIDENTIFIER 2-4 a\xff\x00\x0atEH 5-6 ?\x0atINTEGER 6-7 \xff\x01\x0atCOLON 8-9 :\x0atINTEGER 10-11 1\x0atRBRACK 11-12 ]\x0aEOF 12-12 " },
    Rec { t: b"def a\xffa=(v\xffa); end", shape: b"(def name=\x22a\xff\x00=\x22 args=(args args=[(arg name=\x22v\xff\x01\x22)]))", full: b"(def name=\x22a\xff\x00=\x22 args=(args args=[(arg name=\x22v\xff\x01\x22 expression=8-10)] expression=7-11 begin=7-8 end=10-11) keyword=0-3 name=4-7 end=13-16 expression=0-16)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-7 a\xff\x00=\x0atLPAREN2 7-8 (\x0atIDENTIFIER 8-10 v\xff\x01\x0atRPAREN 10-11 )\x0atSEMI 11-12 ;\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"def a\xffa=v\xffa; end", shape: b"(def name=\x22a\xff\x00=\x22 args=(args args=[(arg name=\x22v\xff\x01\x22)]))", full: b"(def name=\x22a\xff\x00=\x22 args=(args args=[(arg name=\x22v\xff\x01\x22 expression=7-9)] expression=7-9) keyword=0-3 name=4-7 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-7 a\xff\x00=\x0atIDENTIFIER 7-9 v\xff\x01\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"alias a\xffa= b\xffa=", shape: b"(alias to=(sym name=\x22a\xff\x00=\x22) from=(sym name=\x22b\xff\x01=\x22))", full: b"(alias to=(sym name=\x22a\xff\x00=\x22 expression=6-9) from=(sym name=\x22b\xff\x01=\x22 expression=10-13) keyword=0-5 expression=0-13)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atIDENTIFIER 6-9 a\xff\x00=\x0atIDENTIFIER 10-13 b\xff\x01=\x0aEOF 13-13 " },
    Rec { t: b"alias a\xffa? b\xffa!", shape: b"(alias to=(sym name=\x22a\xff\x00?\x22) from=(sym name=\x22b\xff\x01!\x22))", full: b"(alias to=(sym name=\x22a\xff\x00?\x22 expression=6-9) from=(sym name=\x22b\xff\x01!\x22 expression=10-13) keyword=0-5 expression=0-13)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atFID 6-9 a\xff\x00?\x0atFID 10-13 b\xff\x01!\x0aEOF 13-13 " },
    Rec { t: b"alias :a\xffa= :b\xffa=", shape: b"(alias to=(sym name=\x22a\xff\x00=\x22) from=(sym name=\x22b\xff\x01=\x22))", full: b"(alias to=(sym name=\x22a\xff\x00=\x22 begin=6-7 expression=6-10) from=(sym name=\x22b\xff\x01=\x22 begin=11-12 expression=11-15) keyword=0-5 expression=0-15)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atSYMBEG 6-7 :\x0atIDENTIFIER 7-10 a\xff\x00=\x0atSYMBEG 11-12 :\x0atIDENTIFIER 12-15 b\xff\x01=\x0aEOF 15-15 " },
    Rec { t: b"undef a\xffa=, b\xffa=", shape: b"(undef names=[(sym name=\x22a\xff\x00=\x22) (sym name=\x22b\xff\x01=\x22)])", full: b"(undef names=[(sym name=\x22a\xff\x00=\x22 expression=6-9) (sym name=\x22b\xff\x01=\x22 expression=11-14)] keyword=0-5 expression=0-14)", diag: b"", toks: b"\x0akUNDEF 0-5 undef\x0atIDENTIFIER 6-9 a\xff\x00=\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-14 b\xff\x01=\x0aEOF 14-14 " },
    Rec { t: b"undef a\xffa=", shape: b"(undef names=[(sym name=\x22a\xff\x00=\x22)])", full: b"(undef names=[(sym name=\x22a\xff\x00=\x22 expression=6-9)] keyword=0-5 expression=0-9)", diag: b"", toks: b"\x0akUNDEF 0-5 undef\x0atIDENTIFIER 6-9 a\xff\x00=\x0aEOF 9-9 " },
    Rec { t: b"a.b\xffa==\xffd", shape: b"(send recv=(send recv=(send method_name=\x22a\x22 args=[]) method_name=\x22b\xff\x00\x22 args=[]) method_name=\x22==\x22 args=[(int value=\x22\xff\x01\x22)])", full: b"(send recv=(send recv=(send method_name=\x22a\x22 args=[] selector=0-1 expression=0-1) method_name=\x22b\xff\x00\x22 args=[] dot=1-2 selector=2-4 expression=0-4) method_name=\x22==\x22 args=[(int value=\x22\xff\x01\x22 expression=6-7)] selector=4-6 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 a\x0atDOT 1-2 .\x0atIDENTIFIER 2-4 b\xff\x00\x0atEQ 4-6 ==\x0atINTEGER 6-7 \xff\x01\x0aEOF 7-7 " },
    Rec { t: b"a.b\xffa=~/\xffd/", shape: b"(send recv=(send recv=(send method_name=\x22a\x22 args=[]) method_name=\x22b\xff\x00\x22 args=[]) method_name=\x22=~\x22 args=[(regexp parts=[(str value=\x22\xff\x01\x22)])])", full: b"(send recv=(send recv=(send method_name=\x22a\x22 args=[] selector=0-1 expression=0-1) method_name=\x22b\xff\x00\x22 args=[] dot=1-2 selector=2-4 expression=0-4) method_name=\x22=~\x22 args=[(regexp parts=[(str value=\x22\xff\x01\x22 expression=7-8)] begin=6-7 end=8-9 expression=6-9)] selector=4-6 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 a\x0atDOT 1-2 .\x0atIDENTIFIER 2-4 b\xff\x00\x0atMATCH 4-6 =~\x0atREGEXP_BEG 6-7 /\x0atSTRING_CONTENT 7-8 \xff\x01\x0atREGEXP_END 8-9 /\x0aEOF 9-9 " },
    Rec { t: b"a.b\xffa=>\xffd", shape: b"(match_pattern value=(send recv=(send method_name=\x22a\x22 args=[]) method_name=\x22b\xff\x00\x22 args=[]) pattern=(int value=\x22\xff\x01\x22))", full: b"(match_pattern value=(send recv=(send method_name=\x22a\x22 args=[] selector=0-1 expression=0-1) method_name=\x22b\xff\x00\x22 args=[] dot=1-2 selector=2-4 expression=0-4) pattern=(int value=\x22\xff\x01\x22 expression=6-7) operator=4-6 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 a\x0atDOT 1-2 .\x0atIDENTIFIER 2-4 b\xff\x00\x0atASSOC 4-6 =>\x0atINTEGER 6-7 \xff\x01\x0aEOF 7-7 " },
    Rec { t: b"a.b\xffa!=\xffd", shape: b"(send recv=(send recv=(send method_name=\x22a\x22 args=[]) method_name=\x22b\xff\x00\x22 args=[]) method_name=\x22!=\x22 args=[(int value=\x22\xff\x01\x22)])", full: b"(send recv=(send recv=(send method_name=\x22a\x22 args=[] selector=0-1 expression=0-1) method_name=\x22b\xff\x00\x22 args=[] dot=1-2 selector=2-4 expression=0-4) method_name=\x22!=\x22 args=[(int value=\x22\xff\x01\x22 expression=6-7)] selector=4-6 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 a\x0atDOT 1-2 .\x0atIDENTIFIER 2-4 b\xff\x00\x0atNEQ 4-6 !=\x0atINTEGER 6-7 \xff\x01\x0aEOF 7-7 " },
    Rec { t: b"{a\xffa?: \xffd}", shape: b"(hash pairs=[(pair key=(sym name=\x22a\xff\x00?\x22) value=(int value=\x22\xff\x01\x22))])", full: b"(hash pairs=[(pair key=(sym name=\x22a\xff\x00?\x22 expression=1-4) value=(int value=\x22\xff\x01\x22 expression=6-7) operator=4-5 expression=1-7)] begin=0-1 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 1-5 a\xff\x00?\x0atINTEGER 6-7 \xff\x01\x0atRCURLY 7-8 }\x0aEOF 8-8 " },
    Rec { t: b"{a\xffa!: \xffd}", shape: b"(hash pairs=[(pair key=(sym name=\x22a\xff\x00!\x22) value=(int value=\x22\xff\x01\x22))])", full: b"(hash pairs=[(pair key=(sym name=\x22a\xff\x00!\x22 expression=1-4) value=(int value=\x22\xff\x01\x22 expression=6-7) operator=4-5 expression=1-7)] begin=0-1 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 1-5 a\xff\x00!\x0atINTEGER 6-7 \xff\x01\x0atRCURLY 7-8 }\x0aEOF 8-8 " },
    Rec { t: b"p a\xffa?: \xffd", shape: b"(send method_name=\x22p\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22a\xff\x00?\x22) value=(int value=\x22\xff\x01\x22))])])", full: b"(send method_name=\x22p\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22a\xff\x00?\x22 expression=2-5) value=(int value=\x22\xff\x01\x22 expression=7-8) operator=5-6 expression=2-8)] expression=2-8)] selector=0-1 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 p\x0atLABEL 2-6 a\xff\x00?\x0atINTEGER 7-8 \xff\x01\x0aEOF 8-8 " },
    Rec { t: b"p a\xffa!: \xffd", shape: b"(send method_name=\x22p\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22a\xff\x00!\x22) value=(int value=\x22\xff\x01\x22))])])", full: b"(send method_name=\x22p\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22a\xff\x00!\x22 expression=2-5) value=(int value=\x22\xff\x01\x22 expression=7-8) operator=5-6 expression=2-8)] expression=2-8)] selector=0-1 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 p\x0atLABEL 2-6 a\xff\x00!\x0atINTEGER 7-8 \xff\x01\x0aEOF 8-8 " },
    Rec { t: b"p a\xffa?:\xffd", shape: b"(send method_name=\x22p\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22a\xff\x00?\x22) value=(int value=\x22\xff\x01\x22))])])", full: b"(send method_name=\x22p\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22a\xff\x00?\x22 expression=2-5) value=(int value=\x22\xff\x01\x22 expression=6-7) operator=5-6 expression=2-7)] expression=2-7)] selector=0-1 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 p\x0atLABEL 2-6 a\xff\x00?\x0atINTEGER 6-7 \xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa ? a\xffa? : b\xffa", shape: b"(if_ternary cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22a\xff\x01?\x22 args=[]) if_false=(send method_name=\x22b\xff\x02\x22 args=[]))", full: b"(if_ternary cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) if_true=(send method_name=\x22a\xff\x01?\x22 args=[] selector=5-8 expression=5-8) if_false=(send method_name=\x22b\xff\x02\x22 args=[] selector=11-13 expression=11-13) question=3-4 colon=9-10 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEH 3-4 ?\x0atFID 5-8 a\xff\x01?\x0atCOLON 9-10 :\x0atIDENTIFIER 11-13 b\xff\x02\x0aEOF 13-13 " },
    Rec { t: b"v\xffa ? a\xffa!: \xffd", shape: b"(if_ternary cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22a\xff\x01!\x22 args=[]) if_false=(int value=\x22\xff\x02\x22))", full: b"(if_ternary cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) if_true=(send method_name=\x22a\xff\x01!\x22 args=[] selector=5-8 expression=5-8) if_false=(int value=\x22\xff\x02\x22 expression=10-11) question=3-4 colon=8-9 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEH 3-4 ?\x0atFID 5-8 a\xff\x01!\x0atCOLON 8-9 :\x0atINTEGER 10-11 \xff\x02\x0aEOF 11-11 " },
    Rec { t: b":A\xffa=", shape: b"(sym name=\x22A\xff\x00=\x22)", full: b"(sym name=\x22A\xff\x00=\x22 begin=0-1 expression=0-4)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atIDENTIFIER 1-4 A\xff\x00=\x0aEOF 4-4 " },
    Rec { t: b":A\xffa==\xffd", shape: b"(send recv=(sym name=\x22A\xff\x00\x22) method_name=\x22==\x22 args=[(int value=\x22\xff\x01\x22)])", full: b"(send recv=(sym name=\x22A\xff\x00\x22 begin=0-1 expression=0-3) method_name=\x22==\x22 args=[(int value=\x22\xff\x01\x22 expression=5-6)] selector=3-5 expression=0-6)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atCONSTANT 1-3 A\xff\x00\x0atEQ 3-5 ==\x0atINTEGER 5-6 \xff\x01\x0aEOF 6-6 " },
    Rec { t: b"{:A\xffa==>\xffd}", shape: b"(hash pairs=[(pair key=(sym name=\x22A\xff\x00=\x22) value=(int value=\x22\xff\x01\x22))])", full: b"(hash pairs=[(pair key=(sym name=\x22A\xff\x00=\x22 begin=1-2 expression=1-5) value=(int value=\x22\xff\x01\x22 expression=7-8) operator=5-7 expression=1-8)] begin=0-1 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atSYMBEG 1-2 :\x0atIDENTIFIER 2-5 A\xff\x00=\x0atASSOC 5-7 =>\x0atINTEGER 7-8 \xff\x01\x0atRCURLY 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"{A\xffa?: \xffd}", shape: b"(hash pairs=[(pair key=(sym name=\x22A\xff\x00?\x22) value=(int value=\x22\xff\x01\x22))])", full: b"(hash pairs=[(pair key=(sym name=\x22A\xff\x00?\x22 expression=1-4) value=(int value=\x22\xff\x01\x22 expression=6-7) operator=4-5 expression=1-7)] begin=0-1 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 1-5 A\xff\x00?\x0atINTEGER 6-7 \xff\x01\x0atRCURLY 7-8 }\x0aEOF 8-8 " },
    Rec { t: b":@a\xffa==\xffd", shape: b"(send recv=(sym name=\x22@a\xff\x00\x22) method_name=\x22==\x22 args=[(int value=\x22\xff\x01\x22)])", full: b"(send recv=(sym name=\x22@a\xff\x00\x22 begin=0-1 expression=0-4) method_name=\x22==\x22 args=[(int value=\x22\xff\x01\x22 expression=6-7)] selector=4-6 expression=0-7)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atIVAR 1-4 @a\xff\x00\x0atEQ 4-6 ==\x0atINTEGER 6-7 \xff\x01\x0aEOF 7-7 " },
    Rec { t: b":@@a\xffa==\xffd", shape: b"(send recv=(sym name=\x22@@a\xff\x00\x22) method_name=\x22==\x22 args=[(int value=\x22\xff\x01\x22)])", full: b"(send recv=(sym name=\x22@@a\xff\x00\x22 begin=0-1 expression=0-5) method_name=\x22==\x22 args=[(int value=\x22\xff\x01\x22 expression=7-8)] selector=5-7 expression=0-8)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atCVAR 1-5 @@a\xff\x00\x0atEQ 5-7 ==\x0atINTEGER 7-8 \xff\x01\x0aEOF 8-8 " },
];
pub static SCOPES: &[Rec] = &[
    Rec { t: b"a\xffa = 1; BEGIN { a\xfe\x00 }", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (preexe body=(lvar name=\x22a\xff\x00\x22))])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (preexe body=(lvar name=\x22a\xff\x00\x22 expression=16-18) keyword=8-13 begin=14-15 end=19-20 expression=8-20)] expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0aklBEGIN 8-13 BEGIN\x0atLCURLY 14-15 {\x0atIDENTIFIER 16-18 a\xff\x00\x0atRCURLY 19-20 }\x0aEOF 20-20 " },
    Rec { t: b"BEGIN { a\xffa = 1 }; a\xfe\x00", shape: b"(begin statements=[(preexe body=(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22))) (lvar name=\x22a\xff\x00\x22)])", full: b"(begin statements=[(preexe body=(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=13-14) name=8-10 operator=11-12 expression=8-14) keyword=0-5 begin=6-7 end=15-16 expression=0-16) (lvar name=\x22a\xff\x00\x22 expression=18-20)] expression=0-20)", diag: b"", toks: b"\x0aklBEGIN 0-5 BEGIN\x0atLCURLY 6-7 {\x0atIDENTIFIER 8-10 a\xff\x00\x0atEQL 11-12 =\x0atINTEGER 13-14 1\x0atRCURLY 15-16 }\x0atSEMI 16-17 ;\x0atIDENTIFIER 18-20 a\xff\x00\x0aEOF 20-20 " },
    Rec { t: b"END { a\xffa }", shape: b"(postexe body=(send method_name=\x22a\xff\x00\x22 args=[]))", full: b"(postexe body=(send method_name=\x22a\xff\x00\x22 args=[] selector=6-8 expression=6-8) keyword=0-3 begin=4-5 end=9-10 expression=0-10)", diag: b"", toks: b"\x0aklEND 0-3 END\x0atLCURLY 4-5 {\x0atIDENTIFIER 6-8 a\xff\x00\x0atRCURLY 9-10 }\x0aEOF 10-10 " },
    Rec { t: b"a\xffa = 1; END { a\xfe\x00 }", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (postexe body=(lvar name=\x22a\xff\x00\x22))])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (postexe body=(lvar name=\x22a\xff\x00\x22 expression=14-16) keyword=8-11 begin=12-13 end=17-18 expression=8-18)] expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0aklEND 8-11 END\x0atLCURLY 12-13 {\x0atIDENTIFIER 14-16 a\xff\x00\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"a\xffa = 1; def m; a\xfe\x00; end", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (def name=\x22m\x22 body=(send method_name=\x22a\xff\x00\x22 args=[]))])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (def name=\x22m\x22 body=(send method_name=\x22a\xff\x00\x22 args=[] selector=15-17 expression=15-17) keyword=8-11 name=12-13 end=19-22 expression=8-22)] expression=0-22)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0akDEF 8-11 def\x0atIDENTIFIER 12-13 m\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 a\xff\x00\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"a\xffa = 1; def m(a\xfe\x00) a\xfe\x00 end", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (def name=\x22m\x22 args=(args args=[(arg name=\x22a\xff\x00\x22)]) body=(lvar name=\x22a\xff\x00\x22))])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (def name=\x22m\x22 args=(args args=[(arg name=\x22a\xff\x00\x22 expression=14-16)] expression=13-17 begin=13-14 end=16-17) body=(lvar name=\x22a\xff\x00\x22 expression=18-20) keyword=8-11 name=12-13 end=21-24 expression=8-24)] expression=0-24)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0akDEF 8-11 def\x0atIDENTIFIER 12-13 m\x0atLPAREN2 13-14 (\x0atIDENTIFIER 14-16 a\xff\x00\x0atRPAREN 16-17 )\x0atIDENTIFIER 18-20 a\xff\x00\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"a\xffa = 1; def m(b = a\xfe\x00) b end", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (def name=\x22m\x22 args=(args args=[(optarg name=\x22b\x22 default=(send method_name=\x22a\xff\x00\x22 args=[]))]) body=(lvar name=\x22b\x22))])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (def name=\x22m\x22 args=(args args=[(optarg name=\x22b\x22 default=(send method_name=\x22a\xff\x00\x22 args=[] selector=18-20 expression=18-20) name=14-15 operator=16-17 expression=14-20)] expression=13-21 begin=13-14 end=20-21) body=(lvar name=\x22b\x22 expression=22-23) keyword=8-11 name=12-13 end=24-27 expression=8-27)] expression=0-27)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0akDEF 8-11 def\x0atIDENTIFIER 12-13 m\x0atLPAREN2 13-14 (\x0atIDENTIFIER 14-15 b\x0atEQL 16-17 =\x0atIDENTIFIER 18-20 a\xff\x00\x0atRPAREN 20-21 )\x0atIDENTIFIER 22-23 b\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"a\xffa = 1; def self.m = a\xfe\x00", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (defs definee=(self_) name=\x22m\x22 body=(send method_name=\x22a\xff\x00\x22 args=[]))])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (defs definee=(self_ expression=12-16) name=\x22m\x22 body=(send method_name=\x22a\xff\x00\x22 args=[] selector=21-23 expression=21-23) keyword=8-11 operator=16-17 name=17-18 assignment=19-20 expression=8-23)] expression=0-23)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0akDEF 8-11 def\x0akSELF 12-16 self\x0atDOT 16-17 .\x0atIDENTIFIER 17-18 m\x0atEQL 19-20 =\x0atIDENTIFIER 21-23 a\xff\x00\x0aEOF 23-23 " },
    Rec { t: b"def a\xffa.m; a\xfe\x00; end", shape: b"(defs definee=(send method_name=\x22a\xff\x00\x22 args=[]) name=\x22m\x22 body=(send method_name=\x22a\xff\x00\x22 args=[]))", full: b"(defs definee=(send method_name=\x22a\xff\x00\x22 args=[] selector=4-6 expression=4-6) name=\x22m\x22 body=(send method_name=\x22a\xff\x00\x22 args=[] selector=10-12 expression=10-12) keyword=0-3 operator=6-7 name=7-8 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 a\xff\x00\x0atDOT 6-7 .\x0atIDENTIFIER 7-8 m\x0atSEMI 8-9 ;\x0atIDENTIFIER 10-12 a\xff\x00\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"a\xffa = 1; def a\xfe\x00.m; a\xfe\x00; end", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (defs definee=(lvar name=\x22a\xff\x00\x22) name=\x22m\x22 body=(send method_name=\x22a\xff\x00\x22 args=[]))])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (defs definee=(lvar name=\x22a\xff\x00\x22 expression=12-14) name=\x22m\x22 body=(send method_name=\x22a\xff\x00\x22 args=[] selector=18-20 expression=18-20) keyword=8-11 operator=14-15 name=15-16 end=22-25 expression=8-25)] expression=0-25)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0akDEF 8-11 def\x0atIDENTIFIER 12-14 a\xff\x00\x0atDOT 14-15 .\x0atIDENTIFIER 15-16 m\x0atSEMI 16-17 ;\x0atIDENTIFIER 18-20 a\xff\x00\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"a\xffa = 1; class << a\xfe\x00; a\xfe\x00; end", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (s_class expr=(lvar name=\x22a\xff\x00\x22) body=(send method_name=\x22a\xff\x00\x22 args=[]))])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (s_class expr=(lvar name=\x22a\xff\x00\x22 expression=17-19) body=(send method_name=\x22a\xff\x00\x22 args=[] selector=21-23 expression=21-23) keyword=8-13 operator=14-16 end=25-28 expression=8-28)] expression=0-28)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0akCLASS 8-13 class\x0atLSHFT 14-16 <<\x0atIDENTIFIER 17-19 a\xff\x00\x0atSEMI 19-20 ;\x0atIDENTIFIER 21-23 a\xff\x00\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"a\xffa = 1; class C < a\xfe\x00; a\xfe\x00; end", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (class name=(const name=\x22C\x22) superclass=(lvar name=\x22a\xff\x00\x22) body=(send method_name=\x22a\xff\x00\x22 args=[]))])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (class name=(const name=\x22C\x22 name=14-15 expression=14-15) superclass=(lvar name=\x22a\xff\x00\x22 expression=18-20) body=(send method_name=\x22a\xff\x00\x22 args=[] selector=22-24 expression=22-24) keyword=8-13 operator=16-17 end=26-29 expression=8-29)] expression=0-29)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0akCLASS 8-13 class\x0atCONSTANT 14-15 C\x0atLT 16-17 <\x0atIDENTIFIER 18-20 a\xff\x00\x0atSEMI 20-21 ;\x0atIDENTIFIER 22-24 a\xff\x00\x0atSEMI 24-25 ;\x0akEND 26-29 end\x0aEOF 29-29 " },
    Rec { t: b"a\xffa = 1; -> { b\xffa = a\xfe\x00; b\xfe\x01 }; b\xfe\x01", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (block call=(lambda) body=(begin statements=[(lvasgn name=\x22b\xff\x01\x22 value=(lvar name=\x22a\xff\x00\x22)) (lvar name=\x22b\xff\x01\x22)])) (send method_name=\x22b\xff\x01\x22 args=[])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (block call=(lambda expression=8-10) body=(begin statements=[(lvasgn name=\x22b\xff\x01\x22 value=(lvar name=\x22a\xff\x00\x22 expression=18-20) name=13-15 operator=16-17 expression=13-20) (lvar name=\x22b\xff\x01\x22 expression=22-24)] expression=13-24) begin=11-12 end=25-26 expression=8-26) (send method_name=\x22b\xff\x01\x22 args=[] selector=28-30 expression=28-30)] expression=0-30)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atLAMBDA 8-10 ->\x0atLAMBEG 11-12 {\x0atIDENTIFIER 13-15 b\xff\x01\x0atEQL 16-17 =\x0atIDENTIFIER 18-20 a\xff\x00\x0atSEMI 20-21 ;\x0atIDENTIFIER 22-24 b\xff\x01\x0atRCURLY 25-26 }\x0atSEMI 26-27 ;\x0atIDENTIFIER 28-30 b\xff\x01\x0aEOF 30-30 " },
    Rec { t: b"a\xffa = 1; m { a\xfe\x00 = 2 }; a\xfe\x00", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (block call=(send method_name=\x22m\x22 args=[]) body=(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x222\x22))) (lvar name=\x22a\xff\x00\x22)])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (block call=(send method_name=\x22m\x22 args=[] selector=8-9 expression=8-9) body=(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x222\x22 expression=17-18) name=12-14 operator=15-16 expression=12-18) begin=10-11 end=19-20 expression=8-20) (lvar name=\x22a\xff\x00\x22 expression=22-24)] expression=0-24)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-9 m\x0atLCURLY 10-11 {\x0atIDENTIFIER 12-14 a\xff\x00\x0atEQL 15-16 =\x0atINTEGER 17-18 2\x0atRCURLY 19-20 }\x0atSEMI 20-21 ;\x0atIDENTIFIER 22-24 a\xff\x00\x0aEOF 24-24 " },
    Rec { t: b"m { a\xffa = 2 }; a\xfe\x00", shape: b"(begin statements=[(block call=(send method_name=\x22m\x22 args=[]) body=(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x222\x22))) (send method_name=\x22a\xff\x00\x22 args=[])])", full: b"(begin statements=[(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) body=(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x222\x22 expression=9-10) name=4-6 operator=7-8 expression=4-10) begin=2-3 end=11-12 expression=0-12) (send method_name=\x22a\xff\x00\x22 args=[] selector=14-16 expression=14-16)] expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atIDENTIFIER 4-6 a\xff\x00\x0atEQL 7-8 =\x0atINTEGER 9-10 2\x0atRCURLY 11-12 }\x0atSEMI 12-13 ;\x0atIDENTIFIER 14-16 a\xff\x00\x0aEOF 16-16 " },
    Rec { t: b"m { a\xffa = 2; n { a\xfe\x00 } }", shape: b"(block call=(send method_name=\x22m\x22 args=[]) body=(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x222\x22)) (block call=(send method_name=\x22n\x22 args=[]) body=(lvar name=\x22a\xff\x00\x22))]))", full: b"(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) body=(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x222\x22 expression=9-10) name=4-6 operator=7-8 expression=4-10) (block call=(send method_name=\x22n\x22 args=[] selector=12-13 expression=12-13) body=(lvar name=\x22a\xff\x00\x22 expression=16-18) begin=14-15 end=19-20 expression=12-20)] expression=4-20) begin=2-3 end=21-22 expression=0-22)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atIDENTIFIER 4-6 a\xff\x00\x0atEQL 7-8 =\x0atINTEGER 9-10 2\x0atSEMI 10-11 ;\x0atIDENTIFIER 12-13 n\x0atLCURLY 14-15 {\x0atIDENTIFIER 16-18 a\xff\x00\x0atRCURLY 19-20 }\x0atRCURLY 21-22 }\x0aEOF 22-22 " },
    Rec { t: b"m { n { a\xffa = 2 }; a\xfe\x00 }", shape: b"(block call=(send method_name=\x22m\x22 args=[]) body=(begin statements=[(block call=(send method_name=\x22n\x22 args=[]) body=(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x222\x22))) (send method_name=\x22a\xff\x00\x22 args=[])]))", full: b"(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) body=(begin statements=[(block call=(send method_name=\x22n\x22 args=[] selector=4-5 expression=4-5) body=(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x222\x22 expression=13-14) name=8-10 operator=11-12 expression=8-14) begin=6-7 end=15-16 expression=4-16) (send method_name=\x22a\xff\x00\x22 args=[] selector=18-20 expression=18-20)] expression=4-20) begin=2-3 end=21-22 expression=0-22)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atIDENTIFIER 4-5 n\x0atLCURLY 6-7 {\x0atIDENTIFIER 8-10 a\xff\x00\x0atEQL 11-12 =\x0atINTEGER 13-14 2\x0atRCURLY 15-16 }\x0atSEMI 16-17 ;\x0atIDENTIFIER 18-20 a\xff\x00\x0atRCURLY 21-22 }\x0aEOF 22-22 " },
    Rec { t: b"m { |a\xffa| n { |a\xfe\x00| a\xfe\x00 }; a\xfe\x00 }; a\xfe\x00", shape: b"(begin statements=[(block call=(send method_name=\x22m\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22a\xff\x00\x22)])]) body=(begin statements=[(block call=(send method_name=\x22n\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22a\xff\x00\x22)])]) body=(lvar name=\x22a\xff\x00\x22)) (lvar name=\x22a\xff\x00\x22)])) (send method_name=\x22a\xff\x00\x22 args=[])])", full: b"(begin statements=[(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) args=(args args=[(procarg0 args=[(arg name=\x22a\xff\x00\x22 expression=5-7)] expression=5-7)] expression=4-8 begin=4-5 end=7-8) body=(begin statements=[(block call=(send method_name=\x22n\x22 args=[] selector=9-10 expression=9-10) args=(args args=[(procarg0 args=[(arg name=\x22a\xff\x00\x22 expression=14-16)] expression=14-16)] expression=13-17 begin=13-14 end=16-17) body=(lvar name=\x22a\xff\x00\x22 expression=18-20) begin=11-12 end=21-22 expression=9-22) (lvar name=\x22a\xff\x00\x22 expression=24-26)] expression=9-26) begin=2-3 end=27-28 expression=0-28) (send method_name=\x22a\xff\x00\x22 args=[] selector=30-32 expression=30-32)] expression=0-32)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atIDENTIFIER 5-7 a\xff\x00\x0atPIPE 7-8 |\x0atIDENTIFIER 9-10 n\x0atLCURLY 11-12 {\x0atPIPE 13-14 |\x0atIDENTIFIER 14-16 a\xff\x00\x0atPIPE 16-17 |\x0atIDENTIFIER 18-20 a\xff\x00\x0atRCURLY 21-22 }\x0atSEMI 22-23 ;\x0atIDENTIFIER 24-26 a\xff\x00\x0atRCURLY 27-28 }\x0atSEMI 28-29 ;\x0atIDENTIFIER 30-32 a\xff\x00\x0aEOF 32-32 " },
    Rec { t: b"m { |a\xffa; b\xffa| b\xfe\x01 }; b\xfe\x01", shape: b"(begin statements=[(block call=(send method_name=\x22m\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22a\xff\x00\x22)]) (shadowarg name=\x22b\xff\x01\x22)]) body=(lvar name=\x22b\xff\x01\x22)) (send method_name=\x22b\xff\x01\x22 args=[])])", full: b"(begin statements=[(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) args=(args args=[(procarg0 args=[(arg name=\x22a\xff\x00\x22 expression=5-7)] expression=5-7) (shadowarg name=\x22b\xff\x01\x22 expression=9-11)] expression=4-12 begin=4-5 end=11-12) body=(lvar name=\x22b\xff\x01\x22 expression=13-15) begin=2-3 end=16-17 expression=0-17) (send method_name=\x22b\xff\x01\x22 args=[] selector=19-21 expression=19-21)] expression=0-21)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atIDENTIFIER 5-7 a\xff\x00\x0atSEMI 7-8 ;\x0atIDENTIFIER 9-11 b\xff\x01\x0atPIPE 11-12 |\x0atIDENTIFIER 13-15 b\xff\x01\x0atRCURLY 16-17 }\x0atSEMI 17-18 ;\x0atIDENTIFIER 19-21 b\xff\x01\x0aEOF 21-21 " },
    Rec { t: b"m { |a\xffa, b\xffa = a\xfe\x00| }", shape: b"(block call=(send method_name=\x22m\x22 args=[]) args=(args args=[(arg name=\x22a\xff\x00\x22) (optarg name=\x22b\xff\x01\x22 default=(lvar name=\x22a\xff\x00\x22))]))", full: b"(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) args=(args args=[(arg name=\x22a\xff\x00\x22 expression=5-7) (optarg name=\x22b\xff\x01\x22 default=(lvar name=\x22a\xff\x00\x22 expression=14-16) name=9-11 operator=12-13 expression=9-16)] expression=4-17 begin=4-5 end=16-17) begin=2-3 end=18-19 expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atIDENTIFIER 5-7 a\xff\x00\x0atCOMMA 7-8 ,\x0atIDENTIFIER 9-11 b\xff\x01\x0atEQL 12-13 =\x0atIDENTIFIER 14-16 a\xff\x00\x0atPIPE 16-17 |\x0atRCURLY 18-19 }\x0aEOF 19-19 " },
    Rec { t: b"m { |a\xffa = 1, b\xffa = a\xfe\x00| }", shape: b"(block call=(send method_name=\x22m\x22 args=[]) args=(args args=[(optarg name=\x22a\xff\x00\x22 default=(int value=\x221\x22)) (optarg name=\x22b\xff\x01\x22 default=(lvar name=\x22a\xff\x00\x22))]))", full: b"(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) args=(args args=[(optarg name=\x22a\xff\x00\x22 default=(int value=\x221\x22 expression=10-11) name=5-7 operator=8-9 expression=5-11) (optarg name=\x22b\xff\x01\x22 default=(lvar name=\x22a\xff\x00\x22 expression=18-20) name=13-15 operator=16-17 expression=13-20)] expression=4-21 begin=4-5 end=20-21) begin=2-3 end=22-23 expression=0-23)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atIDENTIFIER 5-7 a\xff\x00\x0atEQL 8-9 =\x0atINTEGER 10-11 1\x0atCOMMA 11-12 ,\x0atIDENTIFIER 13-15 b\xff\x01\x0atEQL 16-17 =\x0atIDENTIFIER 18-20 a\xff\x00\x0atPIPE 20-21 |\x0atRCURLY 22-23 }\x0aEOF 23-23 " },
    Rec { t: b"->(a\xffa, b\xffa = a\xfe\x00) {}", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22a\xff\x00\x22) (optarg name=\x22b\xff\x01\x22 default=(lvar name=\x22a\xff\x00\x22))]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22a\xff\x00\x22 expression=3-5) (optarg name=\x22b\xff\x01\x22 default=(lvar name=\x22a\xff\x00\x22 expression=12-14) name=7-9 operator=10-11 expression=7-14)] expression=2-15 begin=2-3 end=14-15) begin=16-17 end=17-18 expression=0-18)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 a\xff\x00\x0atCOMMA 5-6 ,\x0atIDENTIFIER 7-9 b\xff\x01\x0atEQL 10-11 =\x0atIDENTIFIER 12-14 a\xff\x00\x0atRPAREN 14-15 )\x0atLAMBEG 16-17 {\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"def m(a\xffa, b\xffa = a\xfe\x00) end", shape: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22a\xff\x00\x22) (optarg name=\x22b\xff\x01\x22 default=(lvar name=\x22a\xff\x00\x22))]))", full: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22a\xff\x00\x22 expression=6-8) (optarg name=\x22b\xff\x01\x22 default=(lvar name=\x22a\xff\x00\x22 expression=15-17) name=10-12 operator=13-14 expression=10-17)] expression=5-18 begin=5-6 end=17-18) keyword=0-3 name=4-5 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 a\xff\x00\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 b\xff\x01\x0atEQL 13-14 =\x0atIDENTIFIER 15-17 a\xff\x00\x0atRPAREN 17-18 )\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"def m(a\xffa:, b\xffa: a\xfe\x00) end", shape: b"(def name=\x22m\x22 args=(args args=[(kwarg name=\x22a\xff\x00\x22) (kwoptarg name=\x22b\xff\x01\x22 default=(lvar name=\x22a\xff\x00\x22))]))", full: b"(def name=\x22m\x22 args=(args args=[(kwarg name=\x22a\xff\x00\x22 name=6-8 expression=6-9) (kwoptarg name=\x22b\xff\x01\x22 default=(lvar name=\x22a\xff\x00\x22 expression=15-17) name=11-13 expression=11-17)] expression=5-18 begin=5-6 end=17-18) keyword=0-3 name=4-5 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atLABEL 6-9 a\xff\x00\x0atCOMMA 9-10 ,\x0atLABEL 11-14 b\xff\x01\x0atIDENTIFIER 15-17 a\xff\x00\x0atRPAREN 17-18 )\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"def m(*a\xffa, b\xffa: a\xfe\x00, **c\xffa) [a\xfe\x00, b\xfe\x01, c\xfe\x02] end", shape: b"(def name=\x22m\x22 args=(args args=[(restarg name=\x22a\xff\x00\x22) (kwoptarg name=\x22b\xff\x01\x22 default=(lvar name=\x22a\xff\x00\x22)) (kwrestarg name=\x22c\xff\x02\x22)]) body=(array elements=[(lvar name=\x22a\xff\x00\x22) (lvar name=\x22b\xff\x01\x22) (lvar name=\x22c\xff\x02\x22)]))", full: b"(def name=\x22m\x22 args=(args args=[(restarg name=\x22a\xff\x00\x22 operator=6-7 name=7-9 expression=6-9) (kwoptarg name=\x22b\xff\x01\x22 default=(lvar name=\x22a\xff\x00\x22 expression=15-17) name=11-13 expression=11-17) (kwrestarg name=\x22c\xff\x02\x22 operator=19-21 name=21-23 expression=19-23)] expression=5-24 begin=5-6 end=23-24) body=(array elements=[(lvar name=\x22a\xff\x00\x22 expression=26-28) (lvar name=\x22b\xff\x01\x22 expression=30-32) (lvar name=\x22c\xff\x02\x22 expression=34-36)] begin=25-26 end=36-37 expression=25-37) keyword=0-3 name=4-5 end=38-41 expression=0-41)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atSTAR 6-7 *\x0atIDENTIFIER 7-9 a\xff\x00\x0atCOMMA 9-10 ,\x0atLABEL 11-14 b\xff\x01\x0atIDENTIFIER 15-17 a\xff\x00\x0atCOMMA 17-18 ,\x0atDSTAR 19-21 **\x0atIDENTIFIER 21-23 c\xff\x02\x0atRPAREN 23-24 )\x0atLBRACK 25-26 [\x0atIDENTIFIER 26-28 a\xff\x00\x0atCOMMA 28-29 ,\x0atIDENTIFIER 30-32 b\xff\x01\x0atCOMMA 32-33 ,\x0atIDENTIFIER 34-36 c\xff\x02\x0atRBRACK 36-37 ]\x0akEND 38-41 end\x0aEOF 41-41 " },
    Rec { t: b"a\xffa = b\xffa = 1; a\xfe\x00; b\xfe\x01", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(lvasgn name=\x22b\xff\x01\x22 value=(int value=\x221\x22))) (lvar name=\x22a\xff\x00\x22) (lvar name=\x22b\xff\x01\x22)])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(lvasgn name=\x22b\xff\x01\x22 value=(int value=\x221\x22 expression=10-11) name=5-7 operator=8-9 expression=5-11) name=0-2 operator=3-4 expression=0-11) (lvar name=\x22a\xff\x00\x22 expression=13-15) (lvar name=\x22b\xff\x01\x22 expression=17-19)] expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atIDENTIFIER 5-7 b\xff\x01\x0atEQL 8-9 =\x0atINTEGER 10-11 1\x0atSEMI 11-12 ;\x0atIDENTIFIER 13-15 a\xff\x00\x0atSEMI 15-16 ;\x0atIDENTIFIER 17-19 b\xff\x01\x0aEOF 19-19 " },
    Rec { t: b"a\xffa, b\xffa = b\xfe\x01, a\xfe\x00", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22a\xff\x00\x22) (lvasgn name=\x22b\xff\x01\x22)]) rhs=(array elements=[(lvar name=\x22b\xff\x01\x22) (lvar name=\x22a\xff\x00\x22)]))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22a\xff\x00\x22 name=0-2 expression=0-2) (lvasgn name=\x22b\xff\x01\x22 name=4-6 expression=4-6)] expression=0-6) rhs=(array elements=[(lvar name=\x22b\xff\x01\x22 expression=9-11) (lvar name=\x22a\xff\x00\x22 expression=13-15)] expression=9-15) operator=7-8 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atCOMMA 2-3 ,\x0atIDENTIFIER 4-6 b\xff\x01\x0atEQL 7-8 =\x0atIDENTIFIER 9-11 b\xff\x01\x0atCOMMA 11-12 ,\x0atIDENTIFIER 13-15 a\xff\x00\x0aEOF 15-15 " },
    Rec { t: b"a\xffa, (b\xffa, *c\xffa) = 1; [a\xfe\x00, b\xfe\x01, c\xfe\x02]", shape: b"(begin statements=[(masgn lhs=(mlhs items=[(lvasgn name=\x22a\xff\x00\x22) (mlhs items=[(lvasgn name=\x22b\xff\x01\x22) (splat value=(lvasgn name=\x22c\xff\x02\x22))])]) rhs=(int value=\x221\x22)) (array elements=[(lvar name=\x22a\xff\x00\x22) (lvar name=\x22b\xff\x01\x22) (lvar name=\x22c\xff\x02\x22)])])", full: b"(begin statements=[(masgn lhs=(mlhs items=[(lvasgn name=\x22a\xff\x00\x22 name=0-2 expression=0-2) (mlhs items=[(lvasgn name=\x22b\xff\x01\x22 name=5-7 expression=5-7) (splat value=(lvasgn name=\x22c\xff\x02\x22 name=10-12 expression=10-12) operator=9-10 expression=9-12)] begin=4-5 end=12-13 expression=4-13)] expression=0-13) rhs=(int value=\x221\x22 expression=16-17) operator=14-15 expression=0-17) (array elements=[(lvar name=\x22a\xff\x00\x22 expression=20-22) (lvar name=\x22b\xff\x01\x22 expression=24-26) (lvar name=\x22c\xff\x02\x22 expression=28-30)] begin=19-20 end=30-31 expression=19-31)] expression=0-31)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atCOMMA 2-3 ,\x0atLPAREN 4-5 (\x0atIDENTIFIER 5-7 b\xff\x01\x0atCOMMA 7-8 ,\x0atSTAR 9-10 *\x0atIDENTIFIER 10-12 c\xff\x02\x0atRPAREN 12-13 )\x0atEQL 14-15 =\x0atINTEGER 16-17 1\x0atSEMI 17-18 ;\x0atLBRACK 19-20 [\x0atIDENTIFIER 20-22 a\xff\x00\x0atCOMMA 22-23 ,\x0atIDENTIFIER 24-26 b\xff\x01\x0atCOMMA 26-27 ,\x0atIDENTIFIER 28-30 c\xff\x02\x0atRBRACK 30-31 ]\x0aEOF 31-31 " },
    Rec { t: b"for a\xffa in b\xffa; c\xffa = a\xfe\x00; end; a\xfe\x00; c\xfe\x02", shape: b"(begin statements=[(for iterator=(lvasgn name=\x22a\xff\x00\x22) iteratee=(send method_name=\x22b\xff\x01\x22 args=[]) body=(lvasgn name=\x22c\xff\x02\x22 value=(lvar name=\x22a\xff\x00\x22))) (lvar name=\x22a\xff\x00\x22) (lvar name=\x22c\xff\x02\x22)])", full: b"(begin statements=[(for iterator=(lvasgn name=\x22a\xff\x00\x22 name=4-6 expression=4-6) iteratee=(send method_name=\x22b\xff\x01\x22 args=[] selector=10-12 expression=10-12) body=(lvasgn name=\x22c\xff\x02\x22 value=(lvar name=\x22a\xff\x00\x22 expression=19-21) name=14-16 operator=17-18 expression=14-21) keyword=0-3 operator=7-9 begin=12-13 end=23-26 expression=0-26) (lvar name=\x22a\xff\x00\x22 expression=28-30) (lvar name=\x22c\xff\x02\x22 expression=32-34)] expression=0-34)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atIDENTIFIER 4-6 a\xff\x00\x0akIN 7-9 in\x0atIDENTIFIER 10-12 b\xff\x01\x0atSEMI 12-13 ;\x0atIDENTIFIER 14-16 c\xff\x02\x0atEQL 17-18 =\x0atIDENTIFIER 19-21 a\xff\x00\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0atSEMI 26-27 ;\x0atIDENTIFIER 28-30 a\xff\x00\x0atSEMI 30-31 ;\x0atIDENTIFIER 32-34 c\xff\x02\x0aEOF 34-34 " },
    Rec { t: b"while a\xffa = 1; b\xffa = 2; end; b\xfe\x01", shape: b"(begin statements=[(while cond=(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) body=(lvasgn name=\x22b\xff\x01\x22 value=(int value=\x222\x22))) (lvar name=\x22b\xff\x01\x22)])", full: b"(begin statements=[(while cond=(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=11-12) name=6-8 operator=9-10 expression=6-12) body=(lvasgn name=\x22b\xff\x01\x22 value=(int value=\x222\x22 expression=19-20) name=14-16 operator=17-18 expression=14-20) keyword=0-5 begin=12-13 end=22-25 expression=0-25) (lvar name=\x22b\xff\x01\x22 expression=27-29)] expression=0-29)", diag: b"", toks: b"\x0akWHILE 0-5 while\x0atIDENTIFIER 6-8 a\xff\x00\x0atEQL 9-10 =\x0atINTEGER 11-12 1\x0atSEMI 12-13 ;\x0atIDENTIFIER 14-16 b\xff\x01\x0atEQL 17-18 =\x0atINTEGER 19-20 2\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0atSEMI 25-26 ;\x0atIDENTIFIER 27-29 b\xff\x01\x0aEOF 29-29 " },
    Rec { t: b"begin; a\xffa = 1; rescue => b\xffa; a\xfe\x00; b\xfe\x01; else; c\xffa = b\xfe\x01; ensure; c\xfe\x02; end; b\xfe\x01", shape: b"(begin statements=[(kw_begin statements=[(ensure body=(rescue body=(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) rescue_bodies=[(rescue_body exc_var=(lvasgn name=\x22b\xff\x01\x22) body=(begin statements=[(lvar name=\x22a\xff\x00\x22) (lvar name=\x22b\xff\x01\x22)]))] else_=(lvasgn name=\x22c\xff\x02\x22 value=(lvar name=\x22b\xff\x01\x22))) ensure=(lvar name=\x22c\xff\x02\x22))]) (lvar name=\x22b\xff\x01\x22)])", full: b"(begin statements=[(kw_begin statements=[(ensure body=(rescue body=(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=12-13) name=7-9 operator=10-11 expression=7-13) rescue_bodies=[(rescue_body exc_var=(lvasgn name=\x22b\xff\x01\x22 name=25-27 expression=25-27) body=(begin statements=[(lvar name=\x22a\xff\x00\x22 expression=29-31) (lvar name=\x22b\xff\x01\x22 expression=33-35)] expression=29-35) keyword=15-21 assoc=22-24 begin=27-28 expression=15-35)] else_=(lvasgn name=\x22c\xff\x02\x22 value=(lvar name=\x22b\xff\x01\x22 expression=48-50) name=43-45 operator=46-47 expression=43-50) else=37-41 expression=7-50) ensure=(lvar name=\x22c\xff\x02\x22 expression=60-62) keyword=52-58 expression=7-62)] begin=0-5 end=64-67 expression=0-67) (lvar name=\x22b\xff\x01\x22 expression=69-71)] expression=0-71)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 a\xff\x00\x0atEQL 10-11 =\x0atINTEGER 12-13 1\x0atSEMI 13-14 ;\x0akRESCUE 15-21 rescue\x0atASSOC 22-24 =>\x0atIDENTIFIER 25-27 b\xff\x01\x0atSEMI 27-28 ;\x0atIDENTIFIER 29-31 a\xff\x00\x0atSEMI 31-32 ;\x0atIDENTIFIER 33-35 b\xff\x01\x0atSEMI 35-36 ;\x0akELSE 37-41 else\x0atSEMI 41-42 ;\x0atIDENTIFIER 43-45 c\xff\x02\x0atEQL 46-47 =\x0atIDENTIFIER 48-50 b\xff\x01\x0atSEMI 50-51 ;\x0akENSURE 52-58 ensure\x0atSEMI 58-59 ;\x0atIDENTIFIER 60-62 c\xff\x02\x0atSEMI 62-63 ;\x0akEND 64-67 end\x0atSEMI 67-68 ;\x0atIDENTIFIER 69-71 b\xff\x01\x0aEOF 71-71 " },
    Rec { t: b"begin; rescue => @a\xffa; end; a\xfe\x00", shape: b"(begin statements=[(kw_begin statements=[(rescue rescue_bodies=[(rescue_body exc_var=(ivasgn name=\x22@a\xff\x00\x22))])]) (send method_name=\x22a\xff\x00\x22 args=[])])", full: b"(begin statements=[(kw_begin statements=[(rescue rescue_bodies=[(rescue_body exc_var=(ivasgn name=\x22@a\xff\x00\x22 name=17-20 expression=17-20) keyword=7-13 assoc=14-16 begin=20-21 expression=7-21)] expression=7-21)] begin=0-5 end=22-25 expression=0-25) (send method_name=\x22a\xff\x00\x22 args=[] selector=27-29 expression=27-29)] expression=0-29)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akRESCUE 7-13 rescue\x0atASSOC 14-16 =>\x0atIVAR 17-20 @a\xff\x00\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0atSEMI 25-26 ;\x0atIDENTIFIER 27-29 a\xff\x00\x0aEOF 29-29 " },
    Rec { t: b"case a\xffa = 1; when 1 then b\xffa = a\xfe\x00; else b\xfe\x01; end; b\xfe\x01", shape: b"(begin statements=[(case expr=(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) when_bodies=[(when patterns=[(int value=\x221\x22)] body=(lvasgn name=\x22b\xff\x01\x22 value=(lvar name=\x22a\xff\x00\x22)))] else_body=(lvar name=\x22b\xff\x01\x22)) (lvar name=\x22b\xff\x01\x22)])", full: b"(begin statements=[(case expr=(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=10-11) name=5-7 operator=8-9 expression=5-11) when_bodies=[(when patterns=[(int value=\x221\x22 expression=18-19)] body=(lvasgn name=\x22b\xff\x01\x22 value=(lvar name=\x22a\xff\x00\x22 expression=30-32) name=25-27 operator=28-29 expression=25-32) keyword=13-17 begin=20-24 expression=13-32)] else_body=(lvar name=\x22b\xff\x01\x22 expression=39-41) keyword=0-4 else=34-38 end=43-46 expression=0-46) (lvar name=\x22b\xff\x01\x22 expression=48-50)] expression=0-50)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 a\xff\x00\x0atEQL 8-9 =\x0atINTEGER 10-11 1\x0atSEMI 11-12 ;\x0akWHEN 13-17 when\x0atINTEGER 18-19 1\x0akTHEN 20-24 then\x0atIDENTIFIER 25-27 b\xff\x01\x0atEQL 28-29 =\x0atIDENTIFIER 30-32 a\xff\x00\x0atSEMI 32-33 ;\x0akELSE 34-38 else\x0atIDENTIFIER 39-41 b\xff\x01\x0atSEMI 41-42 ;\x0akEND 43-46 end\x0atSEMI 46-47 ;\x0atIDENTIFIER 48-50 b\xff\x01\x0aEOF 50-50 " },
    Rec { t: b"case 1; in a\xffa if a\xfe\x00 then a\xfe\x00; end; a\xfe\x00", shape: b"(begin statements=[(case_match expr=(int value=\x221\x22) in_bodies=[(in_pattern pattern=(match_var name=\x22a\xff\x00\x22) guard=(if_guard cond=(lvar name=\x22a\xff\x00\x22)) body=(lvar name=\x22a\xff\x00\x22))]) (lvar name=\x22a\xff\x00\x22)])", full: b"(begin statements=[(case_match expr=(int value=\x221\x22 expression=5-6) in_bodies=[(in_pattern pattern=(match_var name=\x22a\xff\x00\x22 name=11-13 expression=11-13) guard=(if_guard cond=(lvar name=\x22a\xff\x00\x22 expression=17-19) keyword=14-16 expression=14-19) body=(lvar name=\x22a\xff\x00\x22 expression=25-27) keyword=8-10 begin=20-24 expression=8-27)] keyword=0-4 end=29-32 expression=0-32) (lvar name=\x22a\xff\x00\x22 expression=34-36)] expression=0-36)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atIDENTIFIER 11-13 a\xff\x00\x0akIF_MOD 14-16 if\x0atIDENTIFIER 17-19 a\xff\x00\x0akTHEN 20-24 then\x0atIDENTIFIER 25-27 a\xff\x00\x0atSEMI 27-28 ;\x0akEND 29-32 end\x0atSEMI 32-33 ;\x0atIDENTIFIER 34-36 a\xff\x00\x0aEOF 36-36 " },
    Rec { t: b"case 1; in [a\xffa, {k: b\xffa, **c\xffa}] then [a\xfe\x00, b\xfe\x01, c\xfe\x02]; end", shape: b"(case_match expr=(int value=\x221\x22) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22a\xff\x00\x22) (hash_pattern elements=[(pair key=(sym name=\x22k\x22) value=(match_var name=\x22b\xff\x01\x22)) (match_rest name=(match_var name=\x22c\xff\x02\x22))])]) body=(array elements=[(lvar name=\x22a\xff\x00\x22) (lvar name=\x22b\xff\x01\x22) (lvar name=\x22c\xff\x02\x22)]))])", full: b"(case_match expr=(int value=\x221\x22 expression=5-6) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22a\xff\x00\x22 name=12-14 expression=12-14) (hash_pattern elements=[(pair key=(sym name=\x22k\x22 expression=17-18) value=(match_var name=\x22b\xff\x01\x22 name=20-22 expression=20-22) operator=18-19 expression=17-22) (match_rest name=(match_var name=\x22c\xff\x02\x22 name=26-28 expression=26-28) operator=24-26 expression=24-28)] begin=16-17 end=28-29 expression=16-29)] begin=11-12 end=29-30 expression=11-30) body=(array elements=[(lvar name=\x22a\xff\x00\x22 expression=37-39) (lvar name=\x22b\xff\x01\x22 expression=41-43) (lvar name=\x22c\xff\x02\x22 expression=45-47)] begin=36-37 end=47-48 expression=36-48) keyword=8-10 begin=31-35 expression=8-48)] keyword=0-4 end=50-53 expression=0-53)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACK 11-12 [\x0atIDENTIFIER 12-14 a\xff\x00\x0atCOMMA 14-15 ,\x0atLBRACE 16-17 {\x0atLABEL 17-19 k\x0atIDENTIFIER 20-22 b\xff\x01\x0atCOMMA 22-23 ,\x0atDSTAR 24-26 **\x0atIDENTIFIER 26-28 c\xff\x02\x0atRCURLY 28-29 }\x0atRBRACK 29-30 ]\x0akTHEN 31-35 then\x0atLBRACK 36-37 [\x0atIDENTIFIER 37-39 a\xff\x00\x0atCOMMA 39-40 ,\x0atIDENTIFIER 41-43 b\xff\x01\x0atCOMMA 43-44 ,\x0atIDENTIFIER 45-47 c\xff\x02\x0atRBRACK 47-48 ]\x0atSEMI 48-49 ;\x0akEND 50-53 end\x0aEOF 53-53 " },
    Rec { t: b"case 1; in {a\xffa:} unless a\xfe\x00; end; a\xfe\x00", shape: b"(begin statements=[(case_match expr=(int value=\x221\x22) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22a\xff\x00\x22)]) guard=(unless_guard cond=(lvar name=\x22a\xff\x00\x22)))]) (lvar name=\x22a\xff\x00\x22)])", full: b"(begin statements=[(case_match expr=(int value=\x221\x22 expression=5-6) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22a\xff\x00\x22 name=12-14 expression=12-15)] begin=11-12 end=15-16 expression=11-16) guard=(unless_guard cond=(lvar name=\x22a\xff\x00\x22 expression=24-26) keyword=17-23 expression=17-26) keyword=8-10 begin=26-27 expression=8-26)] keyword=0-4 end=28-31 expression=0-31) (lvar name=\x22a\xff\x00\x22 expression=33-35)] expression=0-35)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atLABEL 12-15 a\xff\x00\x0atRCURLY 15-16 }\x0akUNLESS_MOD 17-23 unless\x0atIDENTIFIER 24-26 a\xff\x00\x0atSEMI 26-27 ;\x0akEND 28-31 end\x0atSEMI 31-32 ;\x0atIDENTIFIER 33-35 a\xff\x00\x0aEOF 35-35 " },
    Rec { t: b"1 => a\xffa; a\xfe\x00", shape: b"(begin statements=[(match_pattern value=(int value=\x221\x22) pattern=(match_var name=\x22a\xff\x00\x22)) (lvar name=\x22a\xff\x00\x22)])", full: b"(begin statements=[(match_pattern value=(int value=\x221\x22 expression=0-1) pattern=(match_var name=\x22a\xff\x00\x22 name=5-7 expression=5-7) operator=2-4 expression=0-7) (lvar name=\x22a\xff\x00\x22 expression=9-11)] expression=0-11)", diag: b"", toks: b"\x0atINTEGER 0-1 1\x0atASSOC 2-4 =>\x0atIDENTIFIER 5-7 a\xff\x00\x0atSEMI 7-8 ;\x0atIDENTIFIER 9-11 a\xff\x00\x0aEOF 11-11 " },
    Rec { t: b"1 in a\xffa; a\xfe\x00", shape: b"(begin statements=[(match_pattern_p value=(int value=\x221\x22) pattern=(match_var name=\x22a\xff\x00\x22)) (lvar name=\x22a\xff\x00\x22)])", full: b"(begin statements=[(match_pattern_p value=(int value=\x221\x22 expression=0-1) pattern=(match_var name=\x22a\xff\x00\x22 name=5-7 expression=5-7) operator=2-4 expression=0-7) (lvar name=\x22a\xff\x00\x22 expression=9-11)] expression=0-11)", diag: b"", toks: b"\x0atINTEGER 0-1 1\x0akIN 2-4 in\x0atIDENTIFIER 5-7 a\xff\x00\x0atSEMI 7-8 ;\x0atIDENTIFIER 9-11 a\xff\x00\x0aEOF 11-11 " },
    Rec { t: b"a\xffa = 1; case 1; in ^a\xfe\x00; end", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (case_match expr=(int value=\x221\x22) in_bodies=[(in_pattern pattern=(pin var=(lvar name=\x22a\xff\x00\x22)))])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (case_match expr=(int value=\x221\x22 expression=13-14) in_bodies=[(in_pattern pattern=(pin var=(lvar name=\x22a\xff\x00\x22 expression=20-22) selector=19-20 expression=19-22) keyword=16-18 begin=22-23 expression=16-22)] keyword=8-12 end=24-27 expression=8-27)] expression=0-27)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0akCASE 8-12 case\x0atINTEGER 13-14 1\x0atSEMI 14-15 ;\x0akIN 16-18 in\x0atCARET 19-20 ^\x0atIDENTIFIER 20-22 a\xff\x00\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"if a\xffa = 1 then a\xfe\x00 else a\xfe\x00 end", shape: b"(if cond=(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) if_true=(lvar name=\x22a\xff\x00\x22) if_false=(lvar name=\x22a\xff\x00\x22))", full: b"(if cond=(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=8-9) name=3-5 operator=6-7 expression=3-9) if_true=(lvar name=\x22a\xff\x00\x22 expression=15-17) if_false=(lvar name=\x22a\xff\x00\x22 expression=23-25) keyword=0-2 begin=10-14 else=18-22 end=26-29 expression=0-29)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 a\xff\x00\x0atEQL 6-7 =\x0atINTEGER 8-9 1\x0akTHEN 10-14 then\x0atIDENTIFIER 15-17 a\xff\x00\x0akELSE 18-22 else\x0atIDENTIFIER 23-25 a\xff\x00\x0akEND 26-29 end\x0aEOF 29-29 " },
    Rec { t: b"a\xffa if a\xfe\x00 = 1", shape: b"(if_mod cond=(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) if_true=(send method_name=\x22a\xff\x00\x22 args=[]))", full: b"(if_mod cond=(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=11-12) name=6-8 operator=9-10 expression=6-12) if_true=(send method_name=\x22a\xff\x00\x22 args=[] selector=0-2 expression=0-2) keyword=3-5 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0akIF_MOD 3-5 if\x0atIDENTIFIER 6-8 a\xff\x00\x0atEQL 9-10 =\x0atINTEGER 11-12 1\x0aEOF 12-12 " },
    Rec { t: b"a\xffa while a\xfe\x00 = 1", shape: b"(while cond=(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) body=(send method_name=\x22a\xff\x00\x22 args=[]))", full: b"(while cond=(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=14-15) name=9-11 operator=12-13 expression=9-15) body=(send method_name=\x22a\xff\x00\x22 args=[] selector=0-2 expression=0-2) keyword=3-8 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0akWHILE_MOD 3-8 while\x0atIDENTIFIER 9-11 a\xff\x00\x0atEQL 12-13 =\x0atINTEGER 14-15 1\x0aEOF 15-15 " },
    Rec { t: b"a\xffa = a\xfe\x00", shape: b"(lvasgn name=\x22a\xff\x00\x22 value=(lvar name=\x22a\xff\x00\x22))", full: b"(lvasgn name=\x22a\xff\x00\x22 value=(lvar name=\x22a\xff\x00\x22 expression=5-7) name=0-2 operator=3-4 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atIDENTIFIER 5-7 a\xff\x00\x0aEOF 7-7 " },
    Rec { t: b"a\xffa += a\xfe\x00", shape: b"(op_asgn recv=(lvasgn name=\x22a\xff\x00\x22) operator=\x22+\x22 value=(lvar name=\x22a\xff\x00\x22))", full: b"(op_asgn recv=(lvasgn name=\x22a\xff\x00\x22 name=0-2 expression=0-2) operator=\x22+\x22 value=(lvar name=\x22a\xff\x00\x22 expression=6-8) operator=3-5 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atOP_ASGN 3-5 +=\x0atIDENTIFIER 6-8 a\xff\x00\x0aEOF 8-8 " },
    Rec { t: b"a\xffa ||= a\xfe\x00", shape: b"(or_asgn recv=(lvasgn name=\x22a\xff\x00\x22) value=(lvar name=\x22a\xff\x00\x22))", full: b"(or_asgn recv=(lvasgn name=\x22a\xff\x00\x22 name=0-2 expression=0-2) value=(lvar name=\x22a\xff\x00\x22 expression=7-9) operator=3-6 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atOP_ASGN 3-6 ||=\x0atIDENTIFIER 7-9 a\xff\x00\x0aEOF 9-9 " },
    Rec { t: b"a\xffa = 1 if a\xfe\x00", shape: b"(if_mod cond=(lvar name=\x22a\xff\x00\x22) if_true=(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)))", full: b"(if_mod cond=(lvar name=\x22a\xff\x00\x22 expression=10-12) if_true=(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) keyword=7-9 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0akIF_MOD 7-9 if\x0atIDENTIFIER 10-12 a\xff\x00\x0aEOF 12-12 " },
    Rec { t: b"\x22#{a\xffa = 1}\x22; a\xfe\x00", shape: b"(begin statements=[(dstr parts=[(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22))])]) (lvar name=\x22a\xff\x00\x22)])", full: b"(begin statements=[(dstr parts=[(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=8-9) name=3-5 operator=6-7 expression=3-9)] begin=1-3 end=9-10 expression=1-10)] begin=0-1 end=10-11 expression=0-11) (lvar name=\x22a\xff\x00\x22 expression=13-15)] expression=0-15)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_DBEG 1-3 #{\x0atIDENTIFIER 3-5 a\xff\x00\x0atEQL 6-7 =\x0atINTEGER 8-9 1\x0atSTRING_DEND 9-10 }\x0atSTRING_END 10-11 \x22\x0atSEMI 11-12 ;\x0atIDENTIFIER 13-15 a\xff\x00\x0aEOF 15-15 " },
    Rec { t: b"<<E\x0a#{a\xffa = 1}\x0aE\x0aa\xfe\x00", shape: b"(begin statements=[(heredoc parts=[(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22))]) (str value=\x22\x0a\x22)]) (lvar name=\x22a\xff\x00\x22)])", full: b"(begin statements=[(heredoc parts=[(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=11-12) name=6-8 operator=9-10 expression=6-12)] begin=4-6 end=12-13 expression=4-13) (str value=\x22\x0a\x22 expression=13-14)] heredoc_body=4-14 heredoc_end=14-15 expression=0-3) (lvar name=\x22a\xff\x00\x22 expression=16-18)] expression=0-18)", diag: b"", toks: b"\x0atSTRING_BEG 0-3 <<E\x0atSTRING_DBEG 4-6 #{\x0atIDENTIFIER 6-8 a\xff\x00\x0atEQL 9-10 =\x0atINTEGER 11-12 1\x0atSTRING_DEND 12-13 }\x0atSTRING_CONTENT 13-14 \x0a\x0atSTRING_END 14-15 E\x0atNL 3-4 \x0a\x0atIDENTIFIER 16-18 a\xff\x00\x0aEOF 18-18 " },
    Rec { t: b"m(a\xffa = 1, a\xfe\x00)", shape: b"(send method_name=\x22m\x22 args=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (lvar name=\x22a\xff\x00\x22)])", full: b"(send method_name=\x22m\x22 args=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=7-8) name=2-4 operator=5-6 expression=2-8) (lvar name=\x22a\xff\x00\x22 expression=10-12)] selector=0-1 begin=1-2 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atIDENTIFIER 2-4 a\xff\x00\x0atEQL 5-6 =\x0atINTEGER 7-8 1\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 a\xff\x00\x0atRPAREN 12-13 )\x0aEOF 13-13 " },
    Rec { t: b"m a\xffa = 1; a\xfe\x00", shape: b"(begin statements=[(send method_name=\x22m\x22 args=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22))]) (lvar name=\x22a\xff\x00\x22)])", full: b"(begin statements=[(send method_name=\x22m\x22 args=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=7-8) name=2-4 operator=5-6 expression=2-8)] selector=0-1 expression=0-8) (lvar name=\x22a\xff\x00\x22 expression=10-12)] expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atIDENTIFIER 2-4 a\xff\x00\x0atEQL 5-6 =\x0atINTEGER 7-8 1\x0atSEMI 8-9 ;\x0atIDENTIFIER 10-12 a\xff\x00\x0aEOF 12-12 " },
    Rec { t: b"[a\xffa = 1, a\xfe\x00]", shape: b"(array elements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (lvar name=\x22a\xff\x00\x22)])", full: b"(array elements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=6-7) name=1-3 operator=4-5 expression=1-7) (lvar name=\x22a\xff\x00\x22 expression=9-11)] begin=0-1 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atIDENTIFIER 1-3 a\xff\x00\x0atEQL 4-5 =\x0atINTEGER 6-7 1\x0atCOMMA 7-8 ,\x0atIDENTIFIER 9-11 a\xff\x00\x0atRBRACK 11-12 ]\x0aEOF 12-12 " },
    Rec { t: b"{k: a\xffa = 1, l: a\xfe\x00}", shape: b"(hash pairs=[(pair key=(sym name=\x22k\x22) value=(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22))) (pair key=(sym name=\x22l\x22) value=(lvar name=\x22a\xff\x00\x22))])", full: b"(hash pairs=[(pair key=(sym name=\x22k\x22 expression=1-2) value=(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=9-10) name=4-6 operator=7-8 expression=4-10) operator=2-3 expression=1-10) (pair key=(sym name=\x22l\x22 expression=12-13) value=(lvar name=\x22a\xff\x00\x22 expression=15-17) operator=13-14 expression=12-17)] begin=0-1 end=17-18 expression=0-18)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 1-3 k\x0atIDENTIFIER 4-6 a\xff\x00\x0atEQL 7-8 =\x0atINTEGER 9-10 1\x0atCOMMA 10-11 ,\x0atLABEL 12-14 l\x0atIDENTIFIER 15-17 a\xff\x00\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"a\xffa = -> { a\xfe\x00 }", shape: b"(lvasgn name=\x22a\xff\x00\x22 value=(block call=(lambda) body=(lvar name=\x22a\xff\x00\x22)))", full: b"(lvasgn name=\x22a\xff\x00\x22 value=(block call=(lambda expression=5-7) body=(lvar name=\x22a\xff\x00\x22 expression=10-12) begin=8-9 end=13-14 expression=5-14) name=0-2 operator=3-4 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atLAMBDA 5-7 ->\x0atLAMBEG 8-9 {\x0atIDENTIFIER 10-12 a\xff\x00\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"a\xffa = m { a\xfe\x00 }", shape: b"(lvasgn name=\x22a\xff\x00\x22 value=(block call=(send method_name=\x22m\x22 args=[]) body=(lvar name=\x22a\xff\x00\x22)))", full: b"(lvasgn name=\x22a\xff\x00\x22 value=(block call=(send method_name=\x22m\x22 args=[] selector=5-6 expression=5-6) body=(lvar name=\x22a\xff\x00\x22 expression=9-11) begin=7-8 end=12-13 expression=5-13) name=0-2 operator=3-4 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atIDENTIFIER 5-6 m\x0atLCURLY 7-8 {\x0atIDENTIFIER 9-11 a\xff\x00\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"a\xffa = 1; m a\xfe\x00: a\xfe\x00", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (send method_name=\x22m\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22a\xff\x00\x22) value=(lvar name=\x22a\xff\x00\x22))])])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (send method_name=\x22m\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22a\xff\x00\x22 expression=10-12) value=(lvar name=\x22a\xff\x00\x22 expression=14-16) operator=12-13 expression=10-16)] expression=10-16)] selector=8-9 expression=8-16)] expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-9 m\x0atLABEL 10-13 a\xff\x00\x0atIDENTIFIER 14-16 a\xff\x00\x0aEOF 16-16 " },
    Rec { t: b"a\xffa = 1; {a\xfe\x00: a\xfe\x00}", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (hash pairs=[(pair key=(sym name=\x22a\xff\x00\x22) value=(lvar name=\x22a\xff\x00\x22))])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (hash pairs=[(pair key=(sym name=\x22a\xff\x00\x22 expression=9-11) value=(lvar name=\x22a\xff\x00\x22 expression=13-15) operator=11-12 expression=9-15)] begin=8-9 end=15-16 expression=8-16)] expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atLBRACE 8-9 {\x0atLABEL 9-12 a\xff\x00\x0atIDENTIFIER 13-15 a\xff\x00\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"a\xffa = 1; a\xfe\x00.a\xfe\x00", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (send recv=(lvar name=\x22a\xff\x00\x22) method_name=\x22a\xff\x00\x22 args=[])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (send recv=(lvar name=\x22a\xff\x00\x22 expression=8-10) method_name=\x22a\xff\x00\x22 args=[] dot=10-11 selector=11-13 expression=8-13)] expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 a\xff\x00\x0atDOT 10-11 .\x0atIDENTIFIER 11-13 a\xff\x00\x0aEOF 13-13 " },
    Rec { t: b"a\xffa = 1; m.a\xfe\x00", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (send recv=(send method_name=\x22m\x22 args=[]) method_name=\x22a\xff\x00\x22 args=[])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (send recv=(send method_name=\x22m\x22 args=[] selector=8-9 expression=8-9) method_name=\x22a\xff\x00\x22 args=[] dot=9-10 selector=10-12 expression=8-12)] expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-9 m\x0atDOT 9-10 .\x0atIDENTIFIER 10-12 a\xff\x00\x0aEOF 12-12 " },
    Rec { t: b"a\xffa = 1; a\xfe\x00()", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (send method_name=\x22a\xff\x00\x22 args=[])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (send method_name=\x22a\xff\x00\x22 args=[] selector=8-10 begin=10-11 end=11-12 expression=8-12)] expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 a\xff\x00\x0atLPAREN2 10-11 (\x0atRPAREN 11-12 )\x0aEOF 12-12 " },
    Rec { t: b"a\xffa = 1; a\xfe\x00(1)", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (send method_name=\x22a\xff\x00\x22 args=[(int value=\x221\x22)])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (send method_name=\x22a\xff\x00\x22 args=[(int value=\x221\x22 expression=11-12)] selector=8-10 begin=10-11 end=12-13 expression=8-13)] expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 a\xff\x00\x0atLPAREN2 10-11 (\x0atINTEGER 11-12 1\x0atRPAREN 12-13 )\x0aEOF 13-13 " },
    Rec { t: b"a\xffa = 1; a\xfe\x00 1", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (send method_name=\x22a\xff\x00\x22 args=[(int value=\x221\x22)])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (send method_name=\x22a\xff\x00\x22 args=[(int value=\x221\x22 expression=11-12)] selector=8-10 expression=8-12)] expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 a\xff\x00\x0atINTEGER 11-12 1\x0aEOF 12-12 " },
    Rec { t: b"a\xffa = 1; a\xfe\x00 {}", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (block call=(send method_name=\x22a\xff\x00\x22 args=[]))])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (block call=(send method_name=\x22a\xff\x00\x22 args=[] selector=8-10 expression=8-10) begin=11-12 end=12-13 expression=8-13)] expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 a\xff\x00\x0atLCURLY 11-12 {\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"a\xffa = 1; a\xfe\x00 do end", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (block call=(send method_name=\x22a\xff\x00\x22 args=[]))])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (block call=(send method_name=\x22a\xff\x00\x22 args=[] selector=8-10 expression=8-10) begin=11-13 end=14-17 expression=8-17)] expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 a\xff\x00\x0akDO 11-13 do\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"a\xffa = 1; a\xfe\x00?", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (send method_name=\x22a\xff\x00?\x22 args=[])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (send method_name=\x22a\xff\x00?\x22 args=[] selector=8-11 expression=8-11)] expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atFID 8-11 a\xff\x00?\x0aEOF 11-11 " },
    Rec { t: b"a\xffa = 1; a\xfe\x00 [1]", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (index recv=(lvar name=\x22a\xff\x00\x22) indexes=[(int value=\x221\x22)])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (index recv=(lvar name=\x22a\xff\x00\x22 expression=8-10) indexes=[(int value=\x221\x22 expression=12-13)] begin=11-12 end=13-14 expression=8-14)] expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 a\xff\x00\x0atLBRACK2 11-12 [\x0atINTEGER 12-13 1\x0atRBRACK 13-14 ]\x0aEOF 14-14 " },
    Rec { t: b"a\xffa [1]", shape: b"(send method_name=\x22a\xff\x00\x22 args=[(array elements=[(int value=\x221\x22)])])", full: b"(send method_name=\x22a\xff\x00\x22 args=[(array elements=[(int value=\x221\x22 expression=4-5)] begin=3-4 end=5-6 expression=3-6)] selector=0-2 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atLBRACK 3-4 [\x0atINTEGER 4-5 1\x0atRBRACK 5-6 ]\x0aEOF 6-6 " },
    Rec { t: b"a\xffa = 1; a\xfe\x00 -1", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (send recv=(lvar name=\x22a\xff\x00\x22) method_name=\x22-\x22 args=[(int value=\x221\x22)])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (send recv=(lvar name=\x22a\xff\x00\x22 expression=8-10) method_name=\x22-\x22 args=[(int value=\x221\x22 expression=12-13)] selector=11-12 expression=8-13)] expression=0-13)", diag: b"\x0aW 11-12 `-' after local variable or literal is interpreted as binary operator even though it seems like unary operator", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 a\xff\x00\x0atMINUS 11-12 -\x0atINTEGER 12-13 1\x0aEOF 13-13 " },
    Rec { t: b"a\xffa -1", shape: b"(send method_name=\x22a\xff\x00\x22 args=[(int value=\x22-1\x22)])", full: b"(send method_name=\x22a\xff\x00\x22 args=[(int value=\x22-1\x22 operator=3-4 expression=3-5)] selector=0-2 expression=0-5)", diag: b"\x0aW 3-4 ambiguous first argument; put parentheses or a space even after `-' operator", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atUMINUS_NUM 3-4 -\x0atINTEGER 4-5 1\x0aEOF 5-5 " },
    Rec { t: b"a\xffa = 1; a\xfe\x00 *b", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (send recv=(lvar name=\x22a\xff\x00\x22) method_name=\x22*\x22 args=[(send method_name=\x22b\x22 args=[])])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (send recv=(lvar name=\x22a\xff\x00\x22 expression=8-10) method_name=\x22*\x22 args=[(send method_name=\x22b\x22 args=[] selector=12-13 expression=12-13)] selector=11-12 expression=8-13)] expression=0-13)", diag: b"\x0aW 11-12 `*' after local variable or literal is interpreted as binary operator even though it seems like argument prefix", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 a\xff\x00\x0atSTAR2 11-12 *\x0atIDENTIFIER 12-13 b\x0aEOF 13-13 " },
    Rec { t: b"a\xffa *b", shape: b"(send method_name=\x22a\xff\x00\x22 args=[(splat value=(send method_name=\x22b\x22 args=[]))])", full: b"(send method_name=\x22a\xff\x00\x22 args=[(splat value=(send method_name=\x22b\x22 args=[] selector=4-5 expression=4-5) operator=3-4 expression=3-5)] selector=0-2 expression=0-5)", diag: b"\x0aW 3-4 `*' interpreted as argument prefix", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atSTAR 3-4 *\x0atIDENTIFIER 4-5 b\x0aEOF 5-5 " },
    Rec { t: b"a\xffa = 1; a\xfe\x00 &b", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (send recv=(lvar name=\x22a\xff\x00\x22) method_name=\x22&\x22 args=[(send method_name=\x22b\x22 args=[])])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (send recv=(lvar name=\x22a\xff\x00\x22 expression=8-10) method_name=\x22&\x22 args=[(send method_name=\x22b\x22 args=[] selector=12-13 expression=12-13)] selector=11-12 expression=8-13)] expression=0-13)", diag: b"\x0aW 11-12 `&' after local variable or literal is interpreted as binary operator even though it seems like argument prefix", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 a\xff\x00\x0atAMPER2 11-12 &\x0atIDENTIFIER 12-13 b\x0aEOF 13-13 " },
    Rec { t: b"a\xffa &b", shape: b"(send method_name=\x22a\xff\x00\x22 args=[(block_pass value=(send method_name=\x22b\x22 args=[]))])", full: b"(send method_name=\x22a\xff\x00\x22 args=[(block_pass value=(send method_name=\x22b\x22 args=[] selector=4-5 expression=4-5) operator=3-4 expression=3-5)] selector=0-2 expression=0-5)", diag: b"\x0aW 3-4 `&' interpreted as argument prefix", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atAMPER 3-4 &\x0atIDENTIFIER 4-5 b\x0aEOF 5-5 " },
    Rec { t: b"a\xffa = 1; a\xfe\x00 ::B", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (const scope=(lvar name=\x22a\xff\x00\x22) name=\x22B\x22)])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (const scope=(lvar name=\x22a\xff\x00\x22 expression=8-10) name=\x22B\x22 double_colon=11-13 name=13-14 expression=8-14)] expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 a\xff\x00\x0atCOLON2 11-13 ::\x0atCONSTANT 13-14 B\x0aEOF 14-14 " },
    Rec { t: b"a\xffa ::B", shape: b"(send method_name=\x22a\xff\x00\x22 args=[(const scope=(cbase) name=\x22B\x22)])", full: b"(send method_name=\x22a\xff\x00\x22 args=[(const scope=(cbase expression=3-5) name=\x22B\x22 double_colon=3-5 name=5-6 expression=3-6)] selector=0-2 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atCOLON3 3-5 ::\x0atCONSTANT 5-6 B\x0aEOF 6-6 " },
    Rec { t: b"a\xffa = 1; a\xfe\x00 /1", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (send recv=(lvar name=\x22a\xff\x00\x22) method_name=\x22/\x22 args=[(int value=\x221\x22)])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (send recv=(lvar name=\x22a\xff\x00\x22 expression=8-10) method_name=\x22/\x22 args=[(int value=\x221\x22 expression=12-13)] selector=11-12 expression=8-13)] expression=0-13)", diag: b"\x0aW 11-12 `/' after local variable or literal is interpreted as binary operator even though it seems like regexp literal", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 a\xff\x00\x0atDIVIDE 11-12 /\x0atINTEGER 12-13 1\x0aEOF 13-13 " },
    Rec { t: b"a\xffa = 1; a\xfe\x00 ? 1 : 2", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (if_ternary cond=(lvar name=\x22a\xff\x00\x22) if_true=(int value=\x221\x22) if_false=(int value=\x222\x22))])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (if_ternary cond=(lvar name=\x22a\xff\x00\x22 expression=8-10) if_true=(int value=\x221\x22 expression=13-14) if_false=(int value=\x222\x22 expression=17-18) question=11-12 colon=15-16 expression=8-18)] expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 a\xff\x00\x0atEH 11-12 ?\x0atINTEGER 13-14 1\x0atCOLON 15-16 :\x0atINTEGER 17-18 2\x0aEOF 18-18 " },
    Rec { t: b"a\xffa = 1; a\xfe\x00 {|x| x}", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (block call=(send method_name=\x22a\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22x\x22)])]) body=(lvar name=\x22x\x22))])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (block call=(send method_name=\x22a\xff\x00\x22 args=[] selector=8-10 expression=8-10) args=(args args=[(procarg0 args=[(arg name=\x22x\x22 expression=13-14)] expression=13-14)] expression=12-15 begin=12-13 end=14-15) body=(lvar name=\x22x\x22 expression=16-17) begin=11-12 end=17-18 expression=8-18)] expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 a\xff\x00\x0atLCURLY 11-12 {\x0atPIPE 12-13 |\x0atIDENTIFIER 13-14 x\x0atPIPE 14-15 |\x0atIDENTIFIER 16-17 x\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"a\xffa = 1; defined? a\xfe\x00", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (defined value=(lvar name=\x22a\xff\x00\x22))])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (defined value=(lvar name=\x22a\xff\x00\x22 expression=17-19) keyword=8-16 expression=8-19)] expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0akDEFINED 8-16 defined?\x0atIDENTIFIER 17-19 a\xff\x00\x0aEOF 19-19 " },
    Rec { t: b"a\xffa = 1; !a\xfe\x00", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (send recv=(lvar name=\x22a\xff\x00\x22) method_name=\x22!\x22 args=[])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (send recv=(lvar name=\x22a\xff\x00\x22 expression=9-11) method_name=\x22!\x22 args=[] selector=8-9 expression=8-11)] expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atBANG 8-9 !\x0atIDENTIFIER 9-11 a\xff\x00\x0aEOF 11-11 " },
    Rec { t: b"a\xffa = 1; -a\xfe\x00", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (send recv=(lvar name=\x22a\xff\x00\x22) method_name=\x22-@\x22 args=[])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (send recv=(lvar name=\x22a\xff\x00\x22 expression=9-11) method_name=\x22-@\x22 args=[] selector=8-9 expression=8-11)] expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atUMINUS 8-9 -\x0atIDENTIFIER 9-11 a\xff\x00\x0aEOF 11-11 " },
    Rec { t: b"a\xffa = 1; a\xfe\x00 = a\xfe\x00 + 1", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (lvasgn name=\x22a\xff\x00\x22 value=(send recv=(lvar name=\x22a\xff\x00\x22) method_name=\x22+\x22 args=[(int value=\x221\x22)]))])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (lvasgn name=\x22a\xff\x00\x22 value=(send recv=(lvar name=\x22a\xff\x00\x22 expression=13-15) method_name=\x22+\x22 args=[(int value=\x221\x22 expression=18-19)] selector=16-17 expression=13-19) name=8-10 operator=11-12 expression=8-19)] expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 a\xff\x00\x0atEQL 11-12 =\x0atIDENTIFIER 13-15 a\xff\x00\x0atPLUS 16-17 +\x0atINTEGER 18-19 1\x0aEOF 19-19 " },
    Rec { t: b"a\xffa = 1; @a\xfe\x00 = a\xfe\x00", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (ivasgn name=\x22@a\xff\x00\x22 value=(lvar name=\x22a\xff\x00\x22))])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (ivasgn name=\x22@a\xff\x00\x22 value=(lvar name=\x22a\xff\x00\x22 expression=14-16) name=8-11 operator=12-13 expression=8-16)] expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atIVAR 8-11 @a\xff\x00\x0atEQL 12-13 =\x0atIDENTIFIER 14-16 a\xff\x00\x0aEOF 16-16 " },
    Rec { t: b"module M; a\xffa = 1; def m; a\xfe\x00; end; a\xfe\x00; end; a\xfe\x00", shape: b"(begin statements=[(module name=(const name=\x22M\x22) body=(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (def name=\x22m\x22 body=(send method_name=\x22a\xff\x00\x22 args=[])) (lvar name=\x22a\xff\x00\x22)])) (send method_name=\x22a\xff\x00\x22 args=[])])", full: b"(begin statements=[(module name=(const name=\x22M\x22 name=7-8 expression=7-8) body=(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=15-16) name=10-12 operator=13-14 expression=10-16) (def name=\x22m\x22 body=(send method_name=\x22a\xff\x00\x22 args=[] selector=25-27 expression=25-27) keyword=18-21 name=22-23 end=29-32 expression=18-32) (lvar name=\x22a\xff\x00\x22 expression=34-36)] expression=10-36) keyword=0-6 end=38-41 expression=0-41) (send method_name=\x22a\xff\x00\x22 args=[] selector=43-45 expression=43-45)] expression=0-45)", diag: b"", toks: b"\x0akMODULE 0-6 module\x0atCONSTANT 7-8 M\x0atSEMI 8-9 ;\x0atIDENTIFIER 10-12 a\xff\x00\x0atEQL 13-14 =\x0atINTEGER 15-16 1\x0atSEMI 16-17 ;\x0akDEF 18-21 def\x0atIDENTIFIER 22-23 m\x0atSEMI 23-24 ;\x0atIDENTIFIER 25-27 a\xff\x00\x0atSEMI 27-28 ;\x0akEND 29-32 end\x0atSEMI 32-33 ;\x0atIDENTIFIER 34-36 a\xff\x00\x0atSEMI 36-37 ;\x0akEND 38-41 end\x0atSEMI 41-42 ;\x0atIDENTIFIER 43-45 a\xff\x00\x0aEOF 45-45 " },
    Rec { t: b"class C; a\xffa = 1; m { a\xfe\x00 }; class D; a\xfe\x00; end; end", shape: b"(class name=(const name=\x22C\x22) body=(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (block call=(send method_name=\x22m\x22 args=[]) body=(lvar name=\x22a\xff\x00\x22)) (class name=(const name=\x22D\x22) body=(send method_name=\x22a\xff\x00\x22 args=[]))]))", full: b"(class name=(const name=\x22C\x22 name=6-7 expression=6-7) body=(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=14-15) name=9-11 operator=12-13 expression=9-15) (block call=(send method_name=\x22m\x22 args=[] selector=17-18 expression=17-18) body=(lvar name=\x22a\xff\x00\x22 expression=21-23) begin=19-20 end=24-25 expression=17-25) (class name=(const name=\x22D\x22 name=33-34 expression=33-34) body=(send method_name=\x22a\xff\x00\x22 args=[] selector=36-38 expression=36-38) keyword=27-32 end=40-43 expression=27-43)] expression=9-43) keyword=0-5 end=45-48 expression=0-48)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-7 C\x0atSEMI 7-8 ;\x0atIDENTIFIER 9-11 a\xff\x00\x0atEQL 12-13 =\x0atINTEGER 14-15 1\x0atSEMI 15-16 ;\x0atIDENTIFIER 17-18 m\x0atLCURLY 19-20 {\x0atIDENTIFIER 21-23 a\xff\x00\x0atRCURLY 24-25 }\x0atSEMI 25-26 ;\x0akCLASS 27-32 class\x0atCONSTANT 33-34 D\x0atSEMI 34-35 ;\x0atIDENTIFIER 36-38 a\xff\x00\x0atSEMI 38-39 ;\x0akEND 40-43 end\x0atSEMI 43-44 ;\x0akEND 45-48 end\x0aEOF 48-48 " },
    Rec { t: b"def m; a\xffa = 1; n { a\xfe\x00 }; def o; a\xfe\x00; end; a\xfe\x00; end", shape: b"(def name=\x22m\x22 body=(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (block call=(send method_name=\x22n\x22 args=[]) body=(lvar name=\x22a\xff\x00\x22)) (def name=\x22o\x22 body=(send method_name=\x22a\xff\x00\x22 args=[])) (lvar name=\x22a\xff\x00\x22)]))", full: b"(def name=\x22m\x22 body=(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=12-13) name=7-9 operator=10-11 expression=7-13) (block call=(send method_name=\x22n\x22 args=[] selector=15-16 expression=15-16) body=(lvar name=\x22a\xff\x00\x22 expression=19-21) begin=17-18 end=22-23 expression=15-23) (def name=\x22o\x22 body=(send method_name=\x22a\xff\x00\x22 args=[] selector=32-34 expression=32-34) keyword=25-28 name=29-30 end=36-39 expression=25-39) (lvar name=\x22a\xff\x00\x22 expression=41-43)] expression=7-43) keyword=0-3 name=4-5 end=45-48 expression=0-48)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 a\xff\x00\x0atEQL 10-11 =\x0atINTEGER 12-13 1\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-16 n\x0atLCURLY 17-18 {\x0atIDENTIFIER 19-21 a\xff\x00\x0atRCURLY 22-23 }\x0atSEMI 23-24 ;\x0akDEF 25-28 def\x0atIDENTIFIER 29-30 o\x0atSEMI 30-31 ;\x0atIDENTIFIER 32-34 a\xff\x00\x0atSEMI 34-35 ;\x0akEND 36-39 end\x0atSEMI 39-40 ;\x0atIDENTIFIER 41-43 a\xff\x00\x0atSEMI 43-44 ;\x0akEND 45-48 end\x0aEOF 48-48 " },
    Rec { t: b"m { _1 }", shape: b"(numblock call=(send method_name=\x22m\x22 args=[]) numargs=1 body=(lvar name=\x22_1\x22))", full: b"(numblock call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) numargs=1 body=(lvar name=\x22_1\x22 expression=4-6) begin=2-3 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atIDENTIFIER 4-6 _1\x0atRCURLY 7-8 }\x0aEOF 8-8 " },
    Rec { t: b"m { _1 + _2 }", shape: b"(numblock call=(send method_name=\x22m\x22 args=[]) numargs=2 body=(send recv=(lvar name=\x22_1\x22) method_name=\x22+\x22 args=[(lvar name=\x22_2\x22)]))", full: b"(numblock call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) numargs=2 body=(send recv=(lvar name=\x22_1\x22 expression=4-6) method_name=\x22+\x22 args=[(lvar name=\x22_2\x22 expression=9-11)] selector=7-8 expression=4-11) begin=2-3 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atIDENTIFIER 4-6 _1\x0atPLUS 7-8 +\x0atIDENTIFIER 9-11 _2\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"m { n(_1) }", shape: b"(numblock call=(send method_name=\x22m\x22 args=[]) numargs=1 body=(send method_name=\x22n\x22 args=[(lvar name=\x22_1\x22)]))", full: b"(numblock call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) numargs=1 body=(send method_name=\x22n\x22 args=[(lvar name=\x22_1\x22 expression=6-8)] selector=4-5 begin=5-6 end=8-9 expression=4-9) begin=2-3 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atIDENTIFIER 4-5 n\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 _1\x0atRPAREN 8-9 )\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"_1", shape: b"(send method_name=\x22_1\x22 args=[])", full: b"(send method_name=\x22_1\x22 args=[] selector=0-2 expression=0-2)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 _1\x0aEOF 2-2 " },
    Rec { t: b"-> { _1 }", shape: b"(numblock call=(lambda) numargs=1 body=(lvar name=\x22_1\x22))", full: b"(numblock call=(lambda expression=0-2) numargs=1 body=(lvar name=\x22_1\x22 expression=5-7) begin=3-4 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLAMBEG 3-4 {\x0atIDENTIFIER 5-7 _1\x0atRCURLY 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"a\xffa = 1; -> { _1 + a\xfe\x00 }", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (numblock call=(lambda) numargs=1 body=(send recv=(lvar name=\x22_1\x22) method_name=\x22+\x22 args=[(lvar name=\x22a\xff\x00\x22)]))])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (numblock call=(lambda expression=8-10) numargs=1 body=(send recv=(lvar name=\x22_1\x22 expression=13-15) method_name=\x22+\x22 args=[(lvar name=\x22a\xff\x00\x22 expression=18-20)] selector=16-17 expression=13-20) begin=11-12 end=21-22 expression=8-22)] expression=0-22)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atLAMBDA 8-10 ->\x0atLAMBEG 11-12 {\x0atIDENTIFIER 13-15 _1\x0atPLUS 16-17 +\x0atIDENTIFIER 18-20 a\xff\x00\x0atRCURLY 21-22 }\x0aEOF 22-22 " },
    Rec { t: b"m { |a\xffa| }; m { a\xfe\x00 }", shape: b"(begin statements=[(block call=(send method_name=\x22m\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22a\xff\x00\x22)])])) (block call=(send method_name=\x22m\x22 args=[]) body=(send method_name=\x22a\xff\x00\x22 args=[]))])", full: b"(begin statements=[(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) args=(args args=[(procarg0 args=[(arg name=\x22a\xff\x00\x22 expression=5-7)] expression=5-7)] expression=4-8 begin=4-5 end=7-8) begin=2-3 end=9-10 expression=0-10) (block call=(send method_name=\x22m\x22 args=[] selector=12-13 expression=12-13) body=(send method_name=\x22a\xff\x00\x22 args=[] selector=16-18 expression=16-18) begin=14-15 end=19-20 expression=12-20)] expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atIDENTIFIER 5-7 a\xff\x00\x0atPIPE 7-8 |\x0atRCURLY 9-10 }\x0atSEMI 10-11 ;\x0atIDENTIFIER 12-13 m\x0atLCURLY 14-15 {\x0atIDENTIFIER 16-18 a\xff\x00\x0atRCURLY 19-20 }\x0aEOF 20-20 " },
    Rec { t: b"m(->(a\xffa) { a\xfe\x00 }, a\xfe\x00)", shape: b"(send method_name=\x22m\x22 args=[(block call=(lambda) args=(args args=[(arg name=\x22a\xff\x00\x22)]) body=(lvar name=\x22a\xff\x00\x22)) (send method_name=\x22a\xff\x00\x22 args=[])])", full: b"(send method_name=\x22m\x22 args=[(block call=(lambda expression=2-4) args=(args args=[(arg name=\x22a\xff\x00\x22 expression=5-7)] expression=4-8 begin=4-5 end=7-8) body=(lvar name=\x22a\xff\x00\x22 expression=11-13) begin=9-10 end=14-15 expression=2-15) (send method_name=\x22a\xff\x00\x22 args=[] selector=17-19 expression=17-19)] selector=0-1 begin=1-2 end=19-20 expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atLAMBDA 2-4 ->\x0atLPAREN2 4-5 (\x0atIDENTIFIER 5-7 a\xff\x00\x0atRPAREN 7-8 )\x0atLAMBEG 9-10 {\x0atIDENTIFIER 11-13 a\xff\x00\x0atRCURLY 14-15 }\x0atCOMMA 15-16 ,\x0atIDENTIFIER 17-19 a\xff\x00\x0atRPAREN 19-20 )\x0aEOF 20-20 " },
    Rec { t: b"m { |a\xffa| a\xfe\x00 }.n(a\xfe\x00)", shape: b"(send recv=(block call=(send method_name=\x22m\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22a\xff\x00\x22)])]) body=(lvar name=\x22a\xff\x00\x22)) method_name=\x22n\x22 args=[(send method_name=\x22a\xff\x00\x22 args=[])])", full: b"(send recv=(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) args=(args args=[(procarg0 args=[(arg name=\x22a\xff\x00\x22 expression=5-7)] expression=5-7)] expression=4-8 begin=4-5 end=7-8) body=(lvar name=\x22a\xff\x00\x22 expression=9-11) begin=2-3 end=12-13 expression=0-13) method_name=\x22n\x22 args=[(send method_name=\x22a\xff\x00\x22 args=[] selector=16-18 expression=16-18)] dot=13-14 selector=14-15 begin=15-16 end=18-19 expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atIDENTIFIER 5-7 a\xff\x00\x0atPIPE 7-8 |\x0atIDENTIFIER 9-11 a\xff\x00\x0atRCURLY 12-13 }\x0atDOT 13-14 .\x0atIDENTIFIER 14-15 n\x0atLPAREN2 15-16 (\x0atIDENTIFIER 16-18 a\xff\x00\x0atRPAREN 18-19 )\x0aEOF 19-19 " },
    Rec { t: b"m { |*| a\xffa }", shape: b"(block call=(send method_name=\x22m\x22 args=[]) args=(args args=[(restarg)]) body=(send method_name=\x22a\xff\x00\x22 args=[]))", full: b"(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) args=(args args=[(restarg operator=5-6 expression=5-6)] expression=4-7 begin=4-5 end=6-7) body=(send method_name=\x22a\xff\x00\x22 args=[] selector=8-10 expression=8-10) begin=2-3 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atSTAR 5-6 *\x0atPIPE 6-7 |\x0atIDENTIFIER 8-10 a\xff\x00\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"a\xffa.each { |a\xfe\x00| a\xfe\x00 }; a\xfe\x00", shape: b"(begin statements=[(block call=(send recv=(send method_name=\x22a\xff\x00\x22 args=[]) method_name=\x22each\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22a\xff\x00\x22)])]) body=(lvar name=\x22a\xff\x00\x22)) (send method_name=\x22a\xff\x00\x22 args=[])])", full: b"(begin statements=[(block call=(send recv=(send method_name=\x22a\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22each\x22 args=[] dot=2-3 selector=3-7 expression=0-7) args=(args args=[(procarg0 args=[(arg name=\x22a\xff\x00\x22 expression=11-13)] expression=11-13)] expression=10-14 begin=10-11 end=13-14) body=(lvar name=\x22a\xff\x00\x22 expression=15-17) begin=8-9 end=18-19 expression=0-19) (send method_name=\x22a\xff\x00\x22 args=[] selector=21-23 expression=21-23)] expression=0-23)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-7 each\x0atLCURLY 8-9 {\x0atPIPE 10-11 |\x0atIDENTIFIER 11-13 a\xff\x00\x0atPIPE 13-14 |\x0atIDENTIFIER 15-17 a\xff\x00\x0atRCURLY 18-19 }\x0atSEMI 19-20 ;\x0atIDENTIFIER 21-23 a\xff\x00\x0aEOF 23-23 " },
    Rec { t: b"a\xffa = 1 rescue a\xfe\x00; a\xfe\x00", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(rescue body=(int value=\x221\x22) rescue_bodies=[(rescue_body body=(lvar name=\x22a\xff\x00\x22))])) (lvar name=\x22a\xff\x00\x22)])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(rescue body=(int value=\x221\x22 expression=5-6) rescue_bodies=[(rescue_body body=(lvar name=\x22a\xff\x00\x22 expression=14-16) keyword=7-13 expression=7-16)] expression=5-16) name=0-2 operator=3-4 expression=0-16) (lvar name=\x22a\xff\x00\x22 expression=18-20)] expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0akRESCUE_MOD 7-13 rescue\x0atIDENTIFIER 14-16 a\xff\x00\x0atSEMI 16-17 ;\x0atIDENTIFIER 18-20 a\xff\x00\x0aEOF 20-20 " },
    Rec { t: b"a\xffa rescue a\xfe\x00 = 1", shape: b"(rescue body=(send method_name=\x22a\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body body=(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)))])", full: b"(rescue body=(send method_name=\x22a\xff\x00\x22 args=[] selector=0-2 expression=0-2) rescue_bodies=[(rescue_body body=(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=15-16) name=10-12 operator=13-14 expression=10-16) keyword=3-9 expression=3-16)] expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0akRESCUE_MOD 3-9 rescue\x0atIDENTIFIER 10-12 a\xff\x00\x0atEQL 13-14 =\x0atINTEGER 15-16 1\x0aEOF 16-16 " },
    Rec { t: b"(a\xffa = 1; b\xffa = a\xfe\x00); b\xfe\x01", shape: b"(begin statements=[(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (lvasgn name=\x22b\xff\x01\x22 value=(lvar name=\x22a\xff\x00\x22))]) (lvar name=\x22b\xff\x01\x22)])", full: b"(begin statements=[(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=6-7) name=1-3 operator=4-5 expression=1-7) (lvasgn name=\x22b\xff\x01\x22 value=(lvar name=\x22a\xff\x00\x22 expression=14-16) name=9-11 operator=12-13 expression=9-16)] begin=0-1 end=16-17 expression=0-17) (lvar name=\x22b\xff\x01\x22 expression=19-21)] expression=0-21)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atIDENTIFIER 1-3 a\xff\x00\x0atEQL 4-5 =\x0atINTEGER 6-7 1\x0atSEMI 7-8 ;\x0atIDENTIFIER 9-11 b\xff\x01\x0atEQL 12-13 =\x0atIDENTIFIER 14-16 a\xff\x00\x0atRPAREN 16-17 )\x0atSEMI 17-18 ;\x0atIDENTIFIER 19-21 b\xff\x01\x0aEOF 21-21 " },
    Rec { t: b"a\xffa = 1; `#{a\xfe\x00}`", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (xstr parts=[(begin statements=[(lvar name=\x22a\xff\x00\x22)])])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (xstr parts=[(begin statements=[(lvar name=\x22a\xff\x00\x22 expression=11-13)] begin=9-11 end=13-14 expression=9-14)] begin=8-9 end=14-15 expression=8-15)] expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atXSTRING_BEG 8-9 `\x0atSTRING_DBEG 9-11 #{\x0atIDENTIFIER 11-13 a\xff\x00\x0atSTRING_DEND 13-14 }\x0atSTRING_END 14-15 `\x0aEOF 15-15 " },
    Rec { t: b"a\xffa = 1; /#{a\xfe\x00}/", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (regexp parts=[(begin statements=[(lvar name=\x22a\xff\x00\x22)])])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (regexp parts=[(begin statements=[(lvar name=\x22a\xff\x00\x22 expression=11-13)] begin=9-11 end=13-14 expression=9-14)] begin=8-9 end=14-15 expression=8-15)] expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atREGEXP_BEG 8-9 /\x0atSTRING_DBEG 9-11 #{\x0atIDENTIFIER 11-13 a\xff\x00\x0atSTRING_DEND 13-14 }\x0atREGEXP_END 14-15 /\x0aEOF 15-15 " },
    Rec { t: b"a\xffa = 1; :\x22#{a\xfe\x00}\x22", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (dsym parts=[(begin statements=[(lvar name=\x22a\xff\x00\x22)])])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (dsym parts=[(begin statements=[(lvar name=\x22a\xff\x00\x22 expression=12-14)] begin=10-12 end=14-15 expression=10-15)] begin=8-10 end=15-16 expression=8-16)] expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atSYMBEG 8-10 :\x22\x0atSTRING_DBEG 10-12 #{\x0atIDENTIFIER 12-14 a\xff\x00\x0atSTRING_DEND 14-15 }\x0atSTRING_END 15-16 \x22\x0aEOF 16-16 " },
    Rec { t: b"a\xffa = 1; %W[#{a\xfe\x00}]", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (array elements=[(dstr parts=[(begin statements=[(lvar name=\x22a\xff\x00\x22)])])])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (array elements=[(dstr parts=[(begin statements=[(lvar name=\x22a\xff\x00\x22 expression=13-15)] begin=11-13 end=15-16 expression=11-16)] expression=11-16)] begin=8-11 end=16-17 expression=8-17)] expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atWORDS_BEG 8-11 %W[\x0atSPACE 11-11 \x0atSTRING_DBEG 11-13 #{\x0atIDENTIFIER 13-15 a\xff\x00\x0atSTRING_DEND 15-16 }\x0atSPACE 16-16 \x0atSTRING_END 16-17 ]\x0aEOF 17-17 " },
    Rec { t: b"a\xffa = 1; %I[#{a\xfe\x00}]", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (array elements=[(dsym parts=[(begin statements=[(lvar name=\x22a\xff\x00\x22)])])])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (array elements=[(dsym parts=[(begin statements=[(lvar name=\x22a\xff\x00\x22 expression=13-15)] begin=11-13 end=15-16 expression=11-16)] expression=11-16)] begin=8-11 end=16-17 expression=8-17)] expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atSYMBOLS_BEG 8-11 %I[\x0atSPACE 11-11 \x0atSTRING_DBEG 11-13 #{\x0atIDENTIFIER 13-15 a\xff\x00\x0atSTRING_DEND 15-16 }\x0atSPACE 16-16 \x0atSTRING_END 16-17 ]\x0aEOF 17-17 " },
    Rec { t: b"a\xffa = 1; m(*a\xfe\x00, **a\xfe\x00, &a\xfe\x00)", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (send method_name=\x22m\x22 args=[(splat value=(lvar name=\x22a\xff\x00\x22)) (kwargs pairs=[(kwsplat value=(lvar name=\x22a\xff\x00\x22))]) (block_pass value=(lvar name=\x22a\xff\x00\x22))])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (send method_name=\x22m\x22 args=[(splat value=(lvar name=\x22a\xff\x00\x22 expression=11-13) operator=10-11 expression=10-13) (kwargs pairs=[(kwsplat value=(lvar name=\x22a\xff\x00\x22 expression=17-19) operator=15-17 expression=15-19)] expression=15-19) (block_pass value=(lvar name=\x22a\xff\x00\x22 expression=22-24) operator=21-22 expression=21-24)] selector=8-9 begin=9-10 end=24-25 expression=8-25)] expression=0-25)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-9 m\x0atLPAREN2 9-10 (\x0atSTAR 10-11 *\x0atIDENTIFIER 11-13 a\xff\x00\x0atCOMMA 13-14 ,\x0atDSTAR 15-17 **\x0atIDENTIFIER 17-19 a\xff\x00\x0atCOMMA 19-20 ,\x0atAMPER 21-22 &\x0atIDENTIFIER 22-24 a\xff\x00\x0atRPAREN 24-25 )\x0aEOF 25-25 " },
    Rec { t: b"a\xffa = 1; return a\xfe\x00", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (return args=[(lvar name=\x22a\xff\x00\x22)])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (return args=[(lvar name=\x22a\xff\x00\x22 expression=15-17)] keyword=8-14 expression=8-17)] expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0akRETURN 8-14 return\x0atIDENTIFIER 15-17 a\xff\x00\x0aEOF 17-17 " },
    Rec { t: b"a\xffa = 1; alias b c; a\xfe\x00", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (alias to=(sym name=\x22b\x22) from=(sym name=\x22c\x22)) (lvar name=\x22a\xff\x00\x22)])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (alias to=(sym name=\x22b\x22 expression=14-15) from=(sym name=\x22c\x22 expression=16-17) keyword=8-13 expression=8-17) (lvar name=\x22a\xff\x00\x22 expression=19-21)] expression=0-21)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0akALIAS 8-13 alias\x0atIDENTIFIER 14-15 b\x0atIDENTIFIER 16-17 c\x0atSEMI 17-18 ;\x0atIDENTIFIER 19-21 a\xff\x00\x0aEOF 21-21 " },
    Rec { t: b"a\xffa = 1; undef b; a\xfe\x00", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (undef names=[(sym name=\x22b\x22)]) (lvar name=\x22a\xff\x00\x22)])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (undef names=[(sym name=\x22b\x22 expression=14-15)] keyword=8-13 expression=8-15) (lvar name=\x22a\xff\x00\x22 expression=17-19)] expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0akUNDEF 8-13 undef\x0atIDENTIFIER 14-15 b\x0atSEMI 15-16 ;\x0atIDENTIFIER 17-19 a\xff\x00\x0aEOF 19-19 " },
    Rec { t: b"a\xffa = 1; a\xfe\x00 => b\xffa; b\xfe\x01", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (match_pattern value=(lvar name=\x22a\xff\x00\x22) pattern=(match_var name=\x22b\xff\x01\x22)) (lvar name=\x22b\xff\x01\x22)])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (match_pattern value=(lvar name=\x22a\xff\x00\x22 expression=8-10) pattern=(match_var name=\x22b\xff\x01\x22 name=14-16 expression=14-16) operator=11-13 expression=8-16) (lvar name=\x22b\xff\x01\x22 expression=18-20)] expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 a\xff\x00\x0atASSOC 11-13 =>\x0atIDENTIFIER 14-16 b\xff\x01\x0atSEMI 16-17 ;\x0atIDENTIFIER 18-20 b\xff\x01\x0aEOF 20-20 " },
    Rec { t: b"a\xffa = 1; a\xfe\x00 => {k: b\xffa}; b\xfe\x01", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (match_pattern value=(lvar name=\x22a\xff\x00\x22) pattern=(hash_pattern elements=[(pair key=(sym name=\x22k\x22) value=(match_var name=\x22b\xff\x01\x22))])) (lvar name=\x22b\xff\x01\x22)])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (match_pattern value=(lvar name=\x22a\xff\x00\x22 expression=8-10) pattern=(hash_pattern elements=[(pair key=(sym name=\x22k\x22 expression=15-16) value=(match_var name=\x22b\xff\x01\x22 name=18-20 expression=18-20) operator=16-17 expression=15-20)] begin=14-15 end=20-21 expression=14-21) operator=11-13 expression=8-21) (lvar name=\x22b\xff\x01\x22 expression=23-25)] expression=0-25)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 a\xff\x00\x0atASSOC 11-13 =>\x0atLBRACE 14-15 {\x0atLABEL 15-17 k\x0atIDENTIFIER 18-20 b\xff\x01\x0atRCURLY 20-21 }\x0atSEMI 21-22 ;\x0atIDENTIFIER 23-25 b\xff\x01\x0aEOF 25-25 " },
    Rec { t: b"a\xffa = 1; a\xfe\x00 in [b\xffa, *c\xffa]; [b\xfe\x01, c\xfe\x02]", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (match_pattern_p value=(lvar name=\x22a\xff\x00\x22) pattern=(array_pattern elements=[(match_var name=\x22b\xff\x01\x22) (match_rest name=(match_var name=\x22c\xff\x02\x22))])) (array elements=[(lvar name=\x22b\xff\x01\x22) (lvar name=\x22c\xff\x02\x22)])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (match_pattern_p value=(lvar name=\x22a\xff\x00\x22 expression=8-10) pattern=(array_pattern elements=[(match_var name=\x22b\xff\x01\x22 name=15-17 expression=15-17) (match_rest name=(match_var name=\x22c\xff\x02\x22 name=20-22 expression=20-22) operator=19-20 expression=19-22)] begin=14-15 end=22-23 expression=14-23) operator=11-13 expression=8-23) (array elements=[(lvar name=\x22b\xff\x01\x22 expression=26-28) (lvar name=\x22c\xff\x02\x22 expression=30-32)] begin=25-26 end=32-33 expression=25-33)] expression=0-33)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 a\xff\x00\x0akIN 11-13 in\x0atLBRACK 14-15 [\x0atIDENTIFIER 15-17 b\xff\x01\x0atCOMMA 17-18 ,\x0atSTAR 19-20 *\x0atIDENTIFIER 20-22 c\xff\x02\x0atRBRACK 22-23 ]\x0atSEMI 23-24 ;\x0atLBRACK 25-26 [\x0atIDENTIFIER 26-28 b\xff\x01\x0atCOMMA 28-29 ,\x0atIDENTIFIER 30-32 c\xff\x02\x0atRBRACK 32-33 ]\x0aEOF 33-33 " },
];
pub static RULES: &[Rec] = &[
    Rec { t: b"def m(a\xffa, a\xfe\x00) end", shape: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22a\xff\x00\x22) (arg name=\x22a\xff\x00\x22)]))", full: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22a\xff\x00\x22 expression=6-8) (arg name=\x22a\xff\x00\x22 expression=10-12)] expression=5-13 begin=5-6 end=12-13) keyword=0-3 name=4-5 end=14-17 expression=0-17)", diag: b"\x0aE 10-12 duplicated argument name", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 a\xff\x00\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 a\xff\x00\x0atRPAREN 12-13 )\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"def m(a\xffa, (b\xffa, a\xfe\x00)) end", shape: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22a\xff\x00\x22) (mlhs items=[(arg name=\x22b\xff\x01\x22) (arg name=\x22a\xff\x00\x22)])]))", full: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22a\xff\x00\x22 expression=6-8) (mlhs items=[(arg name=\x22b\xff\x01\x22 expression=11-13) (arg name=\x22a\xff\x00\x22 expression=15-17)] begin=10-11 end=17-18 expression=10-18)] expression=5-19 begin=5-6 end=18-19) keyword=0-3 name=4-5 end=20-23 expression=0-23)", diag: b"\x0aE 15-17 duplicated argument name", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 a\xff\x00\x0atCOMMA 8-9 ,\x0atLPAREN 10-11 (\x0atIDENTIFIER 11-13 b\xff\x01\x0atCOMMA 13-14 ,\x0atIDENTIFIER 15-17 a\xff\x00\x0atRPAREN 17-18 )\x0atRPAREN 18-19 )\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"m { |a\xffa, (b\xffa, (a\xfe\x00, *))| }", shape: b"(block call=(send method_name=\x22m\x22 args=[]) args=(args args=[(arg name=\x22a\xff\x00\x22) (mlhs items=[(arg name=\x22b\xff\x01\x22) (mlhs items=[(arg name=\x22a\xff\x00\x22) (restarg)])])]))", full: b"(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) args=(args args=[(arg name=\x22a\xff\x00\x22 expression=5-7) (mlhs items=[(arg name=\x22b\xff\x01\x22 expression=10-12) (mlhs items=[(arg name=\x22a\xff\x00\x22 expression=15-17) (restarg operator=19-20 expression=19-20)] begin=14-15 end=20-21 expression=14-21)] begin=9-10 end=21-22 expression=9-22)] expression=4-23 begin=4-5 end=22-23) begin=2-3 end=24-25 expression=0-25)", diag: b"\x0aE 15-17 duplicated argument name", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atIDENTIFIER 5-7 a\xff\x00\x0atCOMMA 7-8 ,\x0atLPAREN 9-10 (\x0atIDENTIFIER 10-12 b\xff\x01\x0atCOMMA 12-13 ,\x0atLPAREN 14-15 (\x0atIDENTIFIER 15-17 a\xff\x00\x0atCOMMA 17-18 ,\x0atSTAR 19-20 *\x0atRPAREN 20-21 )\x0atRPAREN 21-22 )\x0atPIPE 22-23 |\x0atRCURLY 24-25 }\x0aEOF 25-25 " },
    Rec { t: b"m { |a\xffa, (b\xffa, *a\xfe\x00)| }", shape: b"(block call=(send method_name=\x22m\x22 args=[]) args=(args args=[(arg name=\x22a\xff\x00\x22) (mlhs items=[(arg name=\x22b\xff\x01\x22) (restarg name=\x22a\xff\x00\x22)])]))", full: b"(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) args=(args args=[(arg name=\x22a\xff\x00\x22 expression=5-7) (mlhs items=[(arg name=\x22b\xff\x01\x22 expression=10-12) (restarg name=\x22a\xff\x00\x22 operator=14-15 name=15-17 expression=14-17)] begin=9-10 end=17-18 expression=9-18)] expression=4-19 begin=4-5 end=18-19) begin=2-3 end=20-21 expression=0-21)", diag: b"\x0aE 15-17 duplicated argument name", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atIDENTIFIER 5-7 a\xff\x00\x0atCOMMA 7-8 ,\x0atLPAREN 9-10 (\x0atIDENTIFIER 10-12 b\xff\x01\x0atCOMMA 12-13 ,\x0atSTAR 14-15 *\x0atIDENTIFIER 15-17 a\xff\x00\x0atRPAREN 17-18 )\x0atPIPE 18-19 |\x0atRCURLY 20-21 }\x0aEOF 21-21 " },
    Rec { t: b"m { |a\xffa; a\xfe\x00| }", shape: b"(block call=(send method_name=\x22m\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22a\xff\x00\x22)]) (shadowarg name=\x22a\xff\x00\x22)]))", full: b"(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) args=(args args=[(procarg0 args=[(arg name=\x22a\xff\x00\x22 expression=5-7)] expression=5-7) (shadowarg name=\x22a\xff\x00\x22 expression=9-11)] expression=4-12 begin=4-5 end=11-12) begin=2-3 end=13-14 expression=0-14)", diag: b"\x0aE 9-11 duplicated argument name", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atIDENTIFIER 5-7 a\xff\x00\x0atSEMI 7-8 ;\x0atIDENTIFIER 9-11 a\xff\x00\x0atPIPE 11-12 |\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"m { |b\xffa; a\xffa, a\xfe\x01| }", shape: b"(block call=(send method_name=\x22m\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22b\xff\x00\x22)]) (shadowarg name=\x22a\xff\x01\x22) (shadowarg name=\x22a\xff\x01\x22)]))", full: b"(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) args=(args args=[(procarg0 args=[(arg name=\x22b\xff\x00\x22 expression=5-7)] expression=5-7) (shadowarg name=\x22a\xff\x01\x22 expression=9-11) (shadowarg name=\x22a\xff\x01\x22 expression=13-15)] expression=4-16 begin=4-5 end=15-16) begin=2-3 end=17-18 expression=0-18)", diag: b"\x0aE 13-15 duplicated argument name", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atIDENTIFIER 5-7 b\xff\x00\x0atSEMI 7-8 ;\x0atIDENTIFIER 9-11 a\xff\x01\x0atCOMMA 11-12 ,\x0atIDENTIFIER 13-15 a\xff\x01\x0atPIPE 15-16 |\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"->(a\xffa; a\xfe\x00) {}", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22a\xff\x00\x22) (shadowarg name=\x22a\xff\x00\x22)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22a\xff\x00\x22 expression=3-5) (shadowarg name=\x22a\xff\x00\x22 expression=7-9)] expression=2-10 begin=2-3 end=9-10) begin=11-12 end=12-13 expression=0-13)", diag: b"\x0aE 7-9 duplicated argument name", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 a\xff\x00\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 a\xff\x00\x0atRPAREN 9-10 )\x0atLAMBEG 11-12 {\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"->((a\xffa, b\xffa), a\xfe\x00) {}", shape: b"(block call=(lambda) args=(args args=[(mlhs items=[(arg name=\x22a\xff\x00\x22) (arg name=\x22b\xff\x01\x22)]) (arg name=\x22a\xff\x00\x22)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(mlhs items=[(arg name=\x22a\xff\x00\x22 expression=4-6) (arg name=\x22b\xff\x01\x22 expression=8-10)] begin=3-4 end=10-11 expression=3-11) (arg name=\x22a\xff\x00\x22 expression=13-15)] expression=2-16 begin=2-3 end=15-16) begin=17-18 end=18-19 expression=0-19)", diag: b"\x0aE 13-15 duplicated argument name", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atLPAREN 3-4 (\x0atIDENTIFIER 4-6 a\xff\x00\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-10 b\xff\x01\x0atRPAREN 10-11 )\x0atCOMMA 11-12 ,\x0atIDENTIFIER 13-15 a\xff\x00\x0atRPAREN 15-16 )\x0atLAMBEG 17-18 {\x0atRCURLY 18-19 }\x0aEOF 19-19 " },
    Rec { t: b"def m(_a\xffa, _a\xfe\x00) end", shape: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22_a\xff\x00\x22) (arg name=\x22_a\xff\x00\x22)]))", full: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22_a\xff\x00\x22 expression=6-9) (arg name=\x22_a\xff\x00\x22 expression=11-14)] expression=5-15 begin=5-6 end=14-15) keyword=0-3 name=4-5 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-9 _a\xff\x00\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-14 _a\xff\x00\x0atRPAREN 14-15 )\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"m { |_a\xffa, _a\xfe\x00| }", shape: b"(block call=(send method_name=\x22m\x22 args=[]) args=(args args=[(arg name=\x22_a\xff\x00\x22) (arg name=\x22_a\xff\x00\x22)]))", full: b"(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) args=(args args=[(arg name=\x22_a\xff\x00\x22 expression=5-8) (arg name=\x22_a\xff\x00\x22 expression=10-13)] expression=4-14 begin=4-5 end=13-14) begin=2-3 end=15-16 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atIDENTIFIER 5-8 _a\xff\x00\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-13 _a\xff\x00\x0atPIPE 13-14 |\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"m { |_, _| }", shape: b"(block call=(send method_name=\x22m\x22 args=[]) args=(args args=[(arg name=\x22_\x22) (arg name=\x22_\x22)]))", full: b"(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) args=(args args=[(arg name=\x22_\x22 expression=5-6) (arg name=\x22_\x22 expression=8-9)] expression=4-10 begin=4-5 end=9-10) begin=2-3 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atIDENTIFIER 5-6 _\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-9 _\x0atPIPE 9-10 |\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"m { |a\xffa, (_, _)| }", shape: b"(block call=(send method_name=\x22m\x22 args=[]) args=(args args=[(arg name=\x22a\xff\x00\x22) (mlhs items=[(arg name=\x22_\x22) (arg name=\x22_\x22)])]))", full: b"(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) args=(args args=[(arg name=\x22a\xff\x00\x22 expression=5-7) (mlhs items=[(arg name=\x22_\x22 expression=10-11) (arg name=\x22_\x22 expression=13-14)] begin=9-10 end=14-15 expression=9-15)] expression=4-16 begin=4-5 end=15-16) begin=2-3 end=17-18 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atIDENTIFIER 5-7 a\xff\x00\x0atCOMMA 7-8 ,\x0atLPAREN 9-10 (\x0atIDENTIFIER 10-11 _\x0atCOMMA 11-12 ,\x0atIDENTIFIER 13-14 _\x0atRPAREN 14-15 )\x0atPIPE 15-16 |\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"def m(\xc3\xa9, \xc3\xa9) end", shape: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22\xc3\xa9\x22) (arg name=\x22\xc3\xa9\x22)]))", full: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22\xc3\xa9\x22 expression=6-8) (arg name=\x22\xc3\xa9\x22 expression=10-12)] expression=5-13 begin=5-6 end=12-13) keyword=0-3 name=4-5 end=14-17 expression=0-17)", diag: b"\x0aE 10-12 duplicated argument name", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 \xc3\xa9\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 \xc3\xa9\x0atRPAREN 12-13 )\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"m { |\xe3\x81\x82, \xe3\x81\x82| }", shape: b"(block call=(send method_name=\x22m\x22 args=[]) args=(args args=[(arg name=\x22\xe3\x81\x82\x22) (arg name=\x22\xe3\x81\x82\x22)]))", full: b"(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) args=(args args=[(arg name=\x22\xe3\x81\x82\x22 expression=5-8) (arg name=\x22\xe3\x81\x82\x22 expression=10-13)] expression=4-14 begin=4-5 end=13-14) begin=2-3 end=15-16 expression=0-16)", diag: b"\x0aE 10-13 duplicated argument name", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atIDENTIFIER 5-8 \xe3\x81\x82\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-13 \xe3\x81\x82\x0atPIPE 13-14 |\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"def m(\xc3\xa9, \xc3\xa8) end", shape: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22\xc3\xa9\x22) (arg name=\x22\xc3\xa8\x22)]))", full: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22\xc3\xa9\x22 expression=6-8) (arg name=\x22\xc3\xa8\x22 expression=10-12)] expression=5-13 begin=5-6 end=12-13) keyword=0-3 name=4-5 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 \xc3\xa9\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 \xc3\xa8\x0atRPAREN 12-13 )\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"def m(\xe3\x81\x82:, \xe3\x81\x84: 1) end", shape: b"(def name=\x22m\x22 args=(args args=[(kwarg name=\x22\xe3\x81\x82\x22) (kwoptarg name=\x22\xe3\x81\x84\x22 default=(int value=\x221\x22))]))", full: b"(def name=\x22m\x22 args=(args args=[(kwarg name=\x22\xe3\x81\x82\x22 name=6-9 expression=6-10) (kwoptarg name=\x22\xe3\x81\x84\x22 default=(int value=\x221\x22 expression=17-18) name=12-15 expression=12-18)] expression=5-19 begin=5-6 end=18-19) keyword=0-3 name=4-5 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atLABEL 6-10 \xe3\x81\x82\x0atCOMMA 10-11 ,\x0atLABEL 12-16 \xe3\x81\x84\x0atINTEGER 17-18 1\x0atRPAREN 18-19 )\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"{\xe3\x81\x82:}", shape: b"(hash pairs=[(pair key=(sym name=\x22\xe3\x81\x82\x22) value=(send method_name=\x22\xe3\x81\x82\x22 args=[]))])", full: b"(hash pairs=[(pair key=(sym name=\x22\xe3\x81\x82\x22 expression=1-4) value=(send method_name=\x22\xe3\x81\x82\x22 args=[] selector=1-4 expression=1-4) operator=4-5 expression=1-5)] begin=0-1 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 1-5 \xe3\x81\x82\x0atRCURLY 5-6 }\x0aEOF 6-6 " },
    Rec { t: b"{_a\xffa:}", shape: b"(hash pairs=[(pair key=(sym name=\x22_a\xff\x00\x22) value=(send method_name=\x22_a\xff\x00\x22 args=[]))])", full: b"(hash pairs=[(pair key=(sym name=\x22_a\xff\x00\x22 expression=1-4) value=(send method_name=\x22_a\xff\x00\x22 args=[] selector=1-4 expression=1-4) operator=4-5 expression=1-5)] begin=0-1 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 1-5 _a\xff\x00\x0atRCURLY 5-6 }\x0aEOF 6-6 " },
    Rec { t: b"{_:}", shape: b"(hash pairs=[(pair key=(sym name=\x22_\x22) value=(send method_name=\x22_\x22 args=[]))])", full: b"(hash pairs=[(pair key=(sym name=\x22_\x22 expression=1-2) value=(send method_name=\x22_\x22 args=[] selector=1-2 expression=1-2) operator=2-3 expression=1-3)] begin=0-1 end=3-4 expression=0-4)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 1-3 _\x0atRCURLY 3-4 }\x0aEOF 4-4 " },
    Rec { t: b"0 in {\xe3\x81\x82:}", shape: b"(match_pattern_p value=(int value=\x220\x22) pattern=(hash_pattern elements=[(match_var name=\x22\xe3\x81\x82\x22)]))", full: b"(match_pattern_p value=(int value=\x220\x22 expression=0-1) pattern=(hash_pattern elements=[(match_var name=\x22\xe3\x81\x82\x22 name=6-9 expression=6-10)] begin=5-6 end=10-11 expression=5-11) operator=2-4 expression=0-11)", diag: b"", toks: b"\x0atINTEGER 0-1 0\x0akIN 2-4 in\x0atLBRACE 5-6 {\x0atLABEL 6-10 \xe3\x81\x82\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"0 in \xe3\x81\x82", shape: b"(match_pattern_p value=(int value=\x220\x22) pattern=(match_var name=\x22\xe3\x81\x82\x22))", full: b"(match_pattern_p value=(int value=\x220\x22 expression=0-1) pattern=(match_var name=\x22\xe3\x81\x82\x22 name=5-8 expression=5-8) operator=2-4 expression=0-8)", diag: b"", toks: b"\x0atINTEGER 0-1 0\x0akIN 2-4 in\x0atIDENTIFIER 5-8 \xe3\x81\x82\x0aEOF 8-8 " },
    Rec { t: b"0 in {_a\xffa:}", shape: b"(match_pattern_p value=(int value=\x220\x22) pattern=(hash_pattern elements=[(match_var name=\x22_a\xff\x00\x22)]))", full: b"(match_pattern_p value=(int value=\x220\x22 expression=0-1) pattern=(hash_pattern elements=[(match_var name=\x22_a\xff\x00\x22 name=6-9 expression=6-10)] begin=5-6 end=10-11 expression=5-11) operator=2-4 expression=0-11)", diag: b"", toks: b"\x0atINTEGER 0-1 0\x0akIN 2-4 in\x0atLBRACE 5-6 {\x0atLABEL 6-10 _a\xff\x00\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"0 in {\x22\x5c\x0a\x22:}", shape: b"none", full: b"none", diag: b"\x0aE 7-9 key must be valid as local variables", toks: b"\x0atINTEGER 0-1 0\x0akIN 2-4 in\x0atLBRACE 5-6 {\x0atSTRING_BEG 6-7 \x22\x0atSTRING_CONTENT 7-9 \x0atLABEL_END 9-11 \x22:\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"{A\xffa?:}", shape: b"(hash pairs=[(pair key=(sym name=\x22A\xff\x00?\x22) value=(send method_name=\x22A\xff\x00?\x22 args=[]))])", full: b"(hash pairs=[(pair key=(sym name=\x22A\xff\x00?\x22 expression=1-4) value=(send method_name=\x22A\xff\x00?\x22 args=[] selector=1-4 expression=1-4) operator=4-5 expression=1-5)] begin=0-1 end=5-6 expression=0-6)", diag: b"\x0aE 1-4 identifier A\xff\x00? is not valid to get", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 1-5 A\xff\x00?\x0atRCURLY 5-6 }\x0aEOF 6-6 " },
    Rec { t: b"{\x22\x22:}", shape: b"none", full: b"none", diag: b"\x0aE 4-5 unexpected tRCURLY", toks: b"\x0atLBRACE 0-1 {\x0atSTRING_BEG 1-2 \x22\x0atLABEL_END 2-4 \x22:\x0atRCURLY 4-5 }\x0aEOF 5-5 " },
    Rec { t: b"0 in {\x22\x22:}", shape: b"none", full: b"none", diag: b"\x0aE 6-9 symbol literal with interpolation is not allowed", toks: b"\x0atINTEGER 0-1 0\x0akIN 2-4 in\x0atLBRACE 5-6 {\x0atSTRING_BEG 6-7 \x22\x0atLABEL_END 7-9 \x22:\x0atRCURLY 9-10 }\x0aEOF 10-10 " },
    Rec { t: b"0 in {\x221a\x22:}", shape: b"none", full: b"none", diag: b"\x0aE 7-9 key must be valid as local variables", toks: b"\x0atINTEGER 0-1 0\x0akIN 2-4 in\x0atLBRACE 5-6 {\x0atSTRING_BEG 6-7 \x22\x0atSTRING_CONTENT 7-9 1a\x0atLABEL_END 9-11 \x22:\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"0 in {_a\xffa:, _a\xfe\x00: 1}", shape: b"none", full: b"none", diag: b"\x0aE 12-16 duplicated key name", toks: b"\x0atINTEGER 0-1 0\x0akIN 2-4 in\x0atLBRACE 5-6 {\x0atLABEL 6-10 _a\xff\x00\x0atCOMMA 10-11 ,\x0atLABEL 12-16 _a\xff\x00\x0atINTEGER 17-18 1\x0atRCURLY 18-19 }\x0aEOF 19-19 " },
    Rec { t: b"0 in {a\xffa: 1, a\xfe\x00:}", shape: b"none", full: b"none", diag: b"\x0aE 13-16 duplicated key name", toks: b"\x0atINTEGER 0-1 0\x0akIN 2-4 in\x0atLBRACE 5-6 {\x0atLABEL 6-9 a\xff\x00\x0atINTEGER 10-11 1\x0atCOMMA 11-12 ,\x0atLABEL 13-16 a\xff\x00\x0atRCURLY 16-17 }\x0aEOF 17-17 " },
    Rec { t: b"0 in {\x22a\xffa\x22:, a\xfe\x00: 1}", shape: b"none", full: b"none", diag: b"\x0aE 13-16 duplicated key name", toks: b"\x0atINTEGER 0-1 0\x0akIN 2-4 in\x0atLBRACE 5-6 {\x0atSTRING_BEG 6-7 \x22\x0atSTRING_CONTENT 7-9 a\xff\x00\x0atLABEL_END 9-11 \x22:\x0atCOMMA 11-12 ,\x0atLABEL 13-16 a\xff\x00\x0atINTEGER 17-18 1\x0atRCURLY 18-19 }\x0aEOF 19-19 " },
    Rec { t: b"def m(a\xffa, A\xffa:) end", shape: b"none", full: b"none", diag: b"\x0aE 10-13 formal argument cannot be a constant", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 a\xff\x00\x0atCOMMA 8-9 ,\x0atLABEL 10-13 A\xff\x01\x0atRPAREN 13-14 )\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"def m(A\xffa) end", shape: b"none", full: b"none", diag: b"\x0aE 6-8 formal argument cannot be a constant", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atCONSTANT 6-8 A\xff\x00\x0atRPAREN 8-9 )\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"def m(@a\xffa) end", shape: b"none", full: b"none", diag: b"\x0aE 6-9 formal argument cannot be an instance variable", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIVAR 6-9 @a\xff\x00\x0atRPAREN 9-10 )\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def m(@@a\xffa) end", shape: b"none", full: b"none", diag: b"\x0aE 6-10 formal argument cannot be a class variable", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atCVAR 6-10 @@a\xff\x00\x0atRPAREN 10-11 )\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def m($a\xffa) end", shape: b"none", full: b"none", diag: b"\x0aE 6-9 formal argument cannot be a global variable", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atGVAR 6-9 $a\xff\x00\x0atRPAREN 9-10 )\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def m(A\xffa = 1) end", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=11-12)", diag: b"\x0aE 6-8 formal argument cannot be a constant", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atCONSTANT 6-8 A\xff\x00\x0atEQL 9-10 =\x0atINTEGER 11-12 1\x0atRPAREN 12-13 )" },
    Rec { t: b"def m(*A\xffa) end", shape: b"(const name=\x22A\xff\x00\x22)", full: b"(const name=\x22A\xff\x00\x22 name=7-9 expression=7-9)", diag: b"\x0aE 7-9 unexpected tCONSTANT", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atSTAR 6-7 *\x0atCONSTANT 7-9 A\xff\x00\x0atRPAREN 9-10 )" },
    Rec { t: b"def m(**A\xffa) end", shape: b"(const name=\x22A\xff\x00\x22)", full: b"(const name=\x22A\xff\x00\x22 name=8-10 expression=8-10)", diag: b"\x0aE 8-10 unexpected tCONSTANT", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atDSTAR 6-8 **\x0atCONSTANT 8-10 A\xff\x00\x0atRPAREN 10-11 )" },
    Rec { t: b"def m(&A\xffa) end", shape: b"(const name=\x22A\xff\x00\x22)", full: b"(const name=\x22A\xff\x00\x22 name=7-9 expression=7-9)", diag: b"\x0aE 7-9 unexpected tCONSTANT", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atAMPER 6-7 &\x0atCONSTANT 7-9 A\xff\x00\x0atRPAREN 9-10 )" },
    Rec { t: b"def m((A\xffa, b)) end", shape: b"(send method_name=\x22b\x22 args=[])", full: b"(send method_name=\x22b\x22 args=[] selector=11-12 expression=11-12)", diag: b"\x0aE 7-9 formal argument cannot be a constant", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atLPAREN 6-7 (\x0atCONSTANT 7-9 A\xff\x00\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-12 b\x0atRPAREN 12-13 )" },
    Rec { t: b"m { |A\xffa| }", shape: b"none", full: b"none", diag: b"\x0aE 5-7 formal argument cannot be a constant", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atCONSTANT 5-7 A\xff\x00\x0atPIPE 7-8 |\x0atRCURLY 9-10 }\x0aEOF 10-10 " },
    Rec { t: b"m { |@a\xffa| }", shape: b"none", full: b"none", diag: b"\x0aE 5-8 formal argument cannot be an instance variable", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atIVAR 5-8 @a\xff\x00\x0atPIPE 8-9 |\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"m { |@@a\xffa, b| }", shape: b"none", full: b"none", diag: b"\x0aE 5-9 formal argument cannot be a class variable", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atCVAR 5-9 @@a\xff\x00\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-12 b\x0atPIPE 12-13 |\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"m { |$a\xffa| }", shape: b"none", full: b"none", diag: b"\x0aE 5-8 formal argument cannot be a global variable", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atGVAR 5-8 $a\xff\x00\x0atPIPE 8-9 |\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"m { |*@a\xffa| }", shape: b"none", full: b"none", diag: b"\x0aE 6-9 unexpected tIVAR", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atSTAR 5-6 *\x0atIVAR 6-9 @a\xff\x00\x0atPIPE 9-10 |\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"m { |&@a\xffa| }", shape: b"none", full: b"none", diag: b"\x0aE 6-9 unexpected tIVAR", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atAMPER 5-6 &\x0atIVAR 6-9 @a\xff\x00\x0atPIPE 9-10 |\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"m { |a; A\xffa| }", shape: b"none", full: b"none", diag: b"\x0aE 8-10 formal argument cannot be a constant", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atIDENTIFIER 5-6 a\x0atSEMI 6-7 ;\x0atCONSTANT 8-10 A\xff\x00\x0atPIPE 10-11 |\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"->(A\xffa) {}", shape: b"none", full: b"none", diag: b"\x0aE 3-5 formal argument cannot be a constant", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atCONSTANT 3-5 A\xff\x00\x0atRPAREN 5-6 )\x0atLAMBEG 7-8 {\x0atRCURLY 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"->(@a\xffa) {}", shape: b"none", full: b"none", diag: b"\x0aE 3-6 formal argument cannot be an instance variable", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIVAR 3-6 @a\xff\x00\x0atRPAREN 6-7 )\x0atLAMBEG 8-9 {\x0atRCURLY 9-10 }\x0aEOF 10-10 " },
    Rec { t: b"def m(self) end", shape: b"(self_)", full: b"(self_ expression=6-10)", diag: b"\x0aE 6-10 unexpected kSELF", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0akSELF 6-10 self\x0atRPAREN 10-11 )" },
    Rec { t: b"def m(nil) end", shape: b"(nil)", full: b"(nil expression=6-9)", diag: b"\x0aE 6-9 unexpected kNIL", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0akNIL 6-9 nil\x0atRPAREN 9-10 )" },
    Rec { t: b"def m(end) end", shape: b"none", full: b"none", diag: b"\x0aE 6-9 unexpected kEND", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0akEND 6-9 end\x0atRPAREN 9-10 )\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"m { |if| }", shape: b"none", full: b"none", diag: b"\x0aE 5-7 unexpected kIF", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0akIF 5-7 if\x0atPIPE 7-8 |\x0atRCURLY 9-10 }\x0aEOF 10-10 " },
    Rec { t: b"def m(a.b) end", shape: b"(send method_name=\x22b\x22 args=[])", full: b"(send method_name=\x22b\x22 args=[] selector=8-9 expression=8-9)", diag: b"\x0aE 7-8 unexpected tDOT", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-7 a\x0atDOT 7-8 .\x0atIDENTIFIER 8-9 b\x0atRPAREN 9-10 )" },
    Rec { t: b"def m(a[1]) end", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=8-9)", diag: b"\x0aE 7-8 unexpected tLBRACK2", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-7 a\x0atLBRACK2 7-8 [\x0atINTEGER 8-9 1\x0atRBRACK 9-10 ]" },
    Rec { t: b"def m(1) end", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=6-7)", diag: b"\x0aE 6-7 unexpected tINTEGER", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atINTEGER 6-7 1\x0atRPAREN 7-8 )" },
    Rec { t: b"def m(\x22a\x22) end", shape: b"(str value=\x22a\x22)", full: b"(str value=\x22a\x22 begin=6-7 end=8-9 expression=6-9)", diag: b"\x0aE 6-7 unexpected tSTRING_BEG\x0aE 9-10 unexpected tRPAREN", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atSTRING_BEG 6-7 \x22\x0atSTRING_CONTENT 7-8 a\x0atSTRING_END 8-9 \x22\x0atRPAREN 9-10 )" },
    Rec { t: b"def m(*a, *b) end", shape: b"none", full: b"none", diag: b"\x0aE 10-11 unexpected tSTAR", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atSTAR 6-7 *\x0atIDENTIFIER 7-8 a\x0atCOMMA 8-9 ,\x0atSTAR 10-11 *\x0atIDENTIFIER 11-12 b\x0atRPAREN 12-13 )\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"def m(**a, **b) end", shape: b"(send method_name=\x22b\x22 args=[])", full: b"(send method_name=\x22b\x22 args=[] selector=13-14 expression=13-14)", diag: b"\x0aE 11-13 unexpected tDSTAR", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atDSTAR 6-8 **\x0atIDENTIFIER 8-9 a\x0atCOMMA 9-10 ,\x0atDSTAR 11-13 **\x0atIDENTIFIER 13-14 b\x0atRPAREN 14-15 )" },
    Rec { t: b"def m(&a, &b) end", shape: b"(send method_name=\x22b\x22 args=[])", full: b"(send method_name=\x22b\x22 args=[] selector=11-12 expression=11-12)", diag: b"\x0aE 8-9 unexpected tCOMMA", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atAMPER 6-7 &\x0atIDENTIFIER 7-8 a\x0atCOMMA 8-9 ,\x0atAMPER 10-11 &\x0atIDENTIFIER 11-12 b\x0atRPAREN 12-13 )" },
    Rec { t: b"def m(**a, b) end", shape: b"(send method_name=\x22b\x22 args=[])", full: b"(send method_name=\x22b\x22 args=[] selector=11-12 expression=11-12)", diag: b"\x0aE 11-12 unexpected tIDENTIFIER", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atDSTAR 6-8 **\x0atIDENTIFIER 8-9 a\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-12 b\x0atRPAREN 12-13 )" },
    Rec { t: b"def m(&a, b) end", shape: b"(send method_name=\x22b\x22 args=[])", full: b"(send method_name=\x22b\x22 args=[] selector=10-11 expression=10-11)", diag: b"\x0aE 8-9 unexpected tCOMMA", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atAMPER 6-7 &\x0atIDENTIFIER 7-8 a\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-11 b\x0atRPAREN 11-12 )" },
    Rec { t: b"def m(a: 1, b) end", shape: b"(send method_name=\x22b\x22 args=[])", full: b"(send method_name=\x22b\x22 args=[] selector=12-13 expression=12-13)", diag: b"\x0aE 12-13 unexpected tIDENTIFIER", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atLABEL 6-8 a\x0atINTEGER 9-10 1\x0atCOMMA 10-11 ,\x0atIDENTIFIER 12-13 b\x0atRPAREN 13-14 )" },
    Rec { t: b"def m(a:, *b) end", shape: b"none", full: b"none", diag: b"\x0aE 10-11 unexpected tSTAR", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atLABEL 6-8 a\x0atCOMMA 8-9 ,\x0atSTAR 10-11 *\x0atIDENTIFIER 11-12 b\x0atRPAREN 12-13 )\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"def m(**a, b:) end", shape: b"none", full: b"none", diag: b"\x0aE 11-13 unexpected tLABEL", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atDSTAR 6-8 **\x0atIDENTIFIER 8-9 a\x0atCOMMA 9-10 ,\x0atLABEL 11-13 b\x0atRPAREN 13-14 )\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"def m(&a, **b) end", shape: b"(send method_name=\x22b\x22 args=[])", full: b"(send method_name=\x22b\x22 args=[] selector=12-13 expression=12-13)", diag: b"\x0aE 8-9 unexpected tCOMMA", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atAMPER 6-7 &\x0atIDENTIFIER 7-8 a\x0atCOMMA 8-9 ,\x0atDSTAR 10-12 **\x0atIDENTIFIER 12-13 b\x0atRPAREN 13-14 )" },
    Rec { t: b"def m(*a, b = 1) end", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=14-15)", diag: b"\x0aE 12-13 unexpected tEQL", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atSTAR 6-7 *\x0atIDENTIFIER 7-8 a\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-11 b\x0atEQL 12-13 =\x0atINTEGER 14-15 1\x0atRPAREN 15-16 )" },
    Rec { t: b"def m(a = 1, *b, c = 1) end", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=21-22)", diag: b"\x0aE 19-20 unexpected tEQL", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-7 a\x0atEQL 8-9 =\x0atINTEGER 10-11 1\x0atCOMMA 11-12 ,\x0atSTAR 13-14 *\x0atIDENTIFIER 14-15 b\x0atCOMMA 15-16 ,\x0atIDENTIFIER 17-18 c\x0atEQL 19-20 =\x0atINTEGER 21-22 1\x0atRPAREN 22-23 )" },
    Rec { t: b"def m(a = 1, *b, c, d: 1, e:, **f, &g) end", shape: b"(def name=\x22m\x22 args=(args args=[(optarg name=\x22a\x22 default=(int value=\x221\x22)) (restarg name=\x22b\x22) (arg name=\x22c\x22) (kwoptarg name=\x22d\x22 default=(int value=\x221\x22)) (kwarg name=\x22e\x22) (kwrestarg name=\x22f\x22) (blockarg name=\x22g\x22)]))", full: b"(def name=\x22m\x22 args=(args args=[(optarg name=\x22a\x22 default=(int value=\x221\x22 expression=10-11) name=6-7 operator=8-9 expression=6-11) (restarg name=\x22b\x22 operator=13-14 name=14-15 expression=13-15) (arg name=\x22c\x22 expression=17-18) (kwoptarg name=\x22d\x22 default=(int value=\x221\x22 expression=23-24) name=20-21 expression=20-24) (kwarg name=\x22e\x22 name=26-27 expression=26-28) (kwrestarg name=\x22f\x22 operator=30-32 name=32-33 expression=30-33) (blockarg name=\x22g\x22 operator=35-36 name=36-37 expression=35-37)] expression=5-38 begin=5-6 end=37-38) keyword=0-3 name=4-5 end=39-42 expression=0-42)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-7 a\x0atEQL 8-9 =\x0atINTEGER 10-11 1\x0atCOMMA 11-12 ,\x0atSTAR 13-14 *\x0atIDENTIFIER 14-15 b\x0atCOMMA 15-16 ,\x0atIDENTIFIER 17-18 c\x0atCOMMA 18-19 ,\x0atLABEL 20-22 d\x0atINTEGER 23-24 1\x0atCOMMA 24-25 ,\x0atLABEL 26-28 e\x0atCOMMA 28-29 ,\x0atDSTAR 30-32 **\x0atIDENTIFIER 32-33 f\x0atCOMMA 33-34 ,\x0atAMPER 35-36 &\x0atIDENTIFIER 36-37 g\x0atRPAREN 37-38 )\x0akEND 39-42 end\x0aEOF 42-42 " },
    Rec { t: b"def m(a, b = 1, c) end", shape: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22a\x22) (optarg name=\x22b\x22 default=(int value=\x221\x22)) (arg name=\x22c\x22)]))", full: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22a\x22 expression=6-7) (optarg name=\x22b\x22 default=(int value=\x221\x22 expression=13-14) name=9-10 operator=11-12 expression=9-14) (arg name=\x22c\x22 expression=16-17)] expression=5-18 begin=5-6 end=17-18) keyword=0-3 name=4-5 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-7 a\x0atCOMMA 7-8 ,\x0atIDENTIFIER 9-10 b\x0atEQL 11-12 =\x0atINTEGER 13-14 1\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-17 c\x0atRPAREN 17-18 )\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"def m(a = 1, b, c = 1) end", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=20-21)", diag: b"\x0aE 18-19 unexpected tEQL", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-7 a\x0atEQL 8-9 =\x0atINTEGER 10-11 1\x0atCOMMA 11-12 ,\x0atIDENTIFIER 13-14 b\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-17 c\x0atEQL 18-19 =\x0atINTEGER 20-21 1\x0atRPAREN 21-22 )" },
    Rec { t: b"def m(**nil) end", shape: b"(def name=\x22m\x22 args=(args args=[(kwnilarg)]))", full: b"(def name=\x22m\x22 args=(args args=[(kwnilarg name=8-11 expression=6-11)] expression=5-12 begin=5-6 end=11-12) keyword=0-3 name=4-5 end=13-16 expression=0-16)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atDSTAR 6-8 **\x0akNIL 8-11 nil\x0atRPAREN 11-12 )\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"def m(**nil, a:) end", shape: b"none", full: b"none", diag: b"\x0aE 13-15 unexpected tLABEL", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atDSTAR 6-8 **\x0akNIL 8-11 nil\x0atCOMMA 11-12 ,\x0atLABEL 13-15 a\x0atRPAREN 15-16 )\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"def m(**a, **nil) end", shape: b"(nil)", full: b"(nil expression=13-16)", diag: b"\x0aE 11-13 unexpected tDSTAR", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atDSTAR 6-8 **\x0atIDENTIFIER 8-9 a\x0atCOMMA 9-10 ,\x0atDSTAR 11-13 **\x0akNIL 13-16 nil\x0atRPAREN 16-17 )" },
    Rec { t: b"def m(a, **nil) end", shape: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22a\x22) (kwnilarg)]))", full: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22a\x22 expression=6-7) (kwnilarg name=11-14 expression=9-14)] expression=5-15 begin=5-6 end=14-15) keyword=0-3 name=4-5 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-7 a\x0atCOMMA 7-8 ,\x0atDSTAR 9-11 **\x0akNIL 11-14 nil\x0atRPAREN 14-15 )\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"def m(**nil, &b) end", shape: b"(def name=\x22m\x22 args=(args args=[(kwnilarg) (blockarg name=\x22b\x22)]))", full: b"(def name=\x22m\x22 args=(args args=[(kwnilarg name=8-11 expression=6-11) (blockarg name=\x22b\x22 operator=13-14 name=14-15 expression=13-15)] expression=5-16 begin=5-6 end=15-16) keyword=0-3 name=4-5 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atDSTAR 6-8 **\x0akNIL 8-11 nil\x0atCOMMA 11-12 ,\x0atAMPER 13-14 &\x0atIDENTIFIER 14-15 b\x0atRPAREN 15-16 )\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"def m(...) end", shape: b"(def name=\x22m\x22 args=(args args=[(forward_arg)]))", full: b"(def name=\x22m\x22 args=(args args=[(forward_arg expression=6-9)] expression=5-10 begin=5-6 end=9-10) keyword=0-3 name=4-5 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atBDOT3 6-9 ...\x0atRPAREN 9-10 )\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def m(a, ...) end", shape: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22a\x22) (forward_arg)]))", full: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22a\x22 expression=6-7) (forward_arg expression=9-12)] expression=5-13 begin=5-6 end=12-13) keyword=0-3 name=4-5 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-7 a\x0atCOMMA 7-8 ,\x0atBDOT3 9-12 ...\x0atRPAREN 12-13 )\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"def m(a, b = 1, ...) n(a, ...) end", shape: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22a\x22) (optarg name=\x22b\x22 default=(int value=\x221\x22)) (forward_arg)]) body=(send method_name=\x22n\x22 args=[(lvar name=\x22a\x22) (forwarded_args)]))", full: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22a\x22 expression=6-7) (optarg name=\x22b\x22 default=(int value=\x221\x22 expression=13-14) name=9-10 operator=11-12 expression=9-14) (forward_arg expression=16-19)] expression=5-20 begin=5-6 end=19-20) body=(send method_name=\x22n\x22 args=[(lvar name=\x22a\x22 expression=23-24) (forwarded_args expression=26-29)] selector=21-22 begin=22-23 end=29-30 expression=21-30) keyword=0-3 name=4-5 end=31-34 expression=0-34)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-7 a\x0atCOMMA 7-8 ,\x0atIDENTIFIER 9-10 b\x0atEQL 11-12 =\x0atINTEGER 13-14 1\x0atCOMMA 14-15 ,\x0atBDOT3 16-19 ...\x0atRPAREN 19-20 )\x0atIDENTIFIER 21-22 n\x0atLPAREN2 22-23 (\x0atIDENTIFIER 23-24 a\x0atCOMMA 24-25 ,\x0atBDOT3 26-29 ...\x0atRPAREN 29-30 )\x0akEND 31-34 end\x0aEOF 34-34 " },
    Rec { t: b"def m(*a, ...) end", shape: b"(def name=\x22m\x22 args=(args args=[(restarg name=\x22a\x22) (forward_arg)]))", full: b"(def name=\x22m\x22 args=(args args=[(restarg name=\x22a\x22 operator=6-7 name=7-8 expression=6-8) (forward_arg expression=10-13)] expression=5-14 begin=5-6 end=13-14) keyword=0-3 name=4-5 end=15-18 expression=0-18)", diag: b"\x0aE 10-13 ... after rest argument", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atSTAR 6-7 *\x0atIDENTIFIER 7-8 a\x0atCOMMA 8-9 ,\x0atBDOT3 10-13 ...\x0atRPAREN 13-14 )\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"def m(a:, ...) end", shape: b"none", full: b"none", diag: b"\x0aE 10-13 unexpected tBDOT3", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atLABEL 6-8 a\x0atCOMMA 8-9 ,\x0atBDOT3 10-13 ...\x0atRPAREN 13-14 )\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"def m(**a, ...) end", shape: b"none", full: b"none", diag: b"\x0aE 11-14 unexpected tBDOT3", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atDSTAR 6-8 **\x0atIDENTIFIER 8-9 a\x0atCOMMA 9-10 ,\x0atBDOT3 11-14 ...\x0atRPAREN 14-15 )\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"def m(&b, ...) end", shape: b"none", full: b"none", diag: b"\x0aE 8-9 unexpected tCOMMA", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atAMPER 6-7 &\x0atIDENTIFIER 7-8 b\x0atCOMMA 8-9 ,\x0atBDOT3 10-13 ...\x0atRPAREN 13-14 )\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"def m(..., a) end", shape: b"(send method_name=\x22a\x22 args=[])", full: b"(send method_name=\x22a\x22 args=[] selector=11-12 expression=11-12)", diag: b"\x0aE 9-10 unexpected tCOMMA", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atBDOT3 6-9 ...\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-12 a\x0atRPAREN 12-13 )" },
    Rec { t: b"m { |...| }", shape: b"none", full: b"none", diag: b"\x0aE 5-8 unexpected tBDOT3", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atBDOT3 5-8 ...\x0atPIPE 8-9 |\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"->(...) {}", shape: b"none", full: b"none", diag: b"\x0aE 3-6 unexpected tDOT3", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atDOT3 3-6 ...\x0atRPAREN 6-7 )\x0atLAMBEG 8-9 {\x0atRCURLY 9-10 }\x0aEOF 10-10 " },
    Rec { t: b"def m(...) n(...) end", shape: b"(def name=\x22m\x22 args=(args args=[(forward_arg)]) body=(send method_name=\x22n\x22 args=[(forwarded_args)]))", full: b"(def name=\x22m\x22 args=(args args=[(forward_arg expression=6-9)] expression=5-10 begin=5-6 end=9-10) body=(send method_name=\x22n\x22 args=[(forwarded_args expression=13-16)] selector=11-12 begin=12-13 end=16-17 expression=11-17) keyword=0-3 name=4-5 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atBDOT3 6-9 ...\x0atRPAREN 9-10 )\x0atIDENTIFIER 11-12 n\x0atLPAREN2 12-13 (\x0atBDOT3 13-16 ...\x0atRPAREN 16-17 )\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"def m(...) n(1, ...) end", shape: b"(def name=\x22m\x22 args=(args args=[(forward_arg)]) body=(send method_name=\x22n\x22 args=[(int value=\x221\x22) (forwarded_args)]))", full: b"(def name=\x22m\x22 args=(args args=[(forward_arg expression=6-9)] expression=5-10 begin=5-6 end=9-10) body=(send method_name=\x22n\x22 args=[(int value=\x221\x22 expression=13-14) (forwarded_args expression=16-19)] selector=11-12 begin=12-13 end=19-20 expression=11-20) keyword=0-3 name=4-5 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atBDOT3 6-9 ...\x0atRPAREN 9-10 )\x0atIDENTIFIER 11-12 n\x0atLPAREN2 12-13 (\x0atINTEGER 13-14 1\x0atCOMMA 14-15 ,\x0atBDOT3 16-19 ...\x0atRPAREN 19-20 )\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"def m(...) = n(...)", shape: b"(def name=\x22m\x22 args=(args args=[(forward_arg)]) body=(send method_name=\x22n\x22 args=[(forwarded_args)]))", full: b"(def name=\x22m\x22 args=(args args=[(forward_arg expression=6-9)] expression=5-10 begin=5-6 end=9-10) body=(send method_name=\x22n\x22 args=[(forwarded_args expression=15-18)] selector=13-14 begin=14-15 end=18-19 expression=13-19) keyword=0-3 name=4-5 assignment=11-12 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atBDOT3 6-9 ...\x0atRPAREN 9-10 )\x0atEQL 11-12 =\x0atIDENTIFIER 13-14 n\x0atLPAREN2 14-15 (\x0atBDOT3 15-18 ...\x0atRPAREN 18-19 )\x0aEOF 19-19 " },
    Rec { t: b"def m(a) n(...) end", shape: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22a\x22)]))", full: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22a\x22 expression=6-7)] expression=5-8 begin=5-6 end=7-8) keyword=0-3 name=4-5 end=16-19 expression=0-19)", diag: b"\x0aE 11-14 unexpected tBDOT3", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-7 a\x0atRPAREN 7-8 )\x0atIDENTIFIER 9-10 n\x0atLPAREN2 10-11 (\x0atBDOT3 11-14 ...\x0atRPAREN 14-15 )\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"n(...)", shape: b"none", full: b"none", diag: b"\x0aE 2-5 unexpected tBDOT3", toks: b"\x0atIDENTIFIER 0-1 n\x0atLPAREN2 1-2 (\x0atBDOT3 2-5 ...\x0atRPAREN 5-6 )\x0aEOF 6-6 " },
    Rec { t: b"n(1, ...)", shape: b"none", full: b"none", diag: b"\x0aE 5-8 unexpected tBDOT3", toks: b"\x0atIDENTIFIER 0-1 n\x0atLPAREN2 1-2 (\x0atINTEGER 2-3 1\x0atCOMMA 3-4 ,\x0atBDOT3 5-8 ...\x0atRPAREN 8-9 )\x0aEOF 9-9 " },
    Rec { t: b"def m(...) p { n(...) }; end; n(...)", shape: b"none", full: b"none", diag: b"\x0aE 32-35 unexpected tBDOT3", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atBDOT3 6-9 ...\x0atRPAREN 9-10 )\x0atIDENTIFIER 11-12 p\x0atLCURLY 13-14 {\x0atIDENTIFIER 15-16 n\x0atLPAREN2 16-17 (\x0atBDOT3 17-20 ...\x0atRPAREN 20-21 )\x0atRCURLY 22-23 }\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0atSEMI 28-29 ;\x0atIDENTIFIER 30-31 n\x0atLPAREN2 31-32 (\x0atBDOT3 32-35 ...\x0atRPAREN 35-36 )\x0aEOF 36-36 " },
    Rec { t: b"def m(...) p { n(...) }; end", shape: b"(def name=\x22m\x22 args=(args args=[(forward_arg)]) body=(block call=(send method_name=\x22p\x22 args=[]) body=(send method_name=\x22n\x22 args=[(forwarded_args)])))", full: b"(def name=\x22m\x22 args=(args args=[(forward_arg expression=6-9)] expression=5-10 begin=5-6 end=9-10) body=(block call=(send method_name=\x22p\x22 args=[] selector=11-12 expression=11-12) body=(send method_name=\x22n\x22 args=[(forwarded_args expression=17-20)] selector=15-16 begin=16-17 end=20-21 expression=15-21) begin=13-14 end=22-23 expression=11-23) keyword=0-3 name=4-5 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atBDOT3 6-9 ...\x0atRPAREN 9-10 )\x0atIDENTIFIER 11-12 p\x0atLCURLY 13-14 {\x0atIDENTIFIER 15-16 n\x0atLPAREN2 16-17 (\x0atBDOT3 17-20 ...\x0atRPAREN 20-21 )\x0atRCURLY 22-23 }\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"def m(...) def k; n(...); end; end", shape: b"(def name=\x22m\x22 args=(args args=[(forward_arg)]) body=(def name=\x22k\x22))", full: b"(def name=\x22m\x22 args=(args args=[(forward_arg expression=6-9)] expression=5-10 begin=5-6 end=9-10) body=(def name=\x22k\x22 keyword=11-14 name=15-16 end=26-29 expression=11-29) keyword=0-3 name=4-5 end=31-34 expression=0-34)", diag: b"\x0aE 20-23 unexpected tBDOT3", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atBDOT3 6-9 ...\x0atRPAREN 9-10 )\x0akDEF 11-14 def\x0atIDENTIFIER 15-16 k\x0atSEMI 16-17 ;\x0atIDENTIFIER 18-19 n\x0atLPAREN2 19-20 (\x0atBDOT3 20-23 ...\x0atRPAREN 23-24 )\x0atSEMI 24-25 ;\x0akEND 26-29 end\x0atSEMI 29-30 ;\x0akEND 31-34 end\x0aEOF 34-34 " },
    Rec { t: b"def m(...) class << self; n(...); end; end", shape: b"(def name=\x22m\x22 args=(args args=[(forward_arg)]) body=(s_class expr=(self_)))", full: b"(def name=\x22m\x22 args=(args args=[(forward_arg expression=6-9)] expression=5-10 begin=5-6 end=9-10) body=(s_class expr=(self_ expression=20-24) keyword=11-16 operator=17-19 end=34-37 expression=11-37) keyword=0-3 name=4-5 end=39-42 expression=0-42)", diag: b"\x0aE 28-31 unexpected tBDOT3", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atBDOT3 6-9 ...\x0atRPAREN 9-10 )\x0akCLASS 11-16 class\x0atLSHFT 17-19 <<\x0akSELF 20-24 self\x0atSEMI 24-25 ;\x0atIDENTIFIER 26-27 n\x0atLPAREN2 27-28 (\x0atBDOT3 28-31 ...\x0atRPAREN 31-32 )\x0atSEMI 32-33 ;\x0akEND 34-37 end\x0atSEMI 37-38 ;\x0akEND 39-42 end\x0aEOF 42-42 " },
    Rec { t: b"def m(&) n(&) end", shape: b"(def name=\x22m\x22 args=(args args=[(blockarg)]) body=(send method_name=\x22n\x22 args=[(block_pass)]))", full: b"(def name=\x22m\x22 args=(args args=[(blockarg operator=6-7 expression=6-7)] expression=5-8 begin=5-6 end=7-8) body=(send method_name=\x22n\x22 args=[(block_pass operator=11-12 expression=11-12)] selector=9-10 begin=10-11 end=12-13 expression=9-13) keyword=0-3 name=4-5 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atAMPER 6-7 &\x0atRPAREN 7-8 )\x0atIDENTIFIER 9-10 n\x0atLPAREN2 10-11 (\x0atAMPER 11-12 &\x0atRPAREN 12-13 )\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"def m(a, &) n(a, &) end", shape: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22a\x22) (blockarg)]) body=(send method_name=\x22n\x22 args=[(lvar name=\x22a\x22) (block_pass)]))", full: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22a\x22 expression=6-7) (blockarg operator=9-10 expression=9-10)] expression=5-11 begin=5-6 end=10-11) body=(send method_name=\x22n\x22 args=[(lvar name=\x22a\x22 expression=14-15) (block_pass operator=17-18 expression=17-18)] selector=12-13 begin=13-14 end=18-19 expression=12-19) keyword=0-3 name=4-5 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-7 a\x0atCOMMA 7-8 ,\x0atAMPER 9-10 &\x0atRPAREN 10-11 )\x0atIDENTIFIER 12-13 n\x0atLPAREN2 13-14 (\x0atIDENTIFIER 14-15 a\x0atCOMMA 15-16 ,\x0atAMPER 17-18 &\x0atRPAREN 18-19 )\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"def m(&) = n(&)", shape: b"(def name=\x22m\x22 args=(args args=[(blockarg)]) body=(send method_name=\x22n\x22 args=[(block_pass)]))", full: b"(def name=\x22m\x22 args=(args args=[(blockarg operator=6-7 expression=6-7)] expression=5-8 begin=5-6 end=7-8) body=(send method_name=\x22n\x22 args=[(block_pass operator=13-14 expression=13-14)] selector=11-12 begin=12-13 end=14-15 expression=11-15) keyword=0-3 name=4-5 assignment=9-10 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atAMPER 6-7 &\x0atRPAREN 7-8 )\x0atEQL 9-10 =\x0atIDENTIFIER 11-12 n\x0atLPAREN2 12-13 (\x0atAMPER 13-14 &\x0atRPAREN 14-15 )\x0aEOF 15-15 " },
    Rec { t: b"def m(a) n(&) end", shape: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22a\x22)]))", full: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22a\x22 expression=6-7)] expression=5-8 begin=5-6 end=7-8) keyword=0-3 name=4-5 end=14-17 expression=0-17)", diag: b"\x0aE 11-12 no anonymous block parameter", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-7 a\x0atRPAREN 7-8 )\x0atIDENTIFIER 9-10 n\x0atLPAREN2 10-11 (\x0atAMPER 11-12 &\x0atRPAREN 12-13 )\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"n(&)", shape: b"none", full: b"none", diag: b"\x0aE 2-3 no anonymous block parameter", toks: b"\x0atIDENTIFIER 0-1 n\x0atLPAREN2 1-2 (\x0atAMPER 2-3 &\x0atRPAREN 3-4 )\x0aEOF 4-4 " },
    Rec { t: b"def m(&a) n(&) end", shape: b"(def name=\x22m\x22 args=(args args=[(blockarg name=\x22a\x22)]))", full: b"(def name=\x22m\x22 args=(args args=[(blockarg name=\x22a\x22 operator=6-7 name=7-8 expression=6-8)] expression=5-9 begin=5-6 end=8-9) keyword=0-3 name=4-5 end=15-18 expression=0-18)", diag: b"\x0aE 12-13 no anonymous block parameter", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atAMPER 6-7 &\x0atIDENTIFIER 7-8 a\x0atRPAREN 8-9 )\x0atIDENTIFIER 10-11 n\x0atLPAREN2 11-12 (\x0atAMPER 12-13 &\x0atRPAREN 13-14 )\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"def m(&) p { n(&) } end", shape: b"(def name=\x22m\x22 args=(args args=[(blockarg)]) body=(block call=(send method_name=\x22p\x22 args=[]) body=(send method_name=\x22n\x22 args=[(block_pass)])))", full: b"(def name=\x22m\x22 args=(args args=[(blockarg operator=6-7 expression=6-7)] expression=5-8 begin=5-6 end=7-8) body=(block call=(send method_name=\x22p\x22 args=[] selector=9-10 expression=9-10) body=(send method_name=\x22n\x22 args=[(block_pass operator=15-16 expression=15-16)] selector=13-14 begin=14-15 end=16-17 expression=13-17) begin=11-12 end=18-19 expression=9-19) keyword=0-3 name=4-5 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atAMPER 6-7 &\x0atRPAREN 7-8 )\x0atIDENTIFIER 9-10 p\x0atLCURLY 11-12 {\x0atIDENTIFIER 13-14 n\x0atLPAREN2 14-15 (\x0atAMPER 15-16 &\x0atRPAREN 16-17 )\x0atRCURLY 18-19 }\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"def m(&) def k; n(&); end; end", shape: b"(def name=\x22m\x22 args=(args args=[(blockarg)]) body=(def name=\x22k\x22))", full: b"(def name=\x22m\x22 args=(args args=[(blockarg operator=6-7 expression=6-7)] expression=5-8 begin=5-6 end=7-8) body=(def name=\x22k\x22 keyword=9-12 name=13-14 end=22-25 expression=9-25) keyword=0-3 name=4-5 end=27-30 expression=0-30)", diag: b"\x0aE 18-19 no anonymous block parameter", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atAMPER 6-7 &\x0atRPAREN 7-8 )\x0akDEF 9-12 def\x0atIDENTIFIER 13-14 k\x0atSEMI 14-15 ;\x0atIDENTIFIER 16-17 n\x0atLPAREN2 17-18 (\x0atAMPER 18-19 &\x0atRPAREN 19-20 )\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"def m(*) n(&) end", shape: b"(def name=\x22m\x22 args=(args args=[(restarg)]))", full: b"(def name=\x22m\x22 args=(args args=[(restarg operator=6-7 expression=6-7)] expression=5-8 begin=5-6 end=7-8) keyword=0-3 name=4-5 end=14-17 expression=0-17)", diag: b"\x0aE 11-12 no anonymous block parameter", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atSTAR 6-7 *\x0atRPAREN 7-8 )\x0atIDENTIFIER 9-10 n\x0atLPAREN2 10-11 (\x0atAMPER 11-12 &\x0atRPAREN 12-13 )\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"def m(*); end", shape: b"(def name=\x22m\x22 args=(args args=[(restarg)]))", full: b"(def name=\x22m\x22 args=(args args=[(restarg operator=6-7 expression=6-7)] expression=5-8 begin=5-6 end=7-8) keyword=0-3 name=4-5 end=10-13 expression=0-13)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atSTAR 6-7 *\x0atRPAREN 7-8 )\x0atSEMI 8-9 ;\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"def m(**); end", shape: b"(def name=\x22m\x22 args=(args args=[(kwrestarg)]))", full: b"(def name=\x22m\x22 args=(args args=[(kwrestarg operator=6-8 expression=6-8)] expression=5-9 begin=5-6 end=8-9) keyword=0-3 name=4-5 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atDSTAR 6-8 **\x0atRPAREN 8-9 )\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def m(*, **, &) end", shape: b"(def name=\x22m\x22 args=(args args=[(restarg) (kwrestarg) (blockarg)]))", full: b"(def name=\x22m\x22 args=(args args=[(restarg operator=6-7 expression=6-7) (kwrestarg operator=9-11 expression=9-11) (blockarg operator=13-14 expression=13-14)] expression=5-15 begin=5-6 end=14-15) keyword=0-3 name=4-5 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atSTAR 6-7 *\x0atCOMMA 7-8 ,\x0atDSTAR 9-11 **\x0atCOMMA 11-12 ,\x0atAMPER 13-14 &\x0atRPAREN 14-15 )\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"def a\xffa=(b) = 1", shape: b"none", full: b"none", diag: b"\x0aE 4-7 setter method cannot be defined in an endless method definition", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-7 a\xff\x00=\x0atLPAREN2 7-8 (\x0atIDENTIFIER 8-9 b\x0atRPAREN 9-10 )\x0atEQL 11-12 =\x0atINTEGER 13-14 1\x0aEOF 14-14 " },
    Rec { t: b"def self.a\xffa=(b) = 1", shape: b"none", full: b"none", diag: b"\x0aE 9-12 setter method cannot be defined in an endless method definition", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-12 a\xff\x00=\x0atLPAREN2 12-13 (\x0atIDENTIFIER 13-14 b\x0atRPAREN 14-15 )\x0atEQL 16-17 =\x0atINTEGER 18-19 1\x0aEOF 19-19 " },
    Rec { t: b"def []=(b) = 1", shape: b"none", full: b"none", diag: b"\x0aE 4-7 setter method cannot be defined in an endless method definition", toks: b"\x0akDEF 0-3 def\x0atASET 4-7 []=\x0atLPAREN2 7-8 (\x0atIDENTIFIER 8-9 b\x0atRPAREN 9-10 )\x0atEQL 11-12 =\x0atINTEGER 13-14 1\x0aEOF 14-14 " },
    Rec { t: b"def a\xffa(b) = 1", shape: b"(def name=\x22a\xff\x00\x22 args=(args args=[(arg name=\x22b\x22)]) body=(int value=\x221\x22))", full: b"(def name=\x22a\xff\x00\x22 args=(args args=[(arg name=\x22b\x22 expression=7-8)] expression=6-9 begin=6-7 end=8-9) body=(int value=\x221\x22 expression=12-13) keyword=0-3 name=4-6 assignment=10-11 expression=0-13)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 a\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-8 b\x0atRPAREN 8-9 )\x0atEQL 10-11 =\x0atINTEGER 12-13 1\x0aEOF 13-13 " },
    Rec { t: b"def a\xffa? = 1", shape: b"(def name=\x22a\xff\x00?\x22 body=(int value=\x221\x22))", full: b"(def name=\x22a\xff\x00?\x22 body=(int value=\x221\x22 expression=10-11) keyword=0-3 name=4-7 assignment=8-9 expression=0-11)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atFID 4-7 a\xff\x00?\x0atEQL 8-9 =\x0atINTEGER 10-11 1\x0aEOF 11-11 " },
    Rec { t: b"def a\xffa! = 1", shape: b"(def name=\x22a\xff\x00!\x22 body=(int value=\x221\x22))", full: b"(def name=\x22a\xff\x00!\x22 body=(int value=\x221\x22 expression=10-11) keyword=0-3 name=4-7 assignment=8-9 expression=0-11)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atFID 4-7 a\xff\x00!\x0atEQL 8-9 =\x0atINTEGER 10-11 1\x0aEOF 11-11 " },
    Rec { t: b"def == (o) = 1", shape: b"(def name=\x22==\x22 args=(args args=[(arg name=\x22o\x22)]) body=(int value=\x221\x22))", full: b"(def name=\x22==\x22 args=(args args=[(arg name=\x22o\x22 expression=8-9)] expression=7-10 begin=7-8 end=9-10) body=(int value=\x221\x22 expression=13-14) keyword=0-3 name=4-6 assignment=11-12 expression=0-14)", diag: b"\x0aW 7-8 parentheses after method name is interpreted as an argument list, not a decomposed argument", toks: b"\x0akDEF 0-3 def\x0atEQ 4-6 ==\x0atLPAREN2 7-8 (\x0atIDENTIFIER 8-9 o\x0atRPAREN 9-10 )\x0atEQL 11-12 =\x0atINTEGER 13-14 1\x0aEOF 14-14 " },
    Rec { t: b"def ===(o) = 1", shape: b"(def name=\x22===\x22 args=(args args=[(arg name=\x22o\x22)]) body=(int value=\x221\x22))", full: b"(def name=\x22===\x22 args=(args args=[(arg name=\x22o\x22 expression=8-9)] expression=7-10 begin=7-8 end=9-10) body=(int value=\x221\x22 expression=13-14) keyword=0-3 name=4-7 assignment=11-12 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atEQQ 4-7 ===\x0atLPAREN2 7-8 (\x0atIDENTIFIER 8-9 o\x0atRPAREN 9-10 )\x0atEQL 11-12 =\x0atINTEGER 13-14 1\x0aEOF 14-14 " },
    Rec { t: b"def !=(o) = 1", shape: b"(def name=\x22!=\x22 args=(args args=[(arg name=\x22o\x22)]) body=(int value=\x221\x22))", full: b"(def name=\x22!=\x22 args=(args args=[(arg name=\x22o\x22 expression=7-8)] expression=6-9 begin=6-7 end=8-9) body=(int value=\x221\x22 expression=12-13) keyword=0-3 name=4-6 assignment=10-11 expression=0-13)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atNEQ 4-6 !=\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-8 o\x0atRPAREN 8-9 )\x0atEQL 10-11 =\x0atINTEGER 12-13 1\x0aEOF 13-13 " },
    Rec { t: b"def <=(o) = 1", shape: b"(def name=\x22<=\x22 args=(args args=[(arg name=\x22o\x22)]) body=(int value=\x221\x22))", full: b"(def name=\x22<=\x22 args=(args args=[(arg name=\x22o\x22 expression=7-8)] expression=6-9 begin=6-7 end=8-9) body=(int value=\x221\x22 expression=12-13) keyword=0-3 name=4-6 assignment=10-11 expression=0-13)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atLEQ 4-6 <=\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-8 o\x0atRPAREN 8-9 )\x0atEQL 10-11 =\x0atINTEGER 12-13 1\x0aEOF 13-13 " },
    Rec { t: b"def >=(o) = 1", shape: b"(def name=\x22>=\x22 args=(args args=[(arg name=\x22o\x22)]) body=(int value=\x221\x22))", full: b"(def name=\x22>=\x22 args=(args args=[(arg name=\x22o\x22 expression=7-8)] expression=6-9 begin=6-7 end=8-9) body=(int value=\x221\x22 expression=12-13) keyword=0-3 name=4-6 assignment=10-11 expression=0-13)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atGEQ 4-6 >=\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-8 o\x0atRPAREN 8-9 )\x0atEQL 10-11 =\x0atINTEGER 12-13 1\x0aEOF 13-13 " },
    Rec { t: b"def a\xffa=(b); end", shape: b"(def name=\x22a\xff\x00=\x22 args=(args args=[(arg name=\x22b\x22)]))", full: b"(def name=\x22a\xff\x00=\x22 args=(args args=[(arg name=\x22b\x22 expression=8-9)] expression=7-10 begin=7-8 end=9-10) keyword=0-3 name=4-7 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-7 a\xff\x00=\x0atLPAREN2 7-8 (\x0atIDENTIFIER 8-9 b\x0atRPAREN 9-10 )\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def []=(b, c); end", shape: b"(def name=\x22[]=\x22 args=(args args=[(arg name=\x22b\x22) (arg name=\x22c\x22)]))", full: b"(def name=\x22[]=\x22 args=(args args=[(arg name=\x22b\x22 expression=8-9) (arg name=\x22c\x22 expression=11-12)] expression=7-13 begin=7-8 end=12-13) keyword=0-3 name=4-7 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atASET 4-7 []=\x0atLPAREN2 7-8 (\x0atIDENTIFIER 8-9 b\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-12 c\x0atRPAREN 12-13 )\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"def self.a\xffa=(b); end", shape: b"(defs definee=(self_) name=\x22a\xff\x00=\x22 args=(args args=[(arg name=\x22b\x22)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22a\xff\x00=\x22 args=(args args=[(arg name=\x22b\x22 expression=13-14)] expression=12-15 begin=12-13 end=14-15) keyword=0-3 operator=8-9 name=9-12 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-12 a\xff\x00=\x0atLPAREN2 12-13 (\x0atIDENTIFIER 13-14 b\x0atRPAREN 14-15 )\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"def m; A\xffa = 1; end", shape: b"(def name=\x22m\x22)", full: b"(def name=\x22m\x22 keyword=0-3 name=4-5 end=15-18 expression=0-18)", diag: b"\x0aE 7-9 dynamic constant assignment", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0atCONSTANT 7-9 A\xff\x00\x0atEQL 10-11 =\x0atINTEGER 12-13 1\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"def m; A\xffa ||= 1; end", shape: b"(def name=\x22m\x22)", full: b"(def name=\x22m\x22 keyword=0-3 name=4-5 end=17-20 expression=0-20)", diag: b"\x0aE 7-9 dynamic constant assignment", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0atCONSTANT 7-9 A\xff\x00\x0atOP_ASGN 10-13 ||=\x0atINTEGER 14-15 1\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"def m; A\xffa += 1; end", shape: b"(def name=\x22m\x22)", full: b"(def name=\x22m\x22 keyword=0-3 name=4-5 end=16-19 expression=0-19)", diag: b"\x0aE 7-9 dynamic constant assignment", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0atCONSTANT 7-9 A\xff\x00\x0atOP_ASGN 10-12 +=\x0atINTEGER 13-14 1\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"def m; A\xffa, b = 1, 2; end", shape: b"(def name=\x22m\x22)", full: b"(def name=\x22m\x22 keyword=0-3 name=4-5 end=21-24 expression=0-24)", diag: b"\x0aE 7-9 dynamic constant assignment", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0atCONSTANT 7-9 A\xff\x00\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-12 b\x0atEQL 13-14 =\x0atINTEGER 15-16 1\x0atCOMMA 16-17 ,\x0atINTEGER 18-19 2\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"def m; A::B\xffa = 1; end", shape: b"(def name=\x22m\x22)", full: b"(def name=\x22m\x22 keyword=0-3 name=4-5 end=18-21 expression=0-21)", diag: b"\x0aE 7-12 dynamic constant assignment", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0atCONSTANT 7-8 A\x0atCOLON2 8-10 ::\x0atCONSTANT 10-12 B\xff\x00\x0atEQL 13-14 =\x0atINTEGER 15-16 1\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"def m; ::A\xffa = 1; end", shape: b"(def name=\x22m\x22)", full: b"(def name=\x22m\x22 keyword=0-3 name=4-5 end=17-20 expression=0-20)", diag: b"\x0aE 7-11 dynamic constant assignment", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0atCOLON3 7-9 ::\x0atCONSTANT 9-11 A\xff\x00\x0atEQL 12-13 =\x0atINTEGER 14-15 1\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"def m; ::A\xffa ||= 1; end", shape: b"(def name=\x22m\x22 body=(or_asgn recv=(casgn scope=(cbase) name=\x22A\xff\x00\x22) value=(int value=\x221\x22)))", full: b"(def name=\x22m\x22 body=(or_asgn recv=(casgn scope=(cbase expression=7-9) name=\x22A\xff\x00\x22 double_colon=7-9 name=9-11 expression=7-11) value=(int value=\x221\x22 expression=16-17) operator=12-15 expression=7-17) keyword=0-3 name=4-5 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0atCOLON3 7-9 ::\x0atCONSTANT 9-11 A\xff\x00\x0atOP_ASGN 12-15 ||=\x0atINTEGER 16-17 1\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"def m; A::B\xffa ||= 1; end", shape: b"(def name=\x22m\x22 body=(or_asgn recv=(casgn scope=(const name=\x22A\x22) name=\x22B\xff\x00\x22) value=(int value=\x221\x22)))", full: b"(def name=\x22m\x22 body=(or_asgn recv=(casgn scope=(const name=\x22A\x22 name=7-8 expression=7-8) name=\x22B\xff\x00\x22 double_colon=8-10 name=10-12 expression=7-12) value=(int value=\x221\x22 expression=17-18) operator=13-16 expression=7-18) keyword=0-3 name=4-5 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0atCONSTANT 7-8 A\x0atCOLON2 8-10 ::\x0atCONSTANT 10-12 B\xff\x00\x0atOP_ASGN 13-16 ||=\x0atINTEGER 17-18 1\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"def m; a::B\xffa = 1; end", shape: b"(def name=\x22m\x22)", full: b"(def name=\x22m\x22 keyword=0-3 name=4-5 end=18-21 expression=0-21)", diag: b"\x0aE 7-12 dynamic constant assignment", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-8 a\x0atCOLON2 8-10 ::\x0atCONSTANT 10-12 B\xff\x00\x0atEQL 13-14 =\x0atINTEGER 15-16 1\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"def m; a::B\xffa, c = 1; end", shape: b"(def name=\x22m\x22)", full: b"(def name=\x22m\x22 keyword=0-3 name=4-5 end=21-24 expression=0-24)", diag: b"\x0aE 7-12 dynamic constant assignment", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-8 a\x0atCOLON2 8-10 ::\x0atCONSTANT 10-12 B\xff\x00\x0atCOMMA 12-13 ,\x0atIDENTIFIER 14-15 c\x0atEQL 16-17 =\x0atINTEGER 18-19 1\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"def m; begin; rescue => A\xffa; end; end", shape: b"(def name=\x22m\x22 body=(kw_begin statements=[]))", full: b"(def name=\x22m\x22 body=(kw_begin statements=[] begin=7-12 end=28-31 expression=7-31) keyword=0-3 name=4-5 end=33-36 expression=0-36)", diag: b"\x0aE 24-26 dynamic constant assignment", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0akBEGIN 7-12 begin\x0atSEMI 12-13 ;\x0akRESCUE 14-20 rescue\x0atASSOC 21-23 =>\x0atCONSTANT 24-26 A\xff\x00\x0atSEMI 26-27 ;\x0akEND 28-31 end\x0atSEMI 31-32 ;\x0akEND 33-36 end\x0aEOF 36-36 " },
    Rec { t: b"def m; for A\xffa in b; end; end", shape: b"(def name=\x22m\x22)", full: b"(def name=\x22m\x22 keyword=0-3 name=4-5 end=20-23 expression=0-23)", diag: b"\x0aE 11-13 dynamic constant assignment\x0aE 25-28 unexpected kEND", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0akFOR 7-10 for\x0atCONSTANT 11-13 A\xff\x00\x0akIN 14-16 in\x0atIDENTIFIER 17-18 b\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0atSEMI 23-24 ;\x0akEND 25-28 end" },
    Rec { t: b"def self.m; A\xffa = 1; end", shape: b"(defs definee=(self_) name=\x22m\x22)", full: b"(defs definee=(self_ expression=4-8) name=\x22m\x22 keyword=0-3 operator=8-9 name=9-10 end=20-23 expression=0-23)", diag: b"\x0aE 12-14 dynamic constant assignment", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-10 m\x0atSEMI 10-11 ;\x0atCONSTANT 12-14 A\xff\x00\x0atEQL 15-16 =\x0atINTEGER 17-18 1\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"def self.m; A\xffa += 1; end", shape: b"(defs definee=(self_) name=\x22m\x22)", full: b"(defs definee=(self_ expression=4-8) name=\x22m\x22 keyword=0-3 operator=8-9 name=9-10 end=21-24 expression=0-24)", diag: b"\x0aE 12-14 dynamic constant assignment", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-10 m\x0atSEMI 10-11 ;\x0atCONSTANT 12-14 A\xff\x00\x0atOP_ASGN 15-17 +=\x0atINTEGER 18-19 1\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"def m(a = (A\xffa = 1)) end", shape: b"(def name=\x22m\x22 args=(args args=[(optarg name=\x22a\x22 default=(begin statements=[]))]))", full: b"(def name=\x22m\x22 args=(args args=[(optarg name=\x22a\x22 default=(begin statements=[] begin=10-11 end=17-18 expression=10-18) name=6-7 operator=8-9 expression=6-18)] expression=5-19 begin=5-6 end=18-19) keyword=0-3 name=4-5 end=20-23 expression=0-23)", diag: b"\x0aE 11-13 dynamic constant assignment", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-7 a\x0atEQL 8-9 =\x0atLPAREN 10-11 (\x0atCONSTANT 11-13 A\xff\x00\x0atEQL 14-15 =\x0atINTEGER 16-17 1\x0atRPAREN 17-18 )\x0atRPAREN 18-19 )\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"def m; p { A\xffa = 1 }; end", shape: b"(def name=\x22m\x22)", full: b"(def name=\x22m\x22 keyword=0-3 name=4-5 end=21-24 expression=0-24)", diag: b"\x0aE 11-13 dynamic constant assignment", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-8 p\x0atLCURLY 9-10 {\x0atCONSTANT 11-13 A\xff\x00\x0atEQL 14-15 =\x0atINTEGER 16-17 1\x0atRCURLY 18-19 }\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"def m; -> { A\xffa = 1 }; end", shape: b"(def name=\x22m\x22 body=(block call=(lambda)))", full: b"(def name=\x22m\x22 body=(block call=(lambda expression=7-9) begin=10-11 end=19-20 expression=7-20) keyword=0-3 name=4-5 end=22-25 expression=0-25)", diag: b"\x0aE 12-14 dynamic constant assignment", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0atLAMBDA 7-9 ->\x0atLAMBEG 10-11 {\x0atCONSTANT 12-14 A\xff\x00\x0atEQL 15-16 =\x0atINTEGER 17-18 1\x0atRCURLY 19-20 }\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"def m = A\xffa = 1", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=13-14)", diag: b"\x0aE 8-10 dynamic constant assignment", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atEQL 6-7 =\x0atCONSTANT 8-10 A\xff\x00\x0atEQL 11-12 =\x0atINTEGER 13-14 1\x0aEOF 14-14 " },
    Rec { t: b"def m = (A\xffa = 1)", shape: b"(def name=\x22m\x22 body=(begin statements=[]))", full: b"(def name=\x22m\x22 body=(begin statements=[] begin=8-9 end=15-16 expression=8-16) keyword=0-3 name=4-5 assignment=6-7 expression=0-16)", diag: b"\x0aE 9-11 dynamic constant assignment", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atEQL 6-7 =\x0atLPAREN 8-9 (\x0atCONSTANT 9-11 A\xff\x00\x0atEQL 12-13 =\x0atINTEGER 14-15 1\x0atRPAREN 15-16 )\x0aEOF 16-16 " },
    Rec { t: b"def m; class << self; A\xffa = 1; end; end", shape: b"(def name=\x22m\x22 body=(s_class expr=(self_) body=(casgn name=\x22A\xff\x00\x22 value=(int value=\x221\x22))))", full: b"(def name=\x22m\x22 body=(s_class expr=(self_ expression=16-20) body=(casgn name=\x22A\xff\x00\x22 value=(int value=\x221\x22 expression=27-28) name=22-24 operator=25-26 expression=22-28) keyword=7-12 operator=13-15 end=30-33 expression=7-33) keyword=0-3 name=4-5 end=35-38 expression=0-38)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0akCLASS 7-12 class\x0atLSHFT 13-15 <<\x0akSELF 16-20 self\x0atSEMI 20-21 ;\x0atCONSTANT 22-24 A\xff\x00\x0atEQL 25-26 =\x0atINTEGER 27-28 1\x0atSEMI 28-29 ;\x0akEND 30-33 end\x0atSEMI 33-34 ;\x0akEND 35-38 end\x0aEOF 38-38 " },
    Rec { t: b"def m; class << self; A\xffa = 1; end; B\xffa = 1; end", shape: b"(def name=\x22m\x22)", full: b"(def name=\x22m\x22 keyword=0-3 name=4-5 end=43-46 expression=0-46)", diag: b"\x0aE 35-37 dynamic constant assignment", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0akCLASS 7-12 class\x0atLSHFT 13-15 <<\x0akSELF 16-20 self\x0atSEMI 20-21 ;\x0atCONSTANT 22-24 A\xff\x00\x0atEQL 25-26 =\x0atINTEGER 27-28 1\x0atSEMI 28-29 ;\x0akEND 30-33 end\x0atSEMI 33-34 ;\x0atCONSTANT 35-37 B\xff\x01\x0atEQL 38-39 =\x0atINTEGER 40-41 1\x0atSEMI 41-42 ;\x0akEND 43-46 end\x0aEOF 46-46 " },
    Rec { t: b"def m; class << self; def k; A\xffa = 1; end; end; end", shape: b"(def name=\x22m\x22 body=(s_class expr=(self_) body=(def name=\x22k\x22)))", full: b"(def name=\x22m\x22 body=(s_class expr=(self_ expression=16-20) body=(def name=\x22k\x22 keyword=22-25 name=26-27 end=37-40 expression=22-40) keyword=7-12 operator=13-15 end=42-45 expression=7-45) keyword=0-3 name=4-5 end=47-50 expression=0-50)", diag: b"\x0aE 29-31 dynamic constant assignment", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0akCLASS 7-12 class\x0atLSHFT 13-15 <<\x0akSELF 16-20 self\x0atSEMI 20-21 ;\x0akDEF 22-25 def\x0atIDENTIFIER 26-27 k\x0atSEMI 27-28 ;\x0atCONSTANT 29-31 A\xff\x00\x0atEQL 32-33 =\x0atINTEGER 34-35 1\x0atSEMI 35-36 ;\x0akEND 37-40 end\x0atSEMI 40-41 ;\x0akEND 42-45 end\x0atSEMI 45-46 ;\x0akEND 47-50 end\x0aEOF 50-50 " },
    Rec { t: b"def m; self.a = 1; end; A\xffa = 1", shape: b"(begin statements=[(def name=\x22m\x22 body=(send recv=(self_) method_name=\x22a=\x22 args=[(int value=\x221\x22)])) (casgn name=\x22A\xff\x00\x22 value=(int value=\x221\x22))])", full: b"(begin statements=[(def name=\x22m\x22 body=(send recv=(self_ expression=7-11) method_name=\x22a=\x22 args=[(int value=\x221\x22 expression=16-17)] dot=11-12 selector=12-13 operator=14-15 expression=7-17) keyword=0-3 name=4-5 end=19-22 expression=0-22) (casgn name=\x22A\xff\x00\x22 value=(int value=\x221\x22 expression=29-30) name=24-26 operator=27-28 expression=24-30)] expression=0-30)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0akSELF 7-11 self\x0atDOT 11-12 .\x0atIDENTIFIER 12-13 a\x0atEQL 14-15 =\x0atINTEGER 16-17 1\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0atSEMI 22-23 ;\x0atCONSTANT 24-26 A\xff\x00\x0atEQL 27-28 =\x0atINTEGER 29-30 1\x0aEOF 30-30 " },
    Rec { t: b"def m; A\xffa == 1; end", shape: b"(def name=\x22m\x22 body=(send recv=(const name=\x22A\xff\x00\x22) method_name=\x22==\x22 args=[(int value=\x221\x22)]))", full: b"(def name=\x22m\x22 body=(send recv=(const name=\x22A\xff\x00\x22 name=7-9 expression=7-9) method_name=\x22==\x22 args=[(int value=\x221\x22 expression=13-14)] selector=10-12 expression=7-14) keyword=0-3 name=4-5 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0atCONSTANT 7-9 A\xff\x00\x0atEQ 10-12 ==\x0atINTEGER 13-14 1\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"def m; A\xffa.b = 1; end", shape: b"(def name=\x22m\x22 body=(send recv=(const name=\x22A\xff\x00\x22) method_name=\x22b=\x22 args=[(int value=\x221\x22)]))", full: b"(def name=\x22m\x22 body=(send recv=(const name=\x22A\xff\x00\x22 name=7-9 expression=7-9) method_name=\x22b=\x22 args=[(int value=\x221\x22 expression=14-15)] dot=9-10 selector=10-11 operator=12-13 expression=7-15) keyword=0-3 name=4-5 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0atCONSTANT 7-9 A\xff\x00\x0atDOT 9-10 .\x0atIDENTIFIER 10-11 b\x0atEQL 12-13 =\x0atINTEGER 14-15 1\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"def m; A\xffa[1] = 1; end", shape: b"(def name=\x22m\x22 body=(index_asgn recv=(const name=\x22A\xff\x00\x22) indexes=[(int value=\x221\x22)] value=(int value=\x221\x22)))", full: b"(def name=\x22m\x22 body=(index_asgn recv=(const name=\x22A\xff\x00\x22 name=7-9 expression=7-9) indexes=[(int value=\x221\x22 expression=10-11)] value=(int value=\x221\x22 expression=15-16) begin=9-10 end=11-12 operator=13-14 expression=7-16) keyword=0-3 name=4-5 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0atCONSTANT 7-9 A\xff\x00\x0atLBRACK2 9-10 [\x0atINTEGER 10-11 1\x0atRBRACK 11-12 ]\x0atEQL 13-14 =\x0atINTEGER 15-16 1\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"def m; a(A\xffa: 1); end", shape: b"(def name=\x22m\x22 body=(send method_name=\x22a\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22A\xff\x00\x22) value=(int value=\x221\x22))])]))", full: b"(def name=\x22m\x22 body=(send method_name=\x22a\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22A\xff\x00\x22 expression=9-11) value=(int value=\x221\x22 expression=13-14) operator=11-12 expression=9-14)] expression=9-14)] selector=7-8 begin=8-9 end=14-15 expression=7-15) keyword=0-3 name=4-5 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-8 a\x0atLPAREN2 8-9 (\x0atLABEL 9-12 A\xff\x00\x0atINTEGER 13-14 1\x0atRPAREN 14-15 )\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"def m; def k; end; A\xffa = 1; end", shape: b"(def name=\x22m\x22)", full: b"(def name=\x22m\x22 keyword=0-3 name=4-5 end=27-30 expression=0-30)", diag: b"\x0aE 19-21 dynamic constant assignment", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0akDEF 7-10 def\x0atIDENTIFIER 11-12 k\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0atSEMI 17-18 ;\x0atCONSTANT 19-21 A\xff\x00\x0atEQL 22-23 =\x0atINTEGER 24-25 1\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"def m; def self.k; end; A\xffa = 1; end", shape: b"(def name=\x22m\x22)", full: b"(def name=\x22m\x22 keyword=0-3 name=4-5 end=32-35 expression=0-35)", diag: b"\x0aE 24-26 dynamic constant assignment", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0akDEF 7-10 def\x0akSELF 11-15 self\x0atDOT 15-16 .\x0atIDENTIFIER 16-17 k\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0atSEMI 22-23 ;\x0atCONSTANT 24-26 A\xff\x00\x0atEQL 27-28 =\x0atINTEGER 29-30 1\x0atSEMI 30-31 ;\x0akEND 32-35 end\x0aEOF 35-35 " },
    Rec { t: b"A\xffa = 1; def m; end; B\xffa = 1", shape: b"(begin statements=[(casgn name=\x22A\xff\x00\x22 value=(int value=\x221\x22)) (def name=\x22m\x22) (casgn name=\x22B\xff\x01\x22 value=(int value=\x221\x22))])", full: b"(begin statements=[(casgn name=\x22A\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (def name=\x22m\x22 keyword=8-11 name=12-13 end=15-18 expression=8-18) (casgn name=\x22B\xff\x01\x22 value=(int value=\x221\x22 expression=25-26) name=20-22 operator=23-24 expression=20-26)] expression=0-26)", diag: b"", toks: b"\x0atCONSTANT 0-2 A\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0akDEF 8-11 def\x0atIDENTIFIER 12-13 m\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0atSEMI 18-19 ;\x0atCONSTANT 20-22 B\xff\x01\x0atEQL 23-24 =\x0atINTEGER 25-26 1\x0aEOF 26-26 " },
    Rec { t: b"class A; B\xffa = 1; end", shape: b"(class name=(const name=\x22A\x22) body=(casgn name=\x22B\xff\x00\x22 value=(int value=\x221\x22)))", full: b"(class name=(const name=\x22A\x22 name=6-7 expression=6-7) body=(casgn name=\x22B\xff\x00\x22 value=(int value=\x221\x22 expression=14-15) name=9-11 operator=12-13 expression=9-15) keyword=0-5 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-7 A\x0atSEMI 7-8 ;\x0atCONSTANT 9-11 B\xff\x00\x0atEQL 12-13 =\x0atINTEGER 14-15 1\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"class A; def m; end; B\xffa = 1; end", shape: b"(class name=(const name=\x22A\x22) body=(begin statements=[(def name=\x22m\x22) (casgn name=\x22B\xff\x00\x22 value=(int value=\x221\x22))]))", full: b"(class name=(const name=\x22A\x22 name=6-7 expression=6-7) body=(begin statements=[(def name=\x22m\x22 keyword=9-12 name=13-14 end=16-19 expression=9-19) (casgn name=\x22B\xff\x00\x22 value=(int value=\x221\x22 expression=26-27) name=21-23 operator=24-25 expression=21-27)] expression=9-27) keyword=0-5 end=29-32 expression=0-32)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-7 A\x0atSEMI 7-8 ;\x0akDEF 9-12 def\x0atIDENTIFIER 13-14 m\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0atSEMI 19-20 ;\x0atCONSTANT 21-23 B\xff\x00\x0atEQL 24-25 =\x0atINTEGER 26-27 1\x0atSEMI 27-28 ;\x0akEND 29-32 end\x0aEOF 32-32 " },
    Rec { t: b"module A; B\xffa = 1; def self.m; end; C\xffa ||= 1; end", shape: b"(module name=(const name=\x22A\x22) body=(begin statements=[(casgn name=\x22B\xff\x00\x22 value=(int value=\x221\x22)) (defs definee=(self_) name=\x22m\x22) (or_asgn recv=(casgn name=\x22C\xff\x01\x22) value=(int value=\x221\x22))]))", full: b"(module name=(const name=\x22A\x22 name=7-8 expression=7-8) body=(begin statements=[(casgn name=\x22B\xff\x00\x22 value=(int value=\x221\x22 expression=15-16) name=10-12 operator=13-14 expression=10-16) (defs definee=(self_ expression=22-26) name=\x22m\x22 keyword=18-21 operator=26-27 name=27-28 end=30-33 expression=18-33) (or_asgn recv=(casgn name=\x22C\xff\x01\x22 name=35-37 expression=35-37) value=(int value=\x221\x22 expression=42-43) operator=38-41 expression=35-43)] expression=10-43) keyword=0-6 end=45-48 expression=0-48)", diag: b"", toks: b"\x0akMODULE 0-6 module\x0atCONSTANT 7-8 A\x0atSEMI 8-9 ;\x0atCONSTANT 10-12 B\xff\x00\x0atEQL 13-14 =\x0atINTEGER 15-16 1\x0atSEMI 16-17 ;\x0akDEF 18-21 def\x0akSELF 22-26 self\x0atDOT 26-27 .\x0atIDENTIFIER 27-28 m\x0atSEMI 28-29 ;\x0akEND 30-33 end\x0atSEMI 33-34 ;\x0atCONSTANT 35-37 C\xff\x01\x0atOP_ASGN 38-41 ||=\x0atINTEGER 42-43 1\x0atSEMI 43-44 ;\x0akEND 45-48 end\x0aEOF 48-48 " },
    Rec { t: b"m { A\xffa = 1 }", shape: b"(block call=(send method_name=\x22m\x22 args=[]) body=(casgn name=\x22A\xff\x00\x22 value=(int value=\x221\x22)))", full: b"(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) body=(casgn name=\x22A\xff\x00\x22 value=(int value=\x221\x22 expression=9-10) name=4-6 operator=7-8 expression=4-10) begin=2-3 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atCONSTANT 4-6 A\xff\x00\x0atEQL 7-8 =\x0atINTEGER 9-10 1\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"-> { A\xffa = 1 }", shape: b"(block call=(lambda) body=(casgn name=\x22A\xff\x00\x22 value=(int value=\x221\x22)))", full: b"(block call=(lambda expression=0-2) body=(casgn name=\x22A\xff\x00\x22 value=(int value=\x221\x22 expression=10-11) name=5-7 operator=8-9 expression=5-11) begin=3-4 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLAMBEG 3-4 {\x0atCONSTANT 5-7 A\xff\x00\x0atEQL 8-9 =\x0atINTEGER 10-11 1\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"def m() = 1; A\xffa = 1", shape: b"(begin statements=[(def name=\x22m\x22 args=(args args=[]) body=(int value=\x221\x22)) (casgn name=\x22A\xff\x00\x22 value=(int value=\x221\x22))])", full: b"(begin statements=[(def name=\x22m\x22 args=(args args=[] expression=5-7 begin=5-6 end=6-7) body=(int value=\x221\x22 expression=10-11) keyword=0-3 name=4-5 assignment=8-9 expression=0-11) (casgn name=\x22A\xff\x00\x22 value=(int value=\x221\x22 expression=18-19) name=13-15 operator=16-17 expression=13-19)] expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atRPAREN 6-7 )\x0atEQL 8-9 =\x0atINTEGER 10-11 1\x0atSEMI 11-12 ;\x0atCONSTANT 13-15 A\xff\x00\x0atEQL 16-17 =\x0atINTEGER 18-19 1\x0aEOF 19-19 " },
    Rec { t: b"def self.m() = 1; A\xffa = 1", shape: b"(begin statements=[(defs definee=(self_) name=\x22m\x22 args=(args args=[]) body=(int value=\x221\x22)) (casgn name=\x22A\xff\x00\x22 value=(int value=\x221\x22))])", full: b"(begin statements=[(defs definee=(self_ expression=4-8) name=\x22m\x22 args=(args args=[] expression=10-12 begin=10-11 end=11-12) body=(int value=\x221\x22 expression=15-16) keyword=0-3 operator=8-9 name=9-10 assignment=13-14 expression=0-16) (casgn name=\x22A\xff\x00\x22 value=(int value=\x221\x22 expression=23-24) name=18-20 operator=21-22 expression=18-24)] expression=0-24)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-10 m\x0atLPAREN2 10-11 (\x0atRPAREN 11-12 )\x0atEQL 13-14 =\x0atINTEGER 15-16 1\x0atSEMI 16-17 ;\x0atCONSTANT 18-20 A\xff\x00\x0atEQL 21-22 =\x0atINTEGER 23-24 1\x0aEOF 24-24 " },
    Rec { t: b"def m(a) = a { |b| b }; A\xffa = 1", shape: b"(begin statements=[(def name=\x22m\x22 args=(args args=[(arg name=\x22a\x22)]) body=(block call=(send method_name=\x22a\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22b\x22)])]) body=(lvar name=\x22b\x22))) (casgn name=\x22A\xff\x00\x22 value=(int value=\x221\x22))])", full: b"(begin statements=[(def name=\x22m\x22 args=(args args=[(arg name=\x22a\x22 expression=6-7)] expression=5-8 begin=5-6 end=7-8) body=(block call=(send method_name=\x22a\x22 args=[] selector=11-12 expression=11-12) args=(args args=[(procarg0 args=[(arg name=\x22b\x22 expression=16-17)] expression=16-17)] expression=15-18 begin=15-16 end=17-18) body=(lvar name=\x22b\x22 expression=19-20) begin=13-14 end=21-22 expression=11-22) keyword=0-3 name=4-5 assignment=9-10 expression=0-22) (casgn name=\x22A\xff\x00\x22 value=(int value=\x221\x22 expression=29-30) name=24-26 operator=27-28 expression=24-30)] expression=0-30)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-7 a\x0atRPAREN 7-8 )\x0atEQL 9-10 =\x0atIDENTIFIER 11-12 a\x0atLCURLY 13-14 {\x0atPIPE 15-16 |\x0atIDENTIFIER 16-17 b\x0atPIPE 17-18 |\x0atIDENTIFIER 19-20 b\x0atRCURLY 21-22 }\x0atSEMI 22-23 ;\x0atCONSTANT 24-26 A\xff\x00\x0atEQL 27-28 =\x0atINTEGER 29-30 1\x0aEOF 30-30 " },
    Rec { t: b"def m; class A\xffa; end; end", shape: b"(def name=\x22m\x22)", full: b"(def name=\x22m\x22 keyword=0-3 name=4-5 end=22-25 expression=0-25)", diag: b"\x0aE 7-12 class definition in method body", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0akCLASS 7-12 class\x0atCONSTANT 13-15 A\xff\x00\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"def m; module A\xffa; end; end", shape: b"(def name=\x22m\x22)", full: b"(def name=\x22m\x22 keyword=0-3 name=4-5 end=23-26 expression=0-26)", diag: b"\x0aE 7-13 module definition in method body", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0akMODULE 7-13 module\x0atCONSTANT 14-16 A\xff\x00\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"def m; p { class A\xffa; end }; end", shape: b"(def name=\x22m\x22 body=(block call=(send method_name=\x22p\x22 args=[])))", full: b"(def name=\x22m\x22 body=(block call=(send method_name=\x22p\x22 args=[] selector=7-8 expression=7-8) begin=9-10 end=25-26 expression=7-26) keyword=0-3 name=4-5 end=28-31 expression=0-31)", diag: b"\x0aE 11-16 class definition in method body", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-8 p\x0atLCURLY 9-10 {\x0akCLASS 11-16 class\x0atCONSTANT 17-19 A\xff\x00\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0atRCURLY 25-26 }\x0atSEMI 26-27 ;\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"def self.m; class A\xffa; end; end", shape: b"(defs definee=(self_) name=\x22m\x22)", full: b"(defs definee=(self_ expression=4-8) name=\x22m\x22 keyword=0-3 operator=8-9 name=9-10 end=27-30 expression=0-30)", diag: b"\x0aE 12-17 class definition in method body", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-10 m\x0atSEMI 10-11 ;\x0akCLASS 12-17 class\x0atCONSTANT 18-20 A\xff\x00\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"def self.m; module A::B\xffa; end; end", shape: b"(defs definee=(self_) name=\x22m\x22)", full: b"(defs definee=(self_ expression=4-8) name=\x22m\x22 keyword=0-3 operator=8-9 name=9-10 end=31-34 expression=0-34)", diag: b"\x0aE 12-18 module definition in method body", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-10 m\x0atSEMI 10-11 ;\x0akMODULE 12-18 module\x0atCONSTANT 19-20 A\x0atCOLON2 20-22 ::\x0atCONSTANT 22-24 B\xff\x00\x0atSEMI 24-25 ;\x0akEND 26-29 end\x0atSEMI 29-30 ;\x0akEND 31-34 end\x0aEOF 34-34 " },
    Rec { t: b"def m; if a; class A\xffa; end; end; end", shape: b"(def name=\x22m\x22 body=(if cond=(send method_name=\x22a\x22 args=[])))", full: b"(def name=\x22m\x22 body=(if cond=(send method_name=\x22a\x22 args=[] selector=10-11 expression=10-11) keyword=7-9 begin=11-12 end=28-31 expression=7-31) keyword=0-3 name=4-5 end=33-36 expression=0-36)", diag: b"\x0aE 13-18 class definition in method body", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0akIF 7-9 if\x0atIDENTIFIER 10-11 a\x0atSEMI 11-12 ;\x0akCLASS 13-18 class\x0atCONSTANT 19-21 A\xff\x00\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0atSEMI 26-27 ;\x0akEND 28-31 end\x0atSEMI 31-32 ;\x0akEND 33-36 end\x0aEOF 36-36 " },
    Rec { t: b"def m; class << self; def k; class A\xffa; end; end; end; end", shape: b"(def name=\x22m\x22 body=(s_class expr=(self_) body=(def name=\x22k\x22)))", full: b"(def name=\x22m\x22 body=(s_class expr=(self_ expression=16-20) body=(def name=\x22k\x22 keyword=22-25 name=26-27 end=44-47 expression=22-47) keyword=7-12 operator=13-15 end=49-52 expression=7-52) keyword=0-3 name=4-5 end=54-57 expression=0-57)", diag: b"\x0aE 29-34 class definition in method body", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0akCLASS 7-12 class\x0atLSHFT 13-15 <<\x0akSELF 16-20 self\x0atSEMI 20-21 ;\x0akDEF 22-25 def\x0atIDENTIFIER 26-27 k\x0atSEMI 27-28 ;\x0akCLASS 29-34 class\x0atCONSTANT 35-37 A\xff\x00\x0atSEMI 37-38 ;\x0akEND 39-42 end\x0atSEMI 42-43 ;\x0akEND 44-47 end\x0atSEMI 47-48 ;\x0akEND 49-52 end\x0atSEMI 52-53 ;\x0akEND 54-57 end\x0aEOF 57-57 " },
    Rec { t: b"def m; class << self; end; end", shape: b"(def name=\x22m\x22 body=(s_class expr=(self_)))", full: b"(def name=\x22m\x22 body=(s_class expr=(self_ expression=16-20) keyword=7-12 operator=13-15 end=22-25 expression=7-25) keyword=0-3 name=4-5 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0akCLASS 7-12 class\x0atLSHFT 13-15 <<\x0akSELF 16-20 self\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"def m; class << self; class A\xffa; end; end; end", shape: b"(def name=\x22m\x22 body=(s_class expr=(self_) body=(class name=(const name=\x22A\xff\x00\x22))))", full: b"(def name=\x22m\x22 body=(s_class expr=(self_ expression=16-20) body=(class name=(const name=\x22A\xff\x00\x22 name=28-30 expression=28-30) keyword=22-27 end=32-35 expression=22-35) keyword=7-12 operator=13-15 end=37-40 expression=7-40) keyword=0-3 name=4-5 end=42-45 expression=0-45)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0akCLASS 7-12 class\x0atLSHFT 13-15 <<\x0akSELF 16-20 self\x0atSEMI 20-21 ;\x0akCLASS 22-27 class\x0atCONSTANT 28-30 A\xff\x00\x0atSEMI 30-31 ;\x0akEND 32-35 end\x0atSEMI 35-36 ;\x0akEND 37-40 end\x0atSEMI 40-41 ;\x0akEND 42-45 end\x0aEOF 45-45 " },
    Rec { t: b"def m; class << self; module A\xffa; end; end; end", shape: b"(def name=\x22m\x22 body=(s_class expr=(self_) body=(module name=(const name=\x22A\xff\x00\x22))))", full: b"(def name=\x22m\x22 body=(s_class expr=(self_ expression=16-20) body=(module name=(const name=\x22A\xff\x00\x22 name=29-31 expression=29-31) keyword=22-28 end=33-36 expression=22-36) keyword=7-12 operator=13-15 end=38-41 expression=7-41) keyword=0-3 name=4-5 end=43-46 expression=0-46)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0akCLASS 7-12 class\x0atLSHFT 13-15 <<\x0akSELF 16-20 self\x0atSEMI 20-21 ;\x0akMODULE 22-28 module\x0atCONSTANT 29-31 A\xff\x00\x0atSEMI 31-32 ;\x0akEND 33-36 end\x0atSEMI 36-37 ;\x0akEND 38-41 end\x0atSEMI 41-42 ;\x0akEND 43-46 end\x0aEOF 46-46 " },
    Rec { t: b"def m; end; class A\xffa; end", shape: b"(begin statements=[(def name=\x22m\x22) (class name=(const name=\x22A\xff\x00\x22))])", full: b"(begin statements=[(def name=\x22m\x22 keyword=0-3 name=4-5 end=7-10 expression=0-10) (class name=(const name=\x22A\xff\x00\x22 name=18-20 expression=18-20) keyword=12-17 end=22-25 expression=12-25)] expression=0-25)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0akEND 7-10 end\x0atSEMI 10-11 ;\x0akCLASS 12-17 class\x0atCONSTANT 18-20 A\xff\x00\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"class A; class B\xffa; end; module C\xffa; end; end", shape: b"(class name=(const name=\x22A\x22) body=(begin statements=[(class name=(const name=\x22B\xff\x00\x22)) (module name=(const name=\x22C\xff\x01\x22))]))", full: b"(class name=(const name=\x22A\x22 name=6-7 expression=6-7) body=(begin statements=[(class name=(const name=\x22B\xff\x00\x22 name=15-17 expression=15-17) keyword=9-14 end=19-22 expression=9-22) (module name=(const name=\x22C\xff\x01\x22 name=31-33 expression=31-33) keyword=24-30 end=35-38 expression=24-38)] expression=9-38) keyword=0-5 end=40-43 expression=0-43)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-7 A\x0atSEMI 7-8 ;\x0akCLASS 9-14 class\x0atCONSTANT 15-17 B\xff\x00\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0atSEMI 22-23 ;\x0akMODULE 24-30 module\x0atCONSTANT 31-33 C\xff\x01\x0atSEMI 33-34 ;\x0akEND 35-38 end\x0atSEMI 38-39 ;\x0akEND 40-43 end\x0aEOF 43-43 " },
    Rec { t: b"p { class A\xffa; end }", shape: b"(block call=(send method_name=\x22p\x22 args=[]) body=(class name=(const name=\x22A\xff\x00\x22)))", full: b"(block call=(send method_name=\x22p\x22 args=[] selector=0-1 expression=0-1) body=(class name=(const name=\x22A\xff\x00\x22 name=10-12 expression=10-12) keyword=4-9 end=14-17 expression=4-17) begin=2-3 end=18-19 expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 p\x0atLCURLY 2-3 {\x0akCLASS 4-9 class\x0atCONSTANT 10-12 A\xff\x00\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0atRCURLY 18-19 }\x0aEOF 19-19 " },
    Rec { t: b"class A; def m; end; class B\xffa; end; end", shape: b"(class name=(const name=\x22A\x22) body=(begin statements=[(def name=\x22m\x22) (class name=(const name=\x22B\xff\x00\x22))]))", full: b"(class name=(const name=\x22A\x22 name=6-7 expression=6-7) body=(begin statements=[(def name=\x22m\x22 keyword=9-12 name=13-14 end=16-19 expression=9-19) (class name=(const name=\x22B\xff\x00\x22 name=27-29 expression=27-29) keyword=21-26 end=31-34 expression=21-34)] expression=9-34) keyword=0-5 end=36-39 expression=0-39)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-7 A\x0atSEMI 7-8 ;\x0akDEF 9-12 def\x0atIDENTIFIER 13-14 m\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0atSEMI 19-20 ;\x0akCLASS 21-26 class\x0atCONSTANT 27-29 B\xff\x00\x0atSEMI 29-30 ;\x0akEND 31-34 end\x0atSEMI 34-35 ;\x0akEND 36-39 end\x0aEOF 39-39 " },
    Rec { t: b"class a\xffa; end", shape: b"none", full: b"none", diag: b"\x0aE 6-8 class/module name must be CONSTANT", toks: b"\x0akCLASS 0-5 class\x0atIDENTIFIER 6-8 a\xff\x00\x0atSEMI 8-9 ;\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"class self::a\xffa; end", shape: b"none", full: b"none", diag: b"\x0aE 12-14 class/module name must be CONSTANT", toks: b"\x0akCLASS 0-5 class\x0akSELF 6-10 self\x0atCOLON2 10-12 ::\x0atIDENTIFIER 12-14 a\xff\x00\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"module a\xffa; end", shape: b"none", full: b"none", diag: b"\x0aE 7-9 class/module name must be CONSTANT", toks: b"\x0akMODULE 0-6 module\x0atIDENTIFIER 7-9 a\xff\x00\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"class A::a\xffa; end", shape: b"none", full: b"none", diag: b"\x0aE 9-11 class/module name must be CONSTANT", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-7 A\x0atCOLON2 7-9 ::\x0atIDENTIFIER 9-11 a\xff\x00\x0atSEMI 11-12 ;\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"class ::a\xffa; end", shape: b"none", full: b"none", diag: b"\x0aE 8-10 class/module name must be CONSTANT", toks: b"\x0akCLASS 0-5 class\x0atCOLON3 6-8 ::\x0atIDENTIFIER 8-10 a\xff\x00\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"class 1; end", shape: b"none", full: b"none", diag: b"\x0aE 7-8 unexpected tSEMI", toks: b"\x0akCLASS 0-5 class\x0atINTEGER 6-7 1\x0atSEMI 7-8 ;\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"module @a\xffa; end", shape: b"none", full: b"none", diag: b"\x0aE 10-11 unexpected tSEMI", toks: b"\x0akMODULE 0-6 module\x0atIVAR 7-10 @a\xff\x00\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"class a\xffa < B; end", shape: b"(const name=\x22B\x22)", full: b"(const name=\x22B\x22 name=11-12 expression=11-12)", diag: b"\x0aE 6-8 class/module name must be CONSTANT", toks: b"\x0akCLASS 0-5 class\x0atIDENTIFIER 6-8 a\xff\x00\x0atLT 9-10 <\x0atCONSTANT 11-12 B\x0atSEMI 12-13 ;\x0akEND 14-17 end" },
    Rec { t: b"class @a\xffa; end", shape: b"none", full: b"none", diag: b"\x0aE 9-10 unexpected tSEMI", toks: b"\x0akCLASS 0-5 class\x0atIVAR 6-9 @a\xff\x00\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"class a\xffa::B\xffa; end", shape: b"(class name=(const scope=(send method_name=\x22a\xff\x00\x22 args=[]) name=\x22B\xff\x01\x22))", full: b"(class name=(const scope=(send method_name=\x22a\xff\x00\x22 args=[] selector=6-8 expression=6-8) name=\x22B\xff\x01\x22 double_colon=8-10 name=10-12 expression=6-12) keyword=0-5 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atIDENTIFIER 6-8 a\xff\x00\x0atCOLON2 8-10 ::\x0atCONSTANT 10-12 B\xff\x01\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"class ::A\xffa; end", shape: b"(class name=(const scope=(cbase) name=\x22A\xff\x00\x22))", full: b"(class name=(const scope=(cbase expression=6-8) name=\x22A\xff\x00\x22 double_colon=6-8 name=8-10 expression=6-10) keyword=0-5 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCOLON3 6-8 ::\x0atCONSTANT 8-10 A\xff\x00\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"class A::B\xffa < c\xffa; end", shape: b"(class name=(const scope=(const name=\x22A\x22) name=\x22B\xff\x00\x22) superclass=(send method_name=\x22c\xff\x01\x22 args=[]))", full: b"(class name=(const scope=(const name=\x22A\x22 name=6-7 expression=6-7) name=\x22B\xff\x00\x22 double_colon=7-9 name=9-11 expression=6-11) superclass=(send method_name=\x22c\xff\x01\x22 args=[] selector=14-16 expression=14-16) keyword=0-5 operator=12-13 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-7 A\x0atCOLON2 7-9 ::\x0atCONSTANT 9-11 B\xff\x00\x0atLT 12-13 <\x0atIDENTIFIER 14-16 c\xff\x01\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"module a\xffa::B\xffa; end", shape: b"(module name=(const scope=(send method_name=\x22a\xff\x00\x22 args=[]) name=\x22B\xff\x01\x22))", full: b"(module name=(const scope=(send method_name=\x22a\xff\x00\x22 args=[] selector=7-9 expression=7-9) name=\x22B\xff\x01\x22 double_colon=9-11 name=11-13 expression=7-13) keyword=0-6 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akMODULE 0-6 module\x0atIDENTIFIER 7-9 a\xff\x00\x0atCOLON2 9-11 ::\x0atCONSTANT 11-13 B\xff\x01\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"class << a\xffa; end", shape: b"(s_class expr=(send method_name=\x22a\xff\x00\x22 args=[]))", full: b"(s_class expr=(send method_name=\x22a\xff\x00\x22 args=[] selector=9-11 expression=9-11) keyword=0-5 operator=6-8 end=13-16 expression=0-16)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atLSHFT 6-8 <<\x0atIDENTIFIER 9-11 a\xff\x00\x0atSEMI 11-12 ;\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"class A\xffa; return; end", shape: b"(class name=(const name=\x22A\xff\x00\x22))", full: b"(class name=(const name=\x22A\xff\x00\x22 name=6-8 expression=6-8) keyword=0-5 end=18-21 expression=0-21)", diag: b"\x0aE 10-16 Invalid return in class/module body", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 A\xff\x00\x0atSEMI 8-9 ;\x0akRETURN 10-16 return\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"class A\xffa; return 1; end", shape: b"(class name=(const name=\x22A\xff\x00\x22))", full: b"(class name=(const name=\x22A\xff\x00\x22 name=6-8 expression=6-8) keyword=0-5 end=20-23 expression=0-23)", diag: b"\x0aE 10-16 Invalid return in class/module body", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 A\xff\x00\x0atSEMI 8-9 ;\x0akRETURN 10-16 return\x0atINTEGER 17-18 1\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"module A\xffa; return; end", shape: b"(module name=(const name=\x22A\xff\x00\x22))", full: b"(module name=(const name=\x22A\xff\x00\x22 name=7-9 expression=7-9) keyword=0-6 end=19-22 expression=0-22)", diag: b"\x0aE 11-17 Invalid return in class/module body", toks: b"\x0akMODULE 0-6 module\x0atCONSTANT 7-9 A\xff\x00\x0atSEMI 9-10 ;\x0akRETURN 11-17 return\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"class A; if b; return; end; end", shape: b"(class name=(const name=\x22A\x22) body=(if cond=(send method_name=\x22b\x22 args=[])))", full: b"(class name=(const name=\x22A\x22 name=6-7 expression=6-7) body=(if cond=(send method_name=\x22b\x22 args=[] selector=12-13 expression=12-13) keyword=9-11 begin=13-14 end=23-26 expression=9-26) keyword=0-5 end=28-31 expression=0-31)", diag: b"\x0aE 15-21 Invalid return in class/module body", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-7 A\x0atSEMI 7-8 ;\x0akIF 9-11 if\x0atIDENTIFIER 12-13 b\x0atSEMI 13-14 ;\x0akRETURN 15-21 return\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0atSEMI 26-27 ;\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"class A; begin; return; end; end", shape: b"(class name=(const name=\x22A\x22) body=(kw_begin statements=[]))", full: b"(class name=(const name=\x22A\x22 name=6-7 expression=6-7) body=(kw_begin statements=[] begin=9-14 end=24-27 expression=9-27) keyword=0-5 end=29-32 expression=0-32)", diag: b"\x0aE 16-22 Invalid return in class/module body", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-7 A\x0atSEMI 7-8 ;\x0akBEGIN 9-14 begin\x0atSEMI 14-15 ;\x0akRETURN 16-22 return\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0atSEMI 27-28 ;\x0akEND 29-32 end\x0aEOF 32-32 " },
    Rec { t: b"class A; module B; return; end; end", shape: b"(class name=(const name=\x22A\x22) body=(module name=(const name=\x22B\x22)))", full: b"(class name=(const name=\x22A\x22 name=6-7 expression=6-7) body=(module name=(const name=\x22B\x22 name=16-17 expression=16-17) keyword=9-15 end=27-30 expression=9-30) keyword=0-5 end=32-35 expression=0-35)", diag: b"\x0aE 19-25 Invalid return in class/module body", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-7 A\x0atSEMI 7-8 ;\x0akMODULE 9-15 module\x0atCONSTANT 16-17 B\x0atSEMI 17-18 ;\x0akRETURN 19-25 return\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0atSEMI 30-31 ;\x0akEND 32-35 end\x0aEOF 35-35 " },
    Rec { t: b"class A; def m; return; end; end", shape: b"(class name=(const name=\x22A\x22) body=(def name=\x22m\x22 body=(return args=[])))", full: b"(class name=(const name=\x22A\x22 name=6-7 expression=6-7) body=(def name=\x22m\x22 body=(return args=[] keyword=16-22 expression=16-22) keyword=9-12 name=13-14 end=24-27 expression=9-27) keyword=0-5 end=29-32 expression=0-32)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-7 A\x0atSEMI 7-8 ;\x0akDEF 9-12 def\x0atIDENTIFIER 13-14 m\x0atSEMI 14-15 ;\x0akRETURN 16-22 return\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0atSEMI 27-28 ;\x0akEND 29-32 end\x0aEOF 32-32 " },
    Rec { t: b"class A; -> { return }; end", shape: b"(class name=(const name=\x22A\x22) body=(block call=(lambda) body=(return args=[])))", full: b"(class name=(const name=\x22A\x22 name=6-7 expression=6-7) body=(block call=(lambda expression=9-11) body=(return args=[] keyword=14-20 expression=14-20) begin=12-13 end=21-22 expression=9-22) keyword=0-5 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-7 A\x0atSEMI 7-8 ;\x0atLAMBDA 9-11 ->\x0atLAMBEG 12-13 {\x0akRETURN 14-20 return\x0atRCURLY 21-22 }\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"class A; p { return }; end", shape: b"(class name=(const name=\x22A\x22) body=(block call=(send method_name=\x22p\x22 args=[]) body=(return args=[])))", full: b"(class name=(const name=\x22A\x22 name=6-7 expression=6-7) body=(block call=(send method_name=\x22p\x22 args=[] selector=9-10 expression=9-10) body=(return args=[] keyword=13-19 expression=13-19) begin=11-12 end=20-21 expression=9-21) keyword=0-5 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-7 A\x0atSEMI 7-8 ;\x0atIDENTIFIER 9-10 p\x0atLCURLY 11-12 {\x0akRETURN 13-19 return\x0atRCURLY 20-21 }\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"class << self; return; end", shape: b"(s_class expr=(self_) body=(return args=[]))", full: b"(s_class expr=(self_ expression=9-13) body=(return args=[] keyword=15-21 expression=15-21) keyword=0-5 operator=6-8 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atLSHFT 6-8 <<\x0akSELF 9-13 self\x0atSEMI 13-14 ;\x0akRETURN 15-21 return\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"def m; class << self; return; end; end", shape: b"(def name=\x22m\x22 body=(s_class expr=(self_) body=(return args=[])))", full: b"(def name=\x22m\x22 body=(s_class expr=(self_ expression=16-20) body=(return args=[] keyword=22-28 expression=22-28) keyword=7-12 operator=13-15 end=30-33 expression=7-33) keyword=0-3 name=4-5 end=35-38 expression=0-38)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0akCLASS 7-12 class\x0atLSHFT 13-15 <<\x0akSELF 16-20 self\x0atSEMI 20-21 ;\x0akRETURN 22-28 return\x0atSEMI 28-29 ;\x0akEND 30-33 end\x0atSEMI 33-34 ;\x0akEND 35-38 end\x0aEOF 38-38 " },
    Rec { t: b"return", shape: b"(return args=[])", full: b"(return args=[] keyword=0-6 expression=0-6)", diag: b"", toks: b"\x0akRETURN 0-6 return\x0aEOF 6-6 " },
    Rec { t: b"def m; return; end", shape: b"(def name=\x22m\x22 body=(return args=[]))", full: b"(def name=\x22m\x22 body=(return args=[] keyword=7-13 expression=7-13) keyword=0-3 name=4-5 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0akRETURN 7-13 return\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"p { return }", shape: b"(block call=(send method_name=\x22p\x22 args=[]) body=(return args=[]))", full: b"(block call=(send method_name=\x22p\x22 args=[] selector=0-1 expression=0-1) body=(return args=[] keyword=4-10 expression=4-10) begin=2-3 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 p\x0atLCURLY 2-3 {\x0akRETURN 4-10 return\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"class A; end; return", shape: b"(begin statements=[(class name=(const name=\x22A\x22)) (return args=[])])", full: b"(begin statements=[(class name=(const name=\x22A\x22 name=6-7 expression=6-7) keyword=0-5 end=9-12 expression=0-12) (return args=[] keyword=14-20 expression=14-20)] expression=0-20)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-7 A\x0atSEMI 7-8 ;\x0akEND 9-12 end\x0atSEMI 12-13 ;\x0akRETURN 14-20 return\x0aEOF 20-20 " },
    Rec { t: b"class A; def m; end; end; return", shape: b"(begin statements=[(class name=(const name=\x22A\x22) body=(def name=\x22m\x22)) (return args=[])])", full: b"(begin statements=[(class name=(const name=\x22A\x22 name=6-7 expression=6-7) body=(def name=\x22m\x22 keyword=9-12 name=13-14 end=16-19 expression=9-19) keyword=0-5 end=21-24 expression=0-24) (return args=[] keyword=26-32 expression=26-32)] expression=0-32)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-7 A\x0atSEMI 7-8 ;\x0akDEF 9-12 def\x0atIDENTIFIER 13-14 m\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0atSEMI 24-25 ;\x0akRETURN 26-32 return\x0aEOF 32-32 " },
    Rec { t: b"class A; def m; return; end; return; end", shape: b"(class name=(const name=\x22A\x22))", full: b"(class name=(const name=\x22A\x22 name=6-7 expression=6-7) keyword=0-5 end=37-40 expression=0-40)", diag: b"\x0aE 29-35 Invalid return in class/module body", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-7 A\x0atSEMI 7-8 ;\x0akDEF 9-12 def\x0atIDENTIFIER 13-14 m\x0atSEMI 14-15 ;\x0akRETURN 16-22 return\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0atSEMI 27-28 ;\x0akRETURN 29-35 return\x0atSEMI 35-36 ;\x0akEND 37-40 end\x0aEOF 40-40 " },
    Rec { t: b"class A; p { return }; return; end", shape: b"(class name=(const name=\x22A\x22))", full: b"(class name=(const name=\x22A\x22 name=6-7 expression=6-7) keyword=0-5 end=31-34 expression=0-34)", diag: b"\x0aE 23-29 Invalid return in class/module body", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-7 A\x0atSEMI 7-8 ;\x0atIDENTIFIER 9-10 p\x0atLCURLY 11-12 {\x0akRETURN 13-19 return\x0atRCURLY 20-21 }\x0atSEMI 21-22 ;\x0akRETURN 23-29 return\x0atSEMI 29-30 ;\x0akEND 31-34 end\x0aEOF 34-34 " },
    Rec { t: b"BEGIN { a\xffa }", shape: b"(preexe body=(send method_name=\x22a\xff\x00\x22 args=[]))", full: b"(preexe body=(send method_name=\x22a\xff\x00\x22 args=[] selector=8-10 expression=8-10) keyword=0-5 begin=6-7 end=11-12 expression=0-12)", diag: b"", toks: b"\x0aklBEGIN 0-5 BEGIN\x0atLCURLY 6-7 {\x0atIDENTIFIER 8-10 a\xff\x00\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"def m; BEGIN { a\xffa }; end", shape: b"(def name=\x22m\x22)", full: b"(def name=\x22m\x22 keyword=0-3 name=4-5 end=21-24 expression=0-24)", diag: b"\x0aE 7-12 BEGIN is permitted only at toplevel", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0aklBEGIN 7-12 BEGIN\x0atLCURLY 13-14 {\x0atIDENTIFIER 15-17 a\xff\x00\x0atRCURLY 18-19 }\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"class A; BEGIN { a\xffa }; end", shape: b"(class name=(const name=\x22A\x22))", full: b"(class name=(const name=\x22A\x22 name=6-7 expression=6-7) keyword=0-5 end=23-26 expression=0-26)", diag: b"\x0aE 9-14 BEGIN is permitted only at toplevel", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-7 A\x0atSEMI 7-8 ;\x0aklBEGIN 9-14 BEGIN\x0atLCURLY 15-16 {\x0atIDENTIFIER 17-19 a\xff\x00\x0atRCURLY 20-21 }\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"p { BEGIN { a\xffa } }", shape: b"(send method_name=\x22a\xff\x00\x22 args=[])", full: b"(send method_name=\x22a\xff\x00\x22 args=[] selector=12-14 expression=12-14)", diag: b"\x0aE 4-9 BEGIN is permitted only at toplevel", toks: b"\x0atIDENTIFIER 0-1 p\x0atLCURLY 2-3 {\x0aklBEGIN 4-9 BEGIN\x0atLCURLY 10-11 {\x0atIDENTIFIER 12-14 a\xff\x00\x0atRCURLY 15-16 }" },
    Rec { t: b"if a; BEGIN { b }; end", shape: b"(if cond=(send method_name=\x22a\x22 args=[]))", full: b"(if cond=(send method_name=\x22a\x22 args=[] selector=3-4 expression=3-4) keyword=0-2 begin=4-5 end=19-22 expression=0-22)", diag: b"\x0aE 6-11 BEGIN is permitted only at toplevel", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-4 a\x0atSEMI 4-5 ;\x0aklBEGIN 6-11 BEGIN\x0atLCURLY 12-13 {\x0atIDENTIFIER 14-15 b\x0atRCURLY 16-17 }\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"(BEGIN { a\xffa })", shape: b"(begin statements=[])", full: b"(begin statements=[] begin=0-1 end=13-14 expression=0-14)", diag: b"\x0aE 1-6 BEGIN is permitted only at toplevel", toks: b"\x0atLPAREN 0-1 (\x0aklBEGIN 1-6 BEGIN\x0atLCURLY 7-8 {\x0atIDENTIFIER 9-11 a\xff\x00\x0atRCURLY 12-13 }\x0atRPAREN 13-14 )\x0aEOF 14-14 " },
    Rec { t: b"begin; BEGIN { a\xffa }; end", shape: b"(kw_begin statements=[])", full: b"(kw_begin statements=[] begin=0-5 end=21-24 expression=0-24)", diag: b"\x0aE 7-12 BEGIN is permitted only at toplevel", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0aklBEGIN 7-12 BEGIN\x0atLCURLY 13-14 {\x0atIDENTIFIER 15-17 a\xff\x00\x0atRCURLY 18-19 }\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"a\xffa; BEGIN { b }", shape: b"(begin statements=[(send method_name=\x22a\xff\x00\x22 args=[]) (preexe body=(send method_name=\x22b\x22 args=[]))])", full: b"(begin statements=[(send method_name=\x22a\xff\x00\x22 args=[] selector=0-2 expression=0-2) (preexe body=(send method_name=\x22b\x22 args=[] selector=12-13 expression=12-13) keyword=4-9 begin=10-11 end=14-15 expression=4-15)] expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atSEMI 2-3 ;\x0aklBEGIN 4-9 BEGIN\x0atLCURLY 10-11 {\x0atIDENTIFIER 12-13 b\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"END { a\xffa }", shape: b"(postexe body=(send method_name=\x22a\xff\x00\x22 args=[]))", full: b"(postexe body=(send method_name=\x22a\xff\x00\x22 args=[] selector=6-8 expression=6-8) keyword=0-3 begin=4-5 end=9-10 expression=0-10)", diag: b"", toks: b"\x0aklEND 0-3 END\x0atLCURLY 4-5 {\x0atIDENTIFIER 6-8 a\xff\x00\x0atRCURLY 9-10 }\x0aEOF 10-10 " },
    Rec { t: b"class A; END { a\xffa }; end", shape: b"(class name=(const name=\x22A\x22) body=(postexe body=(send method_name=\x22a\xff\x00\x22 args=[])))", full: b"(class name=(const name=\x22A\x22 name=6-7 expression=6-7) body=(postexe body=(send method_name=\x22a\xff\x00\x22 args=[] selector=15-17 expression=15-17) keyword=9-12 begin=13-14 end=18-19 expression=9-19) keyword=0-5 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-7 A\x0atSEMI 7-8 ;\x0aklEND 9-12 END\x0atLCURLY 13-14 {\x0atIDENTIFIER 15-17 a\xff\x00\x0atRCURLY 18-19 }\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"self = \xffd", shape: b"(int value=\x22\xff\x00\x22)", full: b"(int value=\x22\xff\x00\x22 expression=7-8)", diag: b"\x0aE 0-4 Can't change the value of self", toks: b"\x0akSELF 0-4 self\x0atEQL 5-6 =\x0atINTEGER 7-8 \xff\x00\x0aEOF 8-8 " },
    Rec { t: b"nil = \xffd", shape: b"(int value=\x22\xff\x00\x22)", full: b"(int value=\x22\xff\x00\x22 expression=6-7)", diag: b"\x0aE 0-3 Can't assign to nil", toks: b"\x0akNIL 0-3 nil\x0atEQL 4-5 =\x0atINTEGER 6-7 \xff\x00\x0aEOF 7-7 " },
    Rec { t: b"true = \xffd", shape: b"(int value=\x22\xff\x00\x22)", full: b"(int value=\x22\xff\x00\x22 expression=7-8)", diag: b"\x0aE 0-4 Can't assign to true", toks: b"\x0akTRUE 0-4 true\x0atEQL 5-6 =\x0atINTEGER 7-8 \xff\x00\x0aEOF 8-8 " },
    Rec { t: b"false = \xffd", shape: b"(int value=\x22\xff\x00\x22)", full: b"(int value=\x22\xff\x00\x22 expression=8-9)", diag: b"\x0aE 0-5 Can't assign to false", toks: b"\x0akFALSE 0-5 false\x0atEQL 6-7 =\x0atINTEGER 8-9 \xff\x00\x0aEOF 9-9 " },
    Rec { t: b"__FILE__ = \xffd", shape: b"(int value=\x22\xff\x00\x22)", full: b"(int value=\x22\xff\x00\x22 expression=11-12)", diag: b"\x0aE 0-8 Can't assign to __FILE__", toks: b"\x0ak__FILE__ 0-8 __FILE__\x0atEQL 9-10 =\x0atINTEGER 11-12 \xff\x00\x0aEOF 12-12 " },
    Rec { t: b"__LINE__ = \xffd", shape: b"(int value=\x22\xff\x00\x22)", full: b"(int value=\x22\xff\x00\x22 expression=11-12)", diag: b"\x0aE 0-8 Can't assign to __LINE__", toks: b"\x0ak__LINE__ 0-8 __LINE__\x0atEQL 9-10 =\x0atINTEGER 11-12 \xff\x00\x0aEOF 12-12 " },
    Rec { t: b"__ENCODING__ = \xffd", shape: b"(int value=\x22\xff\x00\x22)", full: b"(int value=\x22\xff\x00\x22 expression=15-16)", diag: b"\x0aE 0-12 Can't assign to __ENCODING__", toks: b"\x0ak__ENCODING__ 0-12 __ENCODING__\x0atEQL 13-14 =\x0atINTEGER 15-16 \xff\x00\x0aEOF 16-16 " },
    Rec { t: b"self += \xffd", shape: b"(int value=\x22\xff\x00\x22)", full: b"(int value=\x22\xff\x00\x22 expression=8-9)", diag: b"\x0aE 0-4 Can't change the value of self", toks: b"\x0akSELF 0-4 self\x0atOP_ASGN 5-7 +=\x0atINTEGER 8-9 \xff\x00\x0aEOF 9-9 " },
    Rec { t: b"nil ||= \xffd", shape: b"(int value=\x22\xff\x00\x22)", full: b"(int value=\x22\xff\x00\x22 expression=8-9)", diag: b"\x0aE 0-3 Can't assign to nil", toks: b"\x0akNIL 0-3 nil\x0atOP_ASGN 4-7 ||=\x0atINTEGER 8-9 \xff\x00\x0aEOF 9-9 " },
    Rec { t: b"true &&= \xffd", shape: b"(int value=\x22\xff\x00\x22)", full: b"(int value=\x22\xff\x00\x22 expression=9-10)", diag: b"\x0aE 0-4 Can't assign to true", toks: b"\x0akTRUE 0-4 true\x0atOP_ASGN 5-8 &&=\x0atINTEGER 9-10 \xff\x00\x0aEOF 10-10 " },
    Rec { t: b"self, a = \xffd", shape: b"(lvasgn name=\x22a\x22 value=(int value=\x22\xff\x00\x22))", full: b"(lvasgn name=\x22a\x22 value=(int value=\x22\xff\x00\x22 expression=10-11) name=6-7 operator=8-9 expression=6-11)", diag: b"\x0aE 0-4 Can't change the value of self", toks: b"\x0akSELF 0-4 self\x0atCOMMA 4-5 ,\x0atIDENTIFIER 6-7 a\x0atEQL 8-9 =\x0atINTEGER 10-11 \xff\x00\x0aEOF 11-11 " },
    Rec { t: b"a, nil = \xffd", shape: b"(int value=\x22\xff\x00\x22)", full: b"(int value=\x22\xff\x00\x22 expression=9-10)", diag: b"\x0aE 3-6 Can't assign to nil", toks: b"\x0atIDENTIFIER 0-1 a\x0atCOMMA 1-2 ,\x0akNIL 3-6 nil\x0atEQL 7-8 =\x0atINTEGER 9-10 \xff\x00\x0aEOF 10-10 " },
    Rec { t: b"*self = \xffd", shape: b"(int value=\x22\xff\x00\x22)", full: b"(int value=\x22\xff\x00\x22 expression=8-9)", diag: b"\x0aE 1-5 Can't change the value of self", toks: b"\x0atSTAR 0-1 *\x0akSELF 1-5 self\x0atEQL 6-7 =\x0atINTEGER 8-9 \xff\x00\x0aEOF 9-9 " },
    Rec { t: b"(a, true), b = \xffd", shape: b"(begin statements=[])", full: b"(begin statements=[] begin=0-1 end=8-9 expression=0-9)", diag: b"\x0aE 4-8 Can't assign to true", toks: b"\x0atLPAREN 0-1 (\x0atIDENTIFIER 1-2 a\x0atCOMMA 2-3 ,\x0akTRUE 4-8 true\x0atRPAREN 8-9 )\x0atCOMMA 9-10 ," },
    Rec { t: b"for self in a; end", shape: b"(send method_name=\x22a\x22 args=[])", full: b"(send method_name=\x22a\x22 args=[] selector=12-13 expression=12-13)", diag: b"\x0aE 4-8 Can't change the value of self", toks: b"\x0akFOR 0-3 for\x0akSELF 4-8 self\x0akIN 9-11 in\x0atIDENTIFIER 12-13 a\x0atSEMI 13-14 ;\x0akEND 15-18 end" },
    Rec { t: b"for a, nil in b; end", shape: b"(send method_name=\x22b\x22 args=[])", full: b"(send method_name=\x22b\x22 args=[] selector=14-15 expression=14-15)", diag: b"\x0aE 7-10 Can't assign to nil", toks: b"\x0akFOR 0-3 for\x0atIDENTIFIER 4-5 a\x0atCOMMA 5-6 ,\x0akNIL 7-10 nil\x0akIN 11-13 in\x0atIDENTIFIER 14-15 b\x0atSEMI 15-16 ;\x0akEND 17-20 end" },
    Rec { t: b"begin; rescue => self; end", shape: b"(kw_begin statements=[])", full: b"(kw_begin statements=[] begin=0-5 end=23-26 expression=0-26)", diag: b"\x0aE 17-21 Can't change the value of self", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akRESCUE 7-13 rescue\x0atASSOC 14-16 =>\x0akSELF 17-21 self\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"begin; rescue A => nil; end", shape: b"(kw_begin statements=[])", full: b"(kw_begin statements=[] begin=0-5 end=24-27 expression=0-27)", diag: b"\x0aE 19-22 Can't assign to nil", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akRESCUE 7-13 rescue\x0atCONSTANT 14-15 A\x0atASSOC 16-18 =>\x0akNIL 19-22 nil\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"$1 = \xffd", shape: b"(int value=\x22\xff\x00\x22)", full: b"(int value=\x22\xff\x00\x22 expression=5-6)", diag: b"\x0aE 0-2 Can't set variable $1", toks: b"\x0atNTH_REF 0-2 $1\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x00\x0aEOF 6-6 " },
    Rec { t: b"$& = \xffd", shape: b"(int value=\x22\xff\x00\x22)", full: b"(int value=\x22\xff\x00\x22 expression=5-6)", diag: b"\x0aE 0-2 Can't set variable $&", toks: b"\x0atBACK_REF 0-2 $&\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x00\x0aEOF 6-6 " },
    Rec { t: b"$` = \xffd", shape: b"(int value=\x22\xff\x00\x22)", full: b"(int value=\x22\xff\x00\x22 expression=5-6)", diag: b"\x0aE 0-2 Can't set variable $`", toks: b"\x0atBACK_REF 0-2 $`\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x00\x0aEOF 6-6 " },
    Rec { t: b"$' = \xffd", shape: b"(int value=\x22\xff\x00\x22)", full: b"(int value=\x22\xff\x00\x22 expression=5-6)", diag: b"\x0aE 0-2 Can't set variable $'", toks: b"\x0atBACK_REF 0-2 $'\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x00\x0aEOF 6-6 " },
    Rec { t: b"$+ = \xffd", shape: b"(int value=\x22\xff\x00\x22)", full: b"(int value=\x22\xff\x00\x22 expression=5-6)", diag: b"\x0aE 0-2 Can't set variable $+", toks: b"\x0atBACK_REF 0-2 $+\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x00\x0aEOF 6-6 " },
    Rec { t: b"$\xffD = \xffd", shape: b"(int value=\x22\xff\x01\x22)", full: b"(int value=\x22\xff\x01\x22 expression=5-6)", diag: b"\x0aE 0-2 Can't set variable $\xff\x00", toks: b"\x0atNTH_REF 0-2 $\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x01\x0aEOF 6-6 " },
    Rec { t: b"$1 += \xffd", shape: b"none", full: b"none", diag: b"\x0aE 0-2 Can't set variable $1", toks: b"\x0atNTH_REF 0-2 $1\x0atOP_ASGN 3-5 +=\x0atINTEGER 6-7 \xff\x00\x0aEOF 7-7 " },
    Rec { t: b"$& ||= \xffd", shape: b"none", full: b"none", diag: b"\x0aE 0-2 Can't set variable $&", toks: b"\x0atBACK_REF 0-2 $&\x0atOP_ASGN 3-6 ||=\x0atINTEGER 7-8 \xff\x00\x0aEOF 8-8 " },
    Rec { t: b"$+ &&= \xffd", shape: b"none", full: b"none", diag: b"\x0aE 0-2 Can't set variable $+", toks: b"\x0atBACK_REF 0-2 $+\x0atOP_ASGN 3-6 &&=\x0atINTEGER 7-8 \xff\x00\x0aEOF 8-8 " },
    Rec { t: b"$\xffD ||= \xffd", shape: b"none", full: b"none", diag: b"\x0aE 0-2 Can't set variable $\xff\x00", toks: b"\x0atNTH_REF 0-2 $\xff\x00\x0atOP_ASGN 3-6 ||=\x0atINTEGER 7-8 \xff\x01\x0aEOF 8-8 " },
    Rec { t: b"$1, a = \xffd", shape: b"(lvasgn name=\x22a\x22 value=(int value=\x22\xff\x00\x22))", full: b"(lvasgn name=\x22a\x22 value=(int value=\x22\xff\x00\x22 expression=8-9) name=4-5 operator=6-7 expression=4-9)", diag: b"\x0aE 0-2 Can't set variable $1", toks: b"\x0atNTH_REF 0-2 $1\x0atCOMMA 2-3 ,\x0atIDENTIFIER 4-5 a\x0atEQL 6-7 =\x0atINTEGER 8-9 \xff\x00\x0aEOF 9-9 " },
    Rec { t: b"a, $& = \xffd", shape: b"(int value=\x22\xff\x00\x22)", full: b"(int value=\x22\xff\x00\x22 expression=8-9)", diag: b"\x0aE 3-5 Can't set variable $&", toks: b"\x0atIDENTIFIER 0-1 a\x0atCOMMA 1-2 ,\x0atBACK_REF 3-5 $&\x0atEQL 6-7 =\x0atINTEGER 8-9 \xff\x00\x0aEOF 9-9 " },
    Rec { t: b"*$1 = \xffd", shape: b"(int value=\x22\xff\x00\x22)", full: b"(int value=\x22\xff\x00\x22 expression=6-7)", diag: b"\x0aE 1-3 Can't set variable $1", toks: b"\x0atSTAR 0-1 *\x0atNTH_REF 1-3 $1\x0atEQL 4-5 =\x0atINTEGER 6-7 \xff\x00\x0aEOF 7-7 " },
    Rec { t: b"for $1 in a; end", shape: b"(send method_name=\x22a\x22 args=[])", full: b"(send method_name=\x22a\x22 args=[] selector=10-11 expression=10-11)", diag: b"\x0aE 4-6 Can't set variable $1", toks: b"\x0akFOR 0-3 for\x0atNTH_REF 4-6 $1\x0akIN 7-9 in\x0atIDENTIFIER 10-11 a\x0atSEMI 11-12 ;\x0akEND 13-16 end" },
    Rec { t: b"begin; rescue => $1; end", shape: b"(kw_begin statements=[])", full: b"(kw_begin statements=[] begin=0-5 end=21-24 expression=0-24)", diag: b"\x0aE 17-19 Can't set variable $1", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akRESCUE 7-13 rescue\x0atASSOC 14-16 =>\x0atNTH_REF 17-19 $1\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"begin; rescue => $&; end", shape: b"(kw_begin statements=[])", full: b"(kw_begin statements=[] begin=0-5 end=21-24 expression=0-24)", diag: b"\x0aE 17-19 Can't set variable $&", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akRESCUE 7-13 rescue\x0atASSOC 14-16 =>\x0atBACK_REF 17-19 $&\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"$0 = \xffd", shape: b"(gvasgn name=\x22$0\x22 value=(int value=\x22\xff\x00\x22))", full: b"(gvasgn name=\x22$0\x22 value=(int value=\x22\xff\x00\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6)", diag: b"", toks: b"\x0atGVAR 0-2 $0\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x00\x0aEOF 6-6 " },
    Rec { t: b"$_ = \xffd", shape: b"(gvasgn name=\x22$_\x22 value=(int value=\x22\xff\x00\x22))", full: b"(gvasgn name=\x22$_\x22 value=(int value=\x22\xff\x00\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6)", diag: b"", toks: b"\x0atGVAR 0-2 $_\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x00\x0aEOF 6-6 " },
    Rec { t: b"$~ = \xffd", shape: b"(gvasgn name=\x22$~\x22 value=(int value=\x22\xff\x00\x22))", full: b"(gvasgn name=\x22$~\x22 value=(int value=\x22\xff\x00\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6)", diag: b"", toks: b"\x0atGVAR 0-2 $~\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x00\x0aEOF 6-6 " },
    Rec { t: b"$, = \xffd", shape: b"(gvasgn name=\x22$,\x22 value=(int value=\x22\xff\x00\x22))", full: b"(gvasgn name=\x22$,\x22 value=(int value=\x22\xff\x00\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6)", diag: b"", toks: b"\x0atGVAR 0-2 $,\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x00\x0aEOF 6-6 " },
    Rec { t: b"$-w = \xffd", shape: b"(gvasgn name=\x22$-w\x22 value=(int value=\x22\xff\x00\x22))", full: b"(gvasgn name=\x22$-w\x22 value=(int value=\x22\xff\x00\x22 expression=6-7) name=0-3 operator=4-5 expression=0-7)", diag: b"", toks: b"\x0atGVAR 0-3 $-w\x0atEQL 4-5 =\x0atINTEGER 6-7 \xff\x00\x0aEOF 7-7 " },
    Rec { t: b"$stdout = \xffd", shape: b"(gvasgn name=\x22$stdout\x22 value=(int value=\x22\xff\x00\x22))", full: b"(gvasgn name=\x22$stdout\x22 value=(int value=\x22\xff\x00\x22 expression=10-11) name=0-7 operator=8-9 expression=0-11)", diag: b"", toks: b"\x0atGVAR 0-7 $stdout\x0atEQL 8-9 =\x0atINTEGER 10-11 \xff\x00\x0aEOF 11-11 " },
    Rec { t: b"alias $a $1", shape: b"none", full: b"none", diag: b"\x0aE 9-11 can't make alias for the number variables", toks: b"\x0akALIAS 0-5 alias\x0atGVAR 6-8 $a\x0atNTH_REF 9-11 $1\x0aEOF 11-11 " },
    Rec { t: b"alias $a\xffa $\xffD", shape: b"none", full: b"none", diag: b"\x0aE 10-12 can't make alias for the number variables", toks: b"\x0akALIAS 0-5 alias\x0atGVAR 6-9 $a\xff\x00\x0atNTH_REF 10-12 $\xff\x01\x0aEOF 12-12 " },
    Rec { t: b"alias $a $&", shape: b"(alias to=(gvar name=\x22$a\x22) from=(back_ref name=\x22$&\x22))", full: b"(alias to=(gvar name=\x22$a\x22 expression=6-8) from=(back_ref name=\x22$&\x22 expression=9-11) keyword=0-5 expression=0-11)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atGVAR 6-8 $a\x0atBACK_REF 9-11 $&\x0aEOF 11-11 " },
    Rec { t: b"alias $a\xffa $b\xffa", shape: b"(alias to=(gvar name=\x22$a\xff\x00\x22) from=(gvar name=\x22$b\xff\x01\x22))", full: b"(alias to=(gvar name=\x22$a\xff\x00\x22 expression=6-9) from=(gvar name=\x22$b\xff\x01\x22 expression=10-13) keyword=0-5 expression=0-13)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atGVAR 6-9 $a\xff\x00\x0atGVAR 10-13 $b\xff\x01\x0aEOF 13-13 " },
    Rec { t: b"alias $1 $a", shape: b"(alias to=(gvar name=\x22$1\x22) from=(gvar name=\x22$a\x22))", full: b"(alias to=(gvar name=\x22$1\x22 expression=6-8) from=(gvar name=\x22$a\x22 expression=9-11) keyword=0-5 expression=0-11)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atGVAR 6-8 $1\x0atGVAR 9-11 $a\x0aEOF 11-11 " },
    Rec { t: b"alias $a b", shape: b"(send method_name=\x22b\x22 args=[])", full: b"(send method_name=\x22b\x22 args=[] selector=9-10 expression=9-10)", diag: b"\x0aE 9-10 unexpected tIDENTIFIER", toks: b"\x0akALIAS 0-5 alias\x0atGVAR 6-8 $a\x0atIDENTIFIER 9-10 b\x0aEOF 10-10 " },
    Rec { t: b"alias a $b", shape: b"(gvar name=\x22$b\x22)", full: b"(gvar name=\x22$b\x22 expression=8-10)", diag: b"\x0aE 8-10 unexpected tGVAR", toks: b"\x0akALIAS 0-5 alias\x0atIDENTIFIER 6-7 a\x0atGVAR 8-10 $b\x0aEOF 10-10 " },
    Rec { t: b"alias a 1", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=8-9)", diag: b"\x0aE 8-9 unexpected tINTEGER", toks: b"\x0akALIAS 0-5 alias\x0atIDENTIFIER 6-7 a\x0atINTEGER 8-9 1\x0aEOF 9-9 " },
    Rec { t: b"alias A\xffa", shape: b"none", full: b"none", diag: b"\x0aE 8-8 unexpected END_OF_INPUT", toks: b"\x0akALIAS 0-5 alias\x0atCONSTANT 6-8 A\xff\x00\x0aEOF 8-8 " },
    Rec { t: b"alias a\xffa b\xffa", shape: b"(alias to=(sym name=\x22a\xff\x00\x22) from=(sym name=\x22b\xff\x01\x22))", full: b"(alias to=(sym name=\x22a\xff\x00\x22 expression=6-8) from=(sym name=\x22b\xff\x01\x22 expression=9-11) keyword=0-5 expression=0-11)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atIDENTIFIER 6-8 a\xff\x00\x0atIDENTIFIER 9-11 b\xff\x01\x0aEOF 11-11 " },
    Rec { t: b"alias a\xffa= b\xffa", shape: b"(alias to=(sym name=\x22a\xff\x00=\x22) from=(sym name=\x22b\xff\x01\x22))", full: b"(alias to=(sym name=\x22a\xff\x00=\x22 expression=6-9) from=(sym name=\x22b\xff\x01\x22 expression=10-12) keyword=0-5 expression=0-12)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atIDENTIFIER 6-9 a\xff\x00=\x0atIDENTIFIER 10-12 b\xff\x01\x0aEOF 12-12 " },
    Rec { t: b"alias + -", shape: b"(alias to=(sym name=\x22+\x22) from=(sym name=\x22-\x22))", full: b"(alias to=(sym name=\x22+\x22 expression=6-7) from=(sym name=\x22-\x22 expression=8-9) keyword=0-5 expression=0-9)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atPLUS 6-7 +\x0atMINUS 8-9 -\x0aEOF 9-9 " },
    Rec { t: b"alias :a\xffa :b\xffa", shape: b"(alias to=(sym name=\x22a\xff\x00\x22) from=(sym name=\x22b\xff\x01\x22))", full: b"(alias to=(sym name=\x22a\xff\x00\x22 begin=6-7 expression=6-9) from=(sym name=\x22b\xff\x01\x22 begin=10-11 expression=10-13) keyword=0-5 expression=0-13)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atSYMBEG 6-7 :\x0atIDENTIFIER 7-9 a\xff\x00\x0atSYMBEG 10-11 :\x0atIDENTIFIER 11-13 b\xff\x01\x0aEOF 13-13 " },
    Rec { t: b"alias if unless", shape: b"(alias to=(sym name=\x22if\x22) from=(sym name=\x22unless\x22))", full: b"(alias to=(sym name=\x22if\x22 expression=6-8) from=(sym name=\x22unless\x22 expression=9-15) keyword=0-5 expression=0-15)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0akIF 6-8 if\x0akUNLESS 9-15 unless\x0aEOF 15-15 " },
    Rec { t: b"undef a\xffa, :b\xffa", shape: b"(undef names=[(sym name=\x22a\xff\x00\x22) (sym name=\x22b\xff\x01\x22)])", full: b"(undef names=[(sym name=\x22a\xff\x00\x22 expression=6-8) (sym name=\x22b\xff\x01\x22 begin=10-11 expression=10-13)] keyword=0-5 expression=0-13)", diag: b"", toks: b"\x0akUNDEF 0-5 undef\x0atIDENTIFIER 6-8 a\xff\x00\x0atCOMMA 8-9 ,\x0atSYMBEG 10-11 :\x0atIDENTIFIER 11-13 b\xff\x01\x0aEOF 13-13 " },
    Rec { t: b"undef 1", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=6-7)", diag: b"\x0aE 6-7 unexpected tINTEGER", toks: b"\x0akUNDEF 0-5 undef\x0atINTEGER 6-7 1\x0aEOF 7-7 " },
    Rec { t: b"undef $a", shape: b"(gvar name=\x22$a\x22)", full: b"(gvar name=\x22$a\x22 expression=6-8)", diag: b"\x0aE 6-8 unexpected tGVAR", toks: b"\x0akUNDEF 0-5 undef\x0atGVAR 6-8 $a\x0aEOF 8-8 " },
    Rec { t: b"undef @a", shape: b"(ivar name=\x22@a\x22)", full: b"(ivar name=\x22@a\x22 expression=6-8)", diag: b"\x0aE 6-8 unexpected tIVAR", toks: b"\x0akUNDEF 0-5 undef\x0atIVAR 6-8 @a\x0aEOF 8-8 " },
    Rec { t: b"undef a\xffa.b", shape: b"(undef names=[(sym name=\x22a\xff\x00\x22)])", full: b"(undef names=[(sym name=\x22a\xff\x00\x22 expression=6-8)] keyword=0-5 expression=0-8)", diag: b"\x0aE 8-9 unexpected tDOT", toks: b"\x0akUNDEF 0-5 undef\x0atIDENTIFIER 6-8 a\xff\x00\x0atDOT 8-9 ." },
    Rec { t: b"a\xffa&.b, c = 1", shape: b"(lvasgn name=\x22c\x22 value=(int value=\x221\x22))", full: b"(lvasgn name=\x22c\x22 value=(int value=\x221\x22 expression=11-12) name=7-8 operator=9-10 expression=7-12)", diag: b"\x0aE 2-4 &. inside multiple assignment destination", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atANDDOT 2-4 &.\x0atIDENTIFIER 4-5 b\x0atCOMMA 5-6 ,\x0atIDENTIFIER 7-8 c\x0atEQL 9-10 =\x0atINTEGER 11-12 1\x0aEOF 12-12 " },
    Rec { t: b"a, b\xffa&.c = 1", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=11-12)", diag: b"\x0aE 5-7 &. inside multiple assignment destination", toks: b"\x0atIDENTIFIER 0-1 a\x0atCOMMA 1-2 ,\x0atIDENTIFIER 3-5 b\xff\x00\x0atANDDOT 5-7 &.\x0atIDENTIFIER 7-8 c\x0atEQL 9-10 =\x0atINTEGER 11-12 1\x0aEOF 12-12 " },
    Rec { t: b"*a&.b\xffa = 1", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=9-10)", diag: b"\x0aE 2-4 &. inside multiple assignment destination", toks: b"\x0atSTAR 0-1 *\x0atIDENTIFIER 1-2 a\x0atANDDOT 2-4 &.\x0atIDENTIFIER 4-6 b\xff\x00\x0atEQL 7-8 =\x0atINTEGER 9-10 1\x0aEOF 10-10 " },
    Rec { t: b"(a&.b\xffa, c), d = 1", shape: b"(begin statements=[])", full: b"(begin statements=[] begin=0-1 end=9-10 expression=0-10)", diag: b"\x0aE 2-4 &. inside multiple assignment destination", toks: b"\x0atLPAREN 0-1 (\x0atIDENTIFIER 1-2 a\x0atANDDOT 2-4 &.\x0atIDENTIFIER 4-6 b\xff\x00\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-9 c\x0atRPAREN 9-10 )\x0atCOMMA 10-11 ," },
    Rec { t: b"a&.B\xffa, c = 1", shape: b"(lvasgn name=\x22c\x22 value=(int value=\x221\x22))", full: b"(lvasgn name=\x22c\x22 value=(int value=\x221\x22 expression=11-12) name=7-8 operator=9-10 expression=7-12)", diag: b"\x0aE 1-3 &. inside multiple assignment destination", toks: b"\x0atIDENTIFIER 0-1 a\x0atANDDOT 1-3 &.\x0atCONSTANT 3-5 B\xff\x00\x0atCOMMA 5-6 ,\x0atIDENTIFIER 7-8 c\x0atEQL 9-10 =\x0atINTEGER 11-12 1\x0aEOF 12-12 " },
    Rec { t: b"a\xffa&.b = 1", shape: b"(c_send recv=(send method_name=\x22a\xff\x00\x22 args=[]) method_name=\x22b=\x22 args=[(int value=\x221\x22)])", full: b"(c_send recv=(send method_name=\x22a\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22b=\x22 args=[(int value=\x221\x22 expression=8-9)] dot=2-4 selector=4-5 operator=6-7 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atANDDOT 2-4 &.\x0atIDENTIFIER 4-5 b\x0atEQL 6-7 =\x0atINTEGER 8-9 1\x0aEOF 9-9 " },
    Rec { t: b"a\xffa&.b += 1", shape: b"(op_asgn recv=(c_send recv=(send method_name=\x22a\xff\x00\x22 args=[]) method_name=\x22b\x22 args=[]) operator=\x22+\x22 value=(int value=\x221\x22))", full: b"(op_asgn recv=(c_send recv=(send method_name=\x22a\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22b\x22 args=[] dot=2-4 selector=4-5 expression=0-5) operator=\x22+\x22 value=(int value=\x221\x22 expression=9-10) operator=6-8 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atANDDOT 2-4 &.\x0atIDENTIFIER 4-5 b\x0atOP_ASGN 6-8 +=\x0atINTEGER 9-10 1\x0aEOF 10-10 " },
    Rec { t: b"a\xffa.b, c = 1", shape: b"(masgn lhs=(mlhs items=[(send recv=(send method_name=\x22a\xff\x00\x22 args=[]) method_name=\x22b=\x22 args=[]) (lvasgn name=\x22c\x22)]) rhs=(int value=\x221\x22))", full: b"(masgn lhs=(mlhs items=[(send recv=(send method_name=\x22a\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22b=\x22 args=[] dot=2-3 selector=3-4 expression=0-4) (lvasgn name=\x22c\x22 name=6-7 expression=6-7)] expression=0-7) rhs=(int value=\x221\x22 expression=10-11) operator=8-9 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-4 b\x0atCOMMA 4-5 ,\x0atIDENTIFIER 6-7 c\x0atEQL 8-9 =\x0atINTEGER 10-11 1\x0aEOF 11-11 " },
    Rec { t: b"a\xffa() = 1", shape: b"(send method_name=\x22a\xff\x00\x22 args=[])", full: b"(send method_name=\x22a\xff\x00\x22 args=[] selector=0-2 begin=2-3 end=3-4 expression=0-4)", diag: b"\x0aE 5-6 unexpected tEQL", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atLPAREN2 2-3 (\x0atRPAREN 3-4 )\x0atEQL 5-6 =" },
    Rec { t: b"a\xffa.b() = 1", shape: b"(send recv=(send method_name=\x22a\xff\x00\x22 args=[]) method_name=\x22b\x22 args=[])", full: b"(send recv=(send method_name=\x22a\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22b\x22 args=[] dot=2-3 selector=3-4 begin=4-5 end=5-6 expression=0-6)", diag: b"\x0aE 7-8 unexpected tEQL", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-4 b\x0atLPAREN2 4-5 (\x0atRPAREN 5-6 )\x0atEQL 7-8 =" },
    Rec { t: b"a\xffa + b = 1", shape: b"(send recv=(send method_name=\x22a\xff\x00\x22 args=[]) method_name=\x22+\x22 args=[(lvasgn name=\x22b\x22 value=(int value=\x221\x22))])", full: b"(send recv=(send method_name=\x22a\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22+\x22 args=[(lvasgn name=\x22b\x22 value=(int value=\x221\x22 expression=9-10) name=5-6 operator=7-8 expression=5-10)] selector=3-4 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atPLUS 3-4 +\x0atIDENTIFIER 5-6 b\x0atEQL 7-8 =\x0atINTEGER 9-10 1\x0aEOF 10-10 " },
    Rec { t: b"a\xffa? = 1", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=6-7)", diag: b"\x0aE 4-5 unexpected tEQL", toks: b"\x0atFID 0-3 a\xff\x00?\x0atEQL 4-5 =\x0atINTEGER 6-7 1\x0aEOF 7-7 " },
    Rec { t: b"a\xffa! = 1", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=6-7)", diag: b"\x0aE 4-5 unexpected tEQL", toks: b"\x0atFID 0-3 a\xff\x00!\x0atEQL 4-5 =\x0atINTEGER 6-7 1\x0aEOF 7-7 " },
    Rec { t: b"a\xffa?, b = 1", shape: b"(send method_name=\x22a\xff\x00?\x22 args=[])", full: b"(send method_name=\x22a\xff\x00?\x22 args=[] selector=0-3 expression=0-3)", diag: b"\x0aE 3-4 unexpected tCOMMA", toks: b"\x0atFID 0-3 a\xff\x00?\x0atCOMMA 3-4 ," },
    Rec { t: b"1 = 2", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=0-1)", diag: b"\x0aE 2-3 unexpected tEQL", toks: b"\x0atINTEGER 0-1 1\x0atEQL 2-3 =" },
    Rec { t: b"\x22a\x22 = 2", shape: b"(str value=\x22a\x22)", full: b"(str value=\x22a\x22 begin=0-1 end=2-3 expression=0-3)", diag: b"\x0aE 4-5 unexpected tEQL", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_CONTENT 1-2 a\x0atSTRING_END 2-3 \x22\x0atEQL 4-5 =" },
    Rec { t: b":a = 1", shape: b"(sym name=\x22a\x22)", full: b"(sym name=\x22a\x22 begin=0-1 expression=0-2)", diag: b"\x0aE 3-4 unexpected tEQL", toks: b"\x0atSYMBEG 0-1 :\x0atIDENTIFIER 1-2 a\x0atEQL 3-4 =" },
    Rec { t: b"[] = 1", shape: b"(array elements=[])", full: b"(array elements=[] begin=0-1 end=1-2 expression=0-2)", diag: b"\x0aE 3-4 unexpected tEQL", toks: b"\x0atLBRACK 0-1 [\x0atRBRACK 1-2 ]\x0atEQL 3-4 =" },
    Rec { t: b"{} = 1", shape: b"(hash pairs=[])", full: b"(hash pairs=[] begin=0-1 end=1-2 expression=0-2)", diag: b"\x0aE 3-4 unexpected tEQL", toks: b"\x0atLBRACE 0-1 {\x0atRCURLY 1-2 }\x0atEQL 3-4 =" },
    Rec { t: b"[a] = 1", shape: b"(array elements=[(send method_name=\x22a\x22 args=[])])", full: b"(array elements=[(send method_name=\x22a\x22 args=[] selector=1-2 expression=1-2)] begin=0-1 end=2-3 expression=0-3)", diag: b"\x0aE 4-5 unexpected tEQL", toks: b"\x0atLBRACK 0-1 [\x0atIDENTIFIER 1-2 a\x0atRBRACK 2-3 ]\x0atEQL 4-5 =" },
    Rec { t: b"a\xffa.b? = 1", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=8-9)", diag: b"\x0aE 6-7 unexpected tEQL", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atDOT 2-3 .\x0atFID 3-5 b?\x0atEQL 6-7 =\x0atINTEGER 8-9 1\x0aEOF 9-9 " },
    Rec { t: b"-a\xffa = 1", shape: b"(send recv=(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) method_name=\x22-@\x22 args=[])", full: b"(send recv=(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=6-7) name=1-3 operator=4-5 expression=1-7) method_name=\x22-@\x22 args=[] selector=0-1 expression=0-7)", diag: b"", toks: b"\x0atUMINUS 0-1 -\x0atIDENTIFIER 1-3 a\xff\x00\x0atEQL 4-5 =\x0atINTEGER 6-7 1\x0aEOF 7-7 " },
    Rec { t: b"!a\xffa = 1", shape: b"(send recv=(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) method_name=\x22!\x22 args=[])", full: b"(send recv=(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=6-7) name=1-3 operator=4-5 expression=1-7) method_name=\x22!\x22 args=[] selector=0-1 expression=0-7)", diag: b"", toks: b"\x0atBANG 0-1 !\x0atIDENTIFIER 1-3 a\xff\x00\x0atEQL 4-5 =\x0atINTEGER 6-7 1\x0aEOF 7-7 " },
    Rec { t: b"(a\xffa) = 1", shape: b"(begin statements=[(send method_name=\x22a\xff\x00\x22 args=[])])", full: b"(begin statements=[(send method_name=\x22a\xff\x00\x22 args=[] selector=1-3 expression=1-3)] begin=0-1 end=3-4 expression=0-4)", diag: b"\x0aE 5-6 unexpected tEQL", toks: b"\x0atLPAREN 0-1 (\x0atIDENTIFIER 1-3 a\xff\x00\x0atRPAREN 3-4 )\x0atEQL 5-6 =" },
    Rec { t: b"(a\xffa, b) = 1", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22a\xff\x00\x22) (lvasgn name=\x22b\x22)]) rhs=(int value=\x221\x22))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22a\xff\x00\x22 name=1-3 expression=1-3) (lvasgn name=\x22b\x22 name=5-6 expression=5-6)] begin=0-1 end=6-7 expression=0-7) rhs=(int value=\x221\x22 expression=10-11) operator=8-9 expression=0-11)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atIDENTIFIER 1-3 a\xff\x00\x0atCOMMA 3-4 ,\x0atIDENTIFIER 5-6 b\x0atRPAREN 6-7 )\x0atEQL 8-9 =\x0atINTEGER 10-11 1\x0aEOF 11-11 " },
    Rec { t: b"m { _1 = \xffd }", shape: b"(int value=\x22\xff\x00\x22)", full: b"(int value=\x22\xff\x00\x22 expression=9-10)", diag: b"\x0aE 4-6 _1 is reserved for numbered parameter", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atIDENTIFIER 4-6 _1\x0atEQL 7-8 =\x0atINTEGER 9-10 \xff\x00\x0atRCURLY 11-12 }" },
    Rec { t: b"_1 = \xffd", shape: b"(int value=\x22\xff\x00\x22)", full: b"(int value=\x22\xff\x00\x22 expression=5-6)", diag: b"\x0aE 0-2 _1 is reserved for numbered parameter", toks: b"\x0atIDENTIFIER 0-2 _1\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x00\x0aEOF 6-6 " },
    Rec { t: b"_\xffD += \xffd", shape: b"(int value=\x22\xff\x01\x22)", full: b"(int value=\x22\xff\x01\x22 expression=6-7)", diag: b"\x0aE 0-2 _\xff\x00 is reserved for numbered parameter", toks: b"\x0atIDENTIFIER 0-2 _\xff\x00\x0atOP_ASGN 3-5 +=\x0atINTEGER 6-7 \xff\x01\x0aEOF 7-7 " },
    Rec { t: b"def m(_1) end", shape: b"none", full: b"none", diag: b"\x0aE 6-8 _1 is reserved for numbered parameter", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 _1\x0atRPAREN 8-9 )\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"def m(_\xffD) end", shape: b"none", full: b"none", diag: b"\x0aE 6-8 _\xff\x00 is reserved for numbered parameter", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 _\xff\x00\x0atRPAREN 8-9 )\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"def m(_\xffD = 1) end", shape: b"none", full: b"none", diag: b"\x0aE 6-8 _\xff\x00 is reserved for numbered parameter", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 _\xff\x00\x0atEQL 9-10 =\x0atINTEGER 11-12 1\x0atRPAREN 12-13 )\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"def m(*_\xffD) end", shape: b"none", full: b"none", diag: b"\x0aE 7-9 _\xff\x00 is reserved for numbered parameter", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atSTAR 6-7 *\x0atIDENTIFIER 7-9 _\xff\x00\x0atRPAREN 9-10 )\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def m(**_\xffD) end", shape: b"none", full: b"none", diag: b"\x0aE 8-10 _\xff\x00 is reserved for numbered parameter", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atDSTAR 6-8 **\x0atIDENTIFIER 8-10 _\xff\x00\x0atRPAREN 10-11 )\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def m(&_\xffD) end", shape: b"none", full: b"none", diag: b"\x0aE 7-9 _\xff\x00 is reserved for numbered parameter", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atAMPER 6-7 &\x0atIDENTIFIER 7-9 _\xff\x00\x0atRPAREN 9-10 )\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def m(_\xffD:) end", shape: b"none", full: b"none", diag: b"\x0aE 6-9 _\xff\x00 is reserved for numbered parameter", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atLABEL 6-9 _\xff\x00\x0atRPAREN 9-10 )\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def m(_\xffD: 1) end", shape: b"none", full: b"none", diag: b"\x0aE 6-9 _\xff\x00 is reserved for numbered parameter", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atLABEL 6-9 _\xff\x00\x0atINTEGER 10-11 1\x0atRPAREN 11-12 )\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"def m((_\xffD, a)) end", shape: b"(send method_name=\x22a\x22 args=[])", full: b"(send method_name=\x22a\x22 args=[] selector=11-12 expression=11-12)", diag: b"\x0aE 7-9 _\xff\x00 is reserved for numbered parameter", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atLPAREN 6-7 (\x0atIDENTIFIER 7-9 _\xff\x00\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-12 a\x0atRPAREN 12-13 )" },
    Rec { t: b"m { |_1| }", shape: b"none", full: b"none", diag: b"\x0aE 5-7 _1 is reserved for numbered parameter", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atIDENTIFIER 5-7 _1\x0atPIPE 7-8 |\x0atRCURLY 9-10 }\x0aEOF 10-10 " },
    Rec { t: b"m { |a, _\xffD| }", shape: b"none", full: b"none", diag: b"\x0aE 8-10 _\xff\x00 is reserved for numbered parameter", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atIDENTIFIER 5-6 a\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-10 _\xff\x00\x0atPIPE 10-11 |\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"m { |_\xffD, a| }", shape: b"none", full: b"none", diag: b"\x0aE 5-7 _\xff\x00 is reserved for numbered parameter", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atIDENTIFIER 5-7 _\xff\x00\x0atCOMMA 7-8 ,\x0atIDENTIFIER 9-10 a\x0atPIPE 10-11 |\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"m { |*_\xffD| }", shape: b"none", full: b"none", diag: b"\x0aE 6-8 _\xff\x00 is reserved for numbered parameter", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atSTAR 5-6 *\x0atIDENTIFIER 6-8 _\xff\x00\x0atPIPE 8-9 |\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"m { |a; _\xffD| }", shape: b"none", full: b"none", diag: b"\x0aE 8-10 _\xff\x00 is reserved for numbered parameter", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atIDENTIFIER 5-6 a\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 _\xff\x00\x0atPIPE 10-11 |\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"->(_\xffD) {}", shape: b"none", full: b"none", diag: b"\x0aE 3-5 _\xff\x00 is reserved for numbered parameter", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 _\xff\x00\x0atRPAREN 5-6 )\x0atLAMBEG 7-8 {\x0atRCURLY 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"def _\xffD; end", shape: b"none", full: b"none", diag: b"\x0aE 4-6 _\xff\x00 is reserved for numbered parameter", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 _\xff\x00\x0atSEMI 6-7 ;\x0akEND 8-11 end\x0aEOF 11-11 " },
    Rec { t: b"def self._\xffD; end", shape: b"none", full: b"none", diag: b"\x0aE 9-11 _\xff\x00 is reserved for numbered parameter", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 _\xff\x00\x0atSEMI 11-12 ;\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"def _\xffD() = 1", shape: b"none", full: b"none", diag: b"\x0aE 4-6 _\xff\x00 is reserved for numbered parameter", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 _\xff\x00\x0atLPAREN2 6-7 (\x0atRPAREN 7-8 )\x0atEQL 9-10 =\x0atINTEGER 11-12 1\x0aEOF 12-12 " },
    Rec { t: b"for _1 in a; end", shape: b"(send method_name=\x22a\x22 args=[])", full: b"(send method_name=\x22a\x22 args=[] selector=10-11 expression=10-11)", diag: b"\x0aE 4-6 _1 is reserved for numbered parameter", toks: b"\x0akFOR 0-3 for\x0atIDENTIFIER 4-6 _1\x0akIN 7-9 in\x0atIDENTIFIER 10-11 a\x0atSEMI 11-12 ;\x0akEND 13-16 end" },
    Rec { t: b"begin; rescue => _1; end", shape: b"(kw_begin statements=[])", full: b"(kw_begin statements=[] begin=0-5 end=21-24 expression=0-24)", diag: b"\x0aE 17-19 _1 is reserved for numbered parameter", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akRESCUE 7-13 rescue\x0atASSOC 14-16 =>\x0atIDENTIFIER 17-19 _1\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"a => _1", shape: b"none", full: b"none", diag: b"\x0aE 5-7 _1 is reserved for numbered parameter", toks: b"\x0atIDENTIFIER 0-1 a\x0atASSOC 2-4 =>\x0atIDENTIFIER 5-7 _1\x0aEOF 7-7 " },
    Rec { t: b"a in {b: _1}", shape: b"none", full: b"none", diag: b"\x0aE 9-11 _1 is reserved for numbered parameter", toks: b"\x0atIDENTIFIER 0-1 a\x0akIN 2-4 in\x0atLBRACE 5-6 {\x0atLABEL 6-8 b\x0atIDENTIFIER 9-11 _1\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"_1, a = 1", shape: b"(lvasgn name=\x22a\x22 value=(int value=\x221\x22))", full: b"(lvasgn name=\x22a\x22 value=(int value=\x221\x22 expression=8-9) name=4-5 operator=6-7 expression=4-9)", diag: b"\x0aE 0-2 _1 is reserved for numbered parameter", toks: b"\x0atIDENTIFIER 0-2 _1\x0atCOMMA 2-3 ,\x0atIDENTIFIER 4-5 a\x0atEQL 6-7 =\x0atINTEGER 8-9 1\x0aEOF 9-9 " },
    Rec { t: b"def _0; end", shape: b"(def name=\x22_0\x22)", full: b"(def name=\x22_0\x22 keyword=0-3 name=4-6 end=8-11 expression=0-11)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 _0\x0atSEMI 6-7 ;\x0akEND 8-11 end\x0aEOF 11-11 " },
    Rec { t: b"_0 = 1", shape: b"(lvasgn name=\x22_0\x22 value=(int value=\x221\x22))", full: b"(lvasgn name=\x22_0\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 _0\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0aEOF 6-6 " },
    Rec { t: b"_10 = 1", shape: b"(lvasgn name=\x22_10\x22 value=(int value=\x221\x22))", full: b"(lvasgn name=\x22_10\x22 value=(int value=\x221\x22 expression=6-7) name=0-3 operator=4-5 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-3 _10\x0atEQL 4-5 =\x0atINTEGER 6-7 1\x0aEOF 7-7 " },
    Rec { t: b"_a1 = 1", shape: b"(lvasgn name=\x22_a1\x22 value=(int value=\x221\x22))", full: b"(lvasgn name=\x22_a1\x22 value=(int value=\x221\x22 expression=6-7) name=0-3 operator=4-5 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-3 _a1\x0atEQL 4-5 =\x0atINTEGER 6-7 1\x0aEOF 7-7 " },
    Rec { t: b"def m(_0, _10) end", shape: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22_0\x22) (arg name=\x22_10\x22)]))", full: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22_0\x22 expression=6-8) (arg name=\x22_10\x22 expression=10-13)] expression=5-14 begin=5-6 end=13-14) keyword=0-3 name=4-5 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 _0\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-13 _10\x0atRPAREN 13-14 )\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"m { |_0| _0 }", shape: b"(block call=(send method_name=\x22m\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22_0\x22)])]) body=(lvar name=\x22_0\x22))", full: b"(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) args=(args args=[(procarg0 args=[(arg name=\x22_0\x22 expression=5-7)] expression=5-7)] expression=4-8 begin=4-5 end=7-8) body=(lvar name=\x22_0\x22 expression=9-11) begin=2-3 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atIDENTIFIER 5-7 _0\x0atPIPE 7-8 |\x0atIDENTIFIER 9-11 _0\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"m { _1 + _\xffD }", shape: b"(numblock call=(send method_name=\x22m\x22 args=[]) numargs=\xff\x00 body=(send recv=(lvar name=\x22_1\x22) method_name=\x22+\x22 args=[(lvar name=\x22_\xff\x00\x22)]))", full: b"(numblock call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) numargs=\xff\x00 body=(send recv=(lvar name=\x22_1\x22 expression=4-6) method_name=\x22+\x22 args=[(lvar name=\x22_\xff\x00\x22 expression=9-11)] selector=7-8 expression=4-11) begin=2-3 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atIDENTIFIER 4-6 _1\x0atPLUS 7-8 +\x0atIDENTIFIER 9-11 _\xff\x00\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"m { |a\xffa| _1 }", shape: b"(numblock call=(send method_name=\x22m\x22 args=[]) numargs=1 body=(lvar name=\x22_1\x22))", full: b"(numblock call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) numargs=1 body=(lvar name=\x22_1\x22 expression=9-11) begin=2-3 end=12-13 expression=0-13)", diag: b"\x0aE 9-11 ordinary parameter is defined", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atIDENTIFIER 5-7 a\xff\x00\x0atPIPE 7-8 |\x0atIDENTIFIER 9-11 _1\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"m { || _1 }", shape: b"(numblock call=(send method_name=\x22m\x22 args=[]) numargs=1 body=(lvar name=\x22_1\x22))", full: b"(numblock call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) numargs=1 body=(lvar name=\x22_1\x22 expression=7-9) begin=2-3 end=10-11 expression=0-11)", diag: b"\x0aE 7-9 ordinary parameter is defined", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atPIPE 5-6 |\x0atIDENTIFIER 7-9 _1\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"m { |;a| _1 }", shape: b"(numblock call=(send method_name=\x22m\x22 args=[]) numargs=1 body=(lvar name=\x22_1\x22))", full: b"(numblock call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) numargs=1 body=(lvar name=\x22_1\x22 expression=9-11) begin=2-3 end=12-13 expression=0-13)", diag: b"\x0aE 9-11 ordinary parameter is defined", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atSEMI 5-6 ;\x0atIDENTIFIER 6-7 a\x0atPIPE 7-8 |\x0atIDENTIFIER 9-11 _1\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"->(a\xffa) { _1 }", shape: b"(numblock call=(lambda) numargs=1 body=(lvar name=\x22_1\x22))", full: b"(numblock call=(lambda expression=0-2) numargs=1 body=(lvar name=\x22_1\x22 expression=9-11) begin=7-8 end=12-13 expression=0-13)", diag: b"\x0aE 9-11 ordinary parameter is defined", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 a\xff\x00\x0atRPAREN 5-6 )\x0atLAMBEG 7-8 {\x0atIDENTIFIER 9-11 _1\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"-> a\xffa { _1 }", shape: b"(numblock call=(lambda) numargs=1 body=(lvar name=\x22_1\x22))", full: b"(numblock call=(lambda expression=0-2) numargs=1 body=(lvar name=\x22_1\x22 expression=8-10) begin=6-7 end=11-12 expression=0-12)", diag: b"\x0aE 8-10 ordinary parameter is defined", toks: b"\x0atLAMBDA 0-2 ->\x0atIDENTIFIER 3-5 a\xff\x00\x0atLAMBEG 6-7 {\x0atIDENTIFIER 8-10 _1\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"-> () { _1 }", shape: b"(numblock call=(lambda) numargs=1 body=(lvar name=\x22_1\x22))", full: b"(numblock call=(lambda expression=0-2) numargs=1 body=(lvar name=\x22_1\x22 expression=8-10) begin=6-7 end=11-12 expression=0-12)", diag: b"\x0aE 8-10 ordinary parameter is defined", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 3-4 (\x0atRPAREN 4-5 )\x0atLAMBEG 6-7 {\x0atIDENTIFIER 8-10 _1\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"-> { _1 }", shape: b"(numblock call=(lambda) numargs=1 body=(lvar name=\x22_1\x22))", full: b"(numblock call=(lambda expression=0-2) numargs=1 body=(lvar name=\x22_1\x22 expression=5-7) begin=3-4 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLAMBEG 3-4 {\x0atIDENTIFIER 5-7 _1\x0atRCURLY 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"m { n { _1 } }", shape: b"(block call=(send method_name=\x22m\x22 args=[]) body=(numblock call=(send method_name=\x22n\x22 args=[]) numargs=1 body=(lvar name=\x22_1\x22)))", full: b"(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) body=(numblock call=(send method_name=\x22n\x22 args=[] selector=4-5 expression=4-5) numargs=1 body=(lvar name=\x22_1\x22 expression=8-10) begin=6-7 end=11-12 expression=4-12) begin=2-3 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atIDENTIFIER 4-5 n\x0atLCURLY 6-7 {\x0atIDENTIFIER 8-10 _1\x0atRCURLY 11-12 }\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"m { _1; n { _1 } }", shape: b"(numblock call=(send method_name=\x22m\x22 args=[]) numargs=1 body=(begin statements=[(lvar name=\x22_1\x22) (numblock call=(send method_name=\x22n\x22 args=[]) numargs=1 body=(lvar name=\x22_1\x22))]))", full: b"(numblock call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) numargs=1 body=(begin statements=[(lvar name=\x22_1\x22 expression=4-6) (numblock call=(send method_name=\x22n\x22 args=[] selector=8-9 expression=8-9) numargs=1 body=(lvar name=\x22_1\x22 expression=12-14) begin=10-11 end=15-16 expression=8-16)] expression=4-16) begin=2-3 end=17-18 expression=0-18)", diag: b"\x0aE 12-14 numbered parameter is already used", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atIDENTIFIER 4-6 _1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-9 n\x0atLCURLY 10-11 {\x0atIDENTIFIER 12-14 _1\x0atRCURLY 15-16 }\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"m { _1; n { o { _2 } } }", shape: b"(numblock call=(send method_name=\x22m\x22 args=[]) numargs=1 body=(begin statements=[(lvar name=\x22_1\x22) (block call=(send method_name=\x22n\x22 args=[]) body=(numblock call=(send method_name=\x22o\x22 args=[]) numargs=2 body=(lvar name=\x22_2\x22)))]))", full: b"(numblock call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) numargs=1 body=(begin statements=[(lvar name=\x22_1\x22 expression=4-6) (block call=(send method_name=\x22n\x22 args=[] selector=8-9 expression=8-9) body=(numblock call=(send method_name=\x22o\x22 args=[] selector=12-13 expression=12-13) numargs=2 body=(lvar name=\x22_2\x22 expression=16-18) begin=14-15 end=19-20 expression=12-20) begin=10-11 end=21-22 expression=8-22)] expression=4-22) begin=2-3 end=23-24 expression=0-24)", diag: b"\x0aE 16-18 numbered parameter is already used", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atIDENTIFIER 4-6 _1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-9 n\x0atLCURLY 10-11 {\x0atIDENTIFIER 12-13 o\x0atLCURLY 14-15 {\x0atIDENTIFIER 16-18 _2\x0atRCURLY 19-20 }\x0atRCURLY 21-22 }\x0atRCURLY 23-24 }\x0aEOF 24-24 " },
    Rec { t: b"m { n { _1 }; _1 }", shape: b"(numblock call=(send method_name=\x22m\x22 args=[]) numargs=1 body=(begin statements=[(numblock call=(send method_name=\x22n\x22 args=[]) numargs=1 body=(lvar name=\x22_1\x22)) (lvar name=\x22_1\x22)]))", full: b"(numblock call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) numargs=1 body=(begin statements=[(numblock call=(send method_name=\x22n\x22 args=[] selector=4-5 expression=4-5) numargs=1 body=(lvar name=\x22_1\x22 expression=8-10) begin=6-7 end=11-12 expression=4-12) (lvar name=\x22_1\x22 expression=14-16)] expression=4-16) begin=2-3 end=17-18 expression=0-18)", diag: b"\x0aE 14-16 numbered parameter is already used", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atIDENTIFIER 4-5 n\x0atLCURLY 6-7 {\x0atIDENTIFIER 8-10 _1\x0atRCURLY 11-12 }\x0atSEMI 12-13 ;\x0atIDENTIFIER 14-16 _1\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"m { n { _1 }; o { _1 } }", shape: b"(block call=(send method_name=\x22m\x22 args=[]) body=(begin statements=[(numblock call=(send method_name=\x22n\x22 args=[]) numargs=1 body=(lvar name=\x22_1\x22)) (numblock call=(send method_name=\x22o\x22 args=[]) numargs=1 body=(lvar name=\x22_1\x22))]))", full: b"(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) body=(begin statements=[(numblock call=(send method_name=\x22n\x22 args=[] selector=4-5 expression=4-5) numargs=1 body=(lvar name=\x22_1\x22 expression=8-10) begin=6-7 end=11-12 expression=4-12) (numblock call=(send method_name=\x22o\x22 args=[] selector=14-15 expression=14-15) numargs=1 body=(lvar name=\x22_1\x22 expression=18-20) begin=16-17 end=21-22 expression=14-22)] expression=4-22) begin=2-3 end=23-24 expression=0-24)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atIDENTIFIER 4-5 n\x0atLCURLY 6-7 {\x0atIDENTIFIER 8-10 _1\x0atRCURLY 11-12 }\x0atSEMI 12-13 ;\x0atIDENTIFIER 14-15 o\x0atLCURLY 16-17 {\x0atIDENTIFIER 18-20 _1\x0atRCURLY 21-22 }\x0atRCURLY 23-24 }\x0aEOF 24-24 " },
    Rec { t: b"m { |a| n { _1 } }", shape: b"(block call=(send method_name=\x22m\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22a\x22)])]) body=(numblock call=(send method_name=\x22n\x22 args=[]) numargs=1 body=(lvar name=\x22_1\x22)))", full: b"(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) args=(args args=[(procarg0 args=[(arg name=\x22a\x22 expression=5-6)] expression=5-6)] expression=4-7 begin=4-5 end=6-7) body=(numblock call=(send method_name=\x22n\x22 args=[] selector=8-9 expression=8-9) numargs=1 body=(lvar name=\x22_1\x22 expression=12-14) begin=10-11 end=15-16 expression=8-16) begin=2-3 end=17-18 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atIDENTIFIER 5-6 a\x0atPIPE 6-7 |\x0atIDENTIFIER 8-9 n\x0atLCURLY 10-11 {\x0atIDENTIFIER 12-14 _1\x0atRCURLY 15-16 }\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"-> { n { _1 } }", shape: b"(block call=(lambda) body=(numblock call=(send method_name=\x22n\x22 args=[]) numargs=1 body=(lvar name=\x22_1\x22)))", full: b"(block call=(lambda expression=0-2) body=(numblock call=(send method_name=\x22n\x22 args=[] selector=5-6 expression=5-6) numargs=1 body=(lvar name=\x22_1\x22 expression=9-11) begin=7-8 end=12-13 expression=5-13) begin=3-4 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLAMBEG 3-4 {\x0atIDENTIFIER 5-6 n\x0atLCURLY 7-8 {\x0atIDENTIFIER 9-11 _1\x0atRCURLY 12-13 }\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"m { _1; def k; n { _1 } end }", shape: b"(numblock call=(send method_name=\x22m\x22 args=[]) numargs=1 body=(begin statements=[(lvar name=\x22_1\x22) (def name=\x22k\x22 body=(numblock call=(send method_name=\x22n\x22 args=[]) numargs=1 body=(lvar name=\x22_1\x22)))]))", full: b"(numblock call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) numargs=1 body=(begin statements=[(lvar name=\x22_1\x22 expression=4-6) (def name=\x22k\x22 body=(numblock call=(send method_name=\x22n\x22 args=[] selector=15-16 expression=15-16) numargs=1 body=(lvar name=\x22_1\x22 expression=19-21) begin=17-18 end=22-23 expression=15-23) keyword=8-11 name=12-13 end=24-27 expression=8-27)] expression=4-27) begin=2-3 end=28-29 expression=0-29)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atIDENTIFIER 4-6 _1\x0atSEMI 6-7 ;\x0akDEF 8-11 def\x0atIDENTIFIER 12-13 k\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-16 n\x0atLCURLY 17-18 {\x0atIDENTIFIER 19-21 _1\x0atRCURLY 22-23 }\x0akEND 24-27 end\x0atRCURLY 28-29 }\x0aEOF 29-29 " },
    Rec { t: b"m { _1; -> { _1 } }", shape: b"(numblock call=(send method_name=\x22m\x22 args=[]) numargs=1 body=(begin statements=[(lvar name=\x22_1\x22) (numblock call=(lambda) numargs=1 body=(lvar name=\x22_1\x22))]))", full: b"(numblock call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) numargs=1 body=(begin statements=[(lvar name=\x22_1\x22 expression=4-6) (numblock call=(lambda expression=8-10) numargs=1 body=(lvar name=\x22_1\x22 expression=13-15) begin=11-12 end=16-17 expression=8-17)] expression=4-17) begin=2-3 end=18-19 expression=0-19)", diag: b"\x0aE 13-15 numbered parameter is already used", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atIDENTIFIER 4-6 _1\x0atSEMI 6-7 ;\x0atLAMBDA 8-10 ->\x0atLAMBEG 11-12 {\x0atIDENTIFIER 13-15 _1\x0atRCURLY 16-17 }\x0atRCURLY 18-19 }\x0aEOF 19-19 " },
    Rec { t: b"m { _1; class << self; n { _2 } end }", shape: b"(numblock call=(send method_name=\x22m\x22 args=[]) numargs=1 body=(begin statements=[(lvar name=\x22_1\x22) (s_class expr=(self_) body=(numblock call=(send method_name=\x22n\x22 args=[]) numargs=2 body=(lvar name=\x22_2\x22)))]))", full: b"(numblock call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) numargs=1 body=(begin statements=[(lvar name=\x22_1\x22 expression=4-6) (s_class expr=(self_ expression=17-21) body=(numblock call=(send method_name=\x22n\x22 args=[] selector=23-24 expression=23-24) numargs=2 body=(lvar name=\x22_2\x22 expression=27-29) begin=25-26 end=30-31 expression=23-31) keyword=8-13 operator=14-16 end=32-35 expression=8-35)] expression=4-35) begin=2-3 end=36-37 expression=0-37)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atIDENTIFIER 4-6 _1\x0atSEMI 6-7 ;\x0akCLASS 8-13 class\x0atLSHFT 14-16 <<\x0akSELF 17-21 self\x0atSEMI 21-22 ;\x0atIDENTIFIER 23-24 n\x0atLCURLY 25-26 {\x0atIDENTIFIER 27-29 _2\x0atRCURLY 30-31 }\x0akEND 32-35 end\x0atRCURLY 36-37 }\x0aEOF 37-37 " },
    Rec { t: b"m { _1; n { |a| a } }", shape: b"(numblock call=(send method_name=\x22m\x22 args=[]) numargs=1 body=(begin statements=[(lvar name=\x22_1\x22) (block call=(send method_name=\x22n\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22a\x22)])]) body=(lvar name=\x22a\x22))]))", full: b"(numblock call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) numargs=1 body=(begin statements=[(lvar name=\x22_1\x22 expression=4-6) (block call=(send method_name=\x22n\x22 args=[] selector=8-9 expression=8-9) args=(args args=[(procarg0 args=[(arg name=\x22a\x22 expression=13-14)] expression=13-14)] expression=12-15 begin=12-13 end=14-15) body=(lvar name=\x22a\x22 expression=16-17) begin=10-11 end=18-19 expression=8-19)] expression=4-19) begin=2-3 end=20-21 expression=0-21)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atIDENTIFIER 4-6 _1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-9 n\x0atLCURLY 10-11 {\x0atPIPE 12-13 |\x0atIDENTIFIER 13-14 a\x0atPIPE 14-15 |\x0atIDENTIFIER 16-17 a\x0atRCURLY 18-19 }\x0atRCURLY 20-21 }\x0aEOF 21-21 " },
    Rec { t: b"m { _1; n { 1 } }", shape: b"(numblock call=(send method_name=\x22m\x22 args=[]) numargs=1 body=(begin statements=[(lvar name=\x22_1\x22) (block call=(send method_name=\x22n\x22 args=[]) body=(int value=\x221\x22))]))", full: b"(numblock call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) numargs=1 body=(begin statements=[(lvar name=\x22_1\x22 expression=4-6) (block call=(send method_name=\x22n\x22 args=[] selector=8-9 expression=8-9) body=(int value=\x221\x22 expression=12-13) begin=10-11 end=14-15 expression=8-15)] expression=4-15) begin=2-3 end=16-17 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atIDENTIFIER 4-6 _1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-9 n\x0atLCURLY 10-11 {\x0atINTEGER 12-13 1\x0atRCURLY 14-15 }\x0atRCURLY 16-17 }\x0aEOF 17-17 " },
    Rec { t: b"_1", shape: b"(send method_name=\x22_1\x22 args=[])", full: b"(send method_name=\x22_1\x22 args=[] selector=0-2 expression=0-2)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 _1\x0aEOF 2-2 " },
    Rec { t: b"def m; _1; end", shape: b"(def name=\x22m\x22 body=(send method_name=\x22_1\x22 args=[]))", full: b"(def name=\x22m\x22 body=(send method_name=\x22_1\x22 args=[] selector=7-9 expression=7-9) keyword=0-3 name=4-5 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 _1\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"m { n(_1) { 1 } }", shape: b"(numblock call=(send method_name=\x22m\x22 args=[]) numargs=1 body=(block call=(send method_name=\x22n\x22 args=[(lvar name=\x22_1\x22)]) body=(int value=\x221\x22)))", full: b"(numblock call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) numargs=1 body=(block call=(send method_name=\x22n\x22 args=[(lvar name=\x22_1\x22 expression=6-8)] selector=4-5 begin=5-6 end=8-9 expression=4-9) body=(int value=\x221\x22 expression=12-13) begin=10-11 end=14-15 expression=4-15) begin=2-3 end=16-17 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atIDENTIFIER 4-5 n\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 _1\x0atRPAREN 8-9 )\x0atLCURLY 10-11 {\x0atINTEGER 12-13 1\x0atRCURLY 14-15 }\x0atRCURLY 16-17 }\x0aEOF 17-17 " },
    Rec { t: b"m { |a| a }; n { _1 }", shape: b"(begin statements=[(block call=(send method_name=\x22m\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22a\x22)])]) body=(lvar name=\x22a\x22)) (numblock call=(send method_name=\x22n\x22 args=[]) numargs=1 body=(lvar name=\x22_1\x22))])", full: b"(begin statements=[(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) args=(args args=[(procarg0 args=[(arg name=\x22a\x22 expression=5-6)] expression=5-6)] expression=4-7 begin=4-5 end=6-7) body=(lvar name=\x22a\x22 expression=8-9) begin=2-3 end=10-11 expression=0-11) (numblock call=(send method_name=\x22n\x22 args=[] selector=13-14 expression=13-14) numargs=1 body=(lvar name=\x22_1\x22 expression=17-19) begin=15-16 end=20-21 expression=13-21)] expression=0-21)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atIDENTIFIER 5-6 a\x0atPIPE 6-7 |\x0atIDENTIFIER 8-9 a\x0atRCURLY 10-11 }\x0atSEMI 11-12 ;\x0atIDENTIFIER 13-14 n\x0atLCURLY 15-16 {\x0atIDENTIFIER 17-19 _1\x0atRCURLY 20-21 }\x0aEOF 21-21 " },
    Rec { t: b"m { _1 }; n { |a| a }", shape: b"(begin statements=[(numblock call=(send method_name=\x22m\x22 args=[]) numargs=1 body=(lvar name=\x22_1\x22)) (block call=(send method_name=\x22n\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22a\x22)])]) body=(lvar name=\x22a\x22))])", full: b"(begin statements=[(numblock call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) numargs=1 body=(lvar name=\x22_1\x22 expression=4-6) begin=2-3 end=7-8 expression=0-8) (block call=(send method_name=\x22n\x22 args=[] selector=10-11 expression=10-11) args=(args args=[(procarg0 args=[(arg name=\x22a\x22 expression=15-16)] expression=15-16)] expression=14-17 begin=14-15 end=16-17) body=(lvar name=\x22a\x22 expression=18-19) begin=12-13 end=20-21 expression=10-21)] expression=0-21)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atIDENTIFIER 4-6 _1\x0atRCURLY 7-8 }\x0atSEMI 8-9 ;\x0atIDENTIFIER 10-11 n\x0atLCURLY 12-13 {\x0atPIPE 14-15 |\x0atIDENTIFIER 15-16 a\x0atPIPE 16-17 |\x0atIDENTIFIER 18-19 a\x0atRCURLY 20-21 }\x0aEOF 21-21 " },
    Rec { t: b"m do _1 end", shape: b"(numblock call=(send method_name=\x22m\x22 args=[]) numargs=1 body=(lvar name=\x22_1\x22))", full: b"(numblock call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) numargs=1 body=(lvar name=\x22_1\x22 expression=5-7) begin=2-4 end=8-11 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0akDO 2-4 do\x0atIDENTIFIER 5-7 _1\x0akEND 8-11 end\x0aEOF 11-11 " },
    Rec { t: b"m do |a| _1 end", shape: b"(numblock call=(send method_name=\x22m\x22 args=[]) numargs=1 body=(lvar name=\x22_1\x22))", full: b"(numblock call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) numargs=1 body=(lvar name=\x22_1\x22 expression=9-11) begin=2-4 end=12-15 expression=0-15)", diag: b"\x0aE 9-11 ordinary parameter is defined", toks: b"\x0atIDENTIFIER 0-1 m\x0akDO 2-4 do\x0atPIPE 5-6 |\x0atIDENTIFIER 6-7 a\x0atPIPE 7-8 |\x0atIDENTIFIER 9-11 _1\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"-> do _1 end", shape: b"(numblock call=(lambda) numargs=1 body=(lvar name=\x22_1\x22))", full: b"(numblock call=(lambda expression=0-2) numargs=1 body=(lvar name=\x22_1\x22 expression=6-8) begin=3-5 end=9-12 expression=0-12)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0akDO_LAMBDA 3-5 do\x0atIDENTIFIER 6-8 _1\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"m { \x22#{_1}\x22 }", shape: b"(numblock call=(send method_name=\x22m\x22 args=[]) numargs=1 body=(dstr parts=[(begin statements=[(lvar name=\x22_1\x22)])]))", full: b"(numblock call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) numargs=1 body=(dstr parts=[(begin statements=[(lvar name=\x22_1\x22 expression=7-9)] begin=5-7 end=9-10 expression=5-10)] begin=4-5 end=10-11 expression=4-11) begin=2-3 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atSTRING_BEG 4-5 \x22\x0atSTRING_DBEG 5-7 #{\x0atIDENTIFIER 7-9 _1\x0atSTRING_DEND 9-10 }\x0atSTRING_END 10-11 \x22\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"m { [_1, _2] }", shape: b"(numblock call=(send method_name=\x22m\x22 args=[]) numargs=2 body=(array elements=[(lvar name=\x22_1\x22) (lvar name=\x22_2\x22)]))", full: b"(numblock call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) numargs=2 body=(array elements=[(lvar name=\x22_1\x22 expression=5-7) (lvar name=\x22_2\x22 expression=9-11)] begin=4-5 end=11-12 expression=4-12) begin=2-3 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atLBRACK 4-5 [\x0atIDENTIFIER 5-7 _1\x0atCOMMA 7-8 ,\x0atIDENTIFIER 9-11 _2\x0atRBRACK 11-12 ]\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"m { _1.a }", shape: b"(numblock call=(send method_name=\x22m\x22 args=[]) numargs=1 body=(send recv=(lvar name=\x22_1\x22) method_name=\x22a\x22 args=[]))", full: b"(numblock call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) numargs=1 body=(send recv=(lvar name=\x22_1\x22 expression=4-6) method_name=\x22a\x22 args=[] dot=6-7 selector=7-8 expression=4-8) begin=2-3 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atIDENTIFIER 4-6 _1\x0atDOT 6-7 .\x0atIDENTIFIER 7-8 a\x0atRCURLY 9-10 }\x0aEOF 10-10 " },
    Rec { t: b"m { self._1 }", shape: b"(block call=(send method_name=\x22m\x22 args=[]) body=(send recv=(self_) method_name=\x22_1\x22 args=[]))", full: b"(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) body=(send recv=(self_ expression=4-8) method_name=\x22_1\x22 args=[] dot=8-9 selector=9-11 expression=4-11) begin=2-3 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 _1\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"m { @_1 }", shape: b"(block call=(send method_name=\x22m\x22 args=[]) body=(ivar name=\x22@_1\x22))", full: b"(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) body=(ivar name=\x22@_1\x22 expression=4-7) begin=2-3 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atIVAR 4-7 @_1\x0atRCURLY 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"m { if _1 then _2 end }", shape: b"(numblock call=(send method_name=\x22m\x22 args=[]) numargs=2 body=(if cond=(lvar name=\x22_1\x22) if_true=(lvar name=\x22_2\x22)))", full: b"(numblock call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) numargs=2 body=(if cond=(lvar name=\x22_1\x22 expression=7-9) if_true=(lvar name=\x22_2\x22 expression=15-17) keyword=4-6 begin=10-14 end=18-21 expression=4-21) begin=2-3 end=22-23 expression=0-23)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0akIF 4-6 if\x0atIDENTIFIER 7-9 _1\x0akTHEN 10-14 then\x0atIDENTIFIER 15-17 _2\x0akEND 18-21 end\x0atRCURLY 22-23 }\x0aEOF 23-23 " },
    Rec { t: b"@1", shape: b"(ivar name=\x22@1\x22)", full: b"(ivar name=\x22@1\x22 expression=0-2)", diag: b"\x0aE 0-2 `@1' is not allowed as an instance variable name", toks: b"\x0atIVAR 0-2 @1\x0aEOF 2-2 " },
    Rec { t: b"@\xffd", shape: b"(ivar name=\x22@\xff\x00\x22)", full: b"(ivar name=\x22@\xff\x00\x22 expression=0-2)", diag: b"\x0aE 0-2 `@\xff\x00' is not allowed as an instance variable name", toks: b"\x0atIVAR 0-2 @\xff\x00\x0aEOF 2-2 " },
    Rec { t: b"@@\xffd", shape: b"(cvar name=\x22@@\xff\x00\x22)", full: b"(cvar name=\x22@@\xff\x00\x22 expression=0-3)", diag: b"\x0aE 0-3 `@@\xff\x00' is not allowed as a class variable name", toks: b"\x0atCVAR 0-3 @@\xff\x00\x0aEOF 3-3 " },
    Rec { t: b"@", shape: b"(ivar name=\x22@\x22)", full: b"(ivar name=\x22@\x22 expression=0-1)", diag: b"\x0aE 0-1 `@' without identifiers is not allowed as an instance variable name", toks: b"\x0atIVAR 0-1 @\x0aEOF 1-1 " },
    Rec { t: b"@@", shape: b"(cvar name=\x22@@\x22)", full: b"(cvar name=\x22@@\x22 expression=0-2)", diag: b"\x0aE 0-2 `@@' without identifiers is not allowed as a class variable name", toks: b"\x0atCVAR 0-2 @@\x0aEOF 2-2 " },
    Rec { t: b"@\xffd\xffa", shape: b"(ivar name=\x22@\xff\x00\x22)", full: b"(ivar name=\x22@\xff\x00\x22 expression=0-2)", diag: b"\x0aE 0-2 `@\xff\x00' is not allowed as an instance variable name\x0aE 2-3 unexpected tIDENTIFIER", toks: b"\x0atIVAR 0-2 @\xff\x00\x0atIDENTIFIER 2-3 \xff\x01" },
    Rec { t: b"@@\xffD\xffa", shape: b"(cvar name=\x22@@\xff\x00\x22)", full: b"(cvar name=\x22@@\xff\x00\x22 expression=0-3)", diag: b"\x0aE 0-3 `@@\xff\x00' is not allowed as a class variable name\x0aE 3-4 unexpected tIDENTIFIER", toks: b"\x0atCVAR 0-3 @@\xff\x00\x0atIDENTIFIER 3-4 \xff\x01" },
    Rec { t: b"@\xffa", shape: b"(ivar name=\x22@\xff\x00\x22)", full: b"(ivar name=\x22@\xff\x00\x22 expression=0-2)", diag: b"", toks: b"\x0atIVAR 0-2 @\xff\x00\x0aEOF 2-2 " },
    Rec { t: b"@@\xffa", shape: b"(cvar name=\x22@@\xff\x00\x22)", full: b"(cvar name=\x22@@\xff\x00\x22 expression=0-3)", diag: b"", toks: b"\x0atCVAR 0-3 @@\xff\x00\x0aEOF 3-3 " },
    Rec { t: b"@_", shape: b"(ivar name=\x22@_\x22)", full: b"(ivar name=\x22@_\x22 expression=0-2)", diag: b"", toks: b"\x0atIVAR 0-2 @_\x0aEOF 2-2 " },
    Rec { t: b"@_\xffd", shape: b"(ivar name=\x22@_\xff\x00\x22)", full: b"(ivar name=\x22@_\xff\x00\x22 expression=0-3)", diag: b"", toks: b"\x0atIVAR 0-3 @_\xff\x00\x0aEOF 3-3 " },
    Rec { t: b"$", shape: b"(gvar name=\x22$\x22)", full: b"(gvar name=\x22$\x22 expression=0-1)", diag: b"\x0aE 0-1 `$' without identifiers is not allowed as a global variable name", toks: b"\x0atGVAR 0-1 $\x0aEOF 1-1 " },
    Rec { t: b"$-", shape: b"(gvar name=\x22$-\x22)", full: b"(gvar name=\x22$-\x22 expression=0-2)", diag: b"\x0aE 0-2 `$-' is not allowed as a global variable name", toks: b"\x0atGVAR 0-2 $-\x0aEOF 2-2 " },
    Rec { t: b"$-\xffa", shape: b"(gvar name=\x22$-\xff\x00\x22)", full: b"(gvar name=\x22$-\xff\x00\x22 expression=0-3)", diag: b"", toks: b"\x0atGVAR 0-3 $-\xff\x00\x0aEOF 3-3 " },
    Rec { t: b":@", shape: b"(sym name=\x22@\x22)", full: b"(sym name=\x22@\x22 begin=0-1 expression=0-2)", diag: b"\x0aE 1-2 `@' without identifiers is not allowed as an instance variable name", toks: b"\x0atSYMBEG 0-1 :\x0atIVAR 1-2 @\x0aEOF 2-2 " },
    Rec { t: b":@@", shape: b"(sym name=\x22@@\x22)", full: b"(sym name=\x22@@\x22 begin=0-1 expression=0-3)", diag: b"\x0aE 1-3 `@@' without identifiers is not allowed as a class variable name", toks: b"\x0atSYMBEG 0-1 :\x0atCVAR 1-3 @@\x0aEOF 3-3 " },
    Rec { t: b":@1", shape: b"(sym name=\x22@1\x22)", full: b"(sym name=\x22@1\x22 begin=0-1 expression=0-3)", diag: b"\x0aE 1-3 `@1' is not allowed as an instance variable name", toks: b"\x0atSYMBEG 0-1 :\x0atIVAR 1-3 @1\x0aEOF 3-3 " },
    Rec { t: b":@@1", shape: b"(sym name=\x22@@1\x22)", full: b"(sym name=\x22@@1\x22 begin=0-1 expression=0-4)", diag: b"\x0aE 1-4 `@@1' is not allowed as a class variable name", toks: b"\x0atSYMBEG 0-1 :\x0atCVAR 1-4 @@1\x0aEOF 4-4 " },
    Rec { t: b":$", shape: b"(sym name=\x22$\x22)", full: b"(sym name=\x22$\x22 begin=0-1 expression=0-2)", diag: b"\x0aE 1-2 `$' without identifiers is not allowed as a global variable name", toks: b"\x0atSYMBEG 0-1 :\x0atGVAR 1-2 $\x0aEOF 2-2 " },
    Rec { t: b"a.@b", shape: b"(ivar name=\x22@b\x22)", full: b"(ivar name=\x22@b\x22 expression=2-4)", diag: b"\x0aE 2-4 unexpected tIVAR", toks: b"\x0atIDENTIFIER 0-1 a\x0atDOT 1-2 .\x0atIVAR 2-4 @b\x0aEOF 4-4 " },
    Rec { t: b":@a", shape: b"(sym name=\x22@a\x22)", full: b"(sym name=\x22@a\x22 begin=0-1 expression=0-3)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atIVAR 1-3 @a\x0aEOF 3-3 " },
    Rec { t: b":@@a", shape: b"(sym name=\x22@@a\x22)", full: b"(sym name=\x22@@a\x22 begin=0-1 expression=0-4)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atCVAR 1-4 @@a\x0aEOF 4-4 " },
    Rec { t: b":$a", shape: b"(sym name=\x22$a\x22)", full: b"(sym name=\x22$a\x22 begin=0-1 expression=0-3)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atGVAR 1-3 $a\x0aEOF 3-3 " },
    Rec { t: b":$1", shape: b"(sym name=\x22$1\x22)", full: b"(sym name=\x22$1\x22 begin=0-1 expression=0-3)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atGVAR 1-3 $1\x0aEOF 3-3 " },
    Rec { t: b":$-a", shape: b"(sym name=\x22$-a\x22)", full: b"(sym name=\x22$-a\x22 begin=0-1 expression=0-4)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atGVAR 1-4 $-a\x0aEOF 4-4 " },
    Rec { t: b"case 0; in a\xffa, a\xfe\x00; end", shape: b"none", full: b"none", diag: b"\x0aE 15-17 duplicated variable name", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atIDENTIFIER 11-13 a\xff\x00\x0atCOMMA 13-14 ,\x0atIDENTIFIER 15-17 a\xff\x00\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"case 0; in [a\xffa, [a\xfe\x00]]; end", shape: b"none", full: b"none", diag: b"\x0aE 17-19 duplicated variable name", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACK 11-12 [\x0atIDENTIFIER 12-14 a\xff\x00\x0atCOMMA 14-15 ,\x0atLBRACK 16-17 [\x0atIDENTIFIER 17-19 a\xff\x00\x0atRBRACK 19-20 ]\x0atRBRACK 20-21 ]\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"case 0; in {a: a\xffa, b: a\xfe\x00}; end", shape: b"none", full: b"none", diag: b"\x0aE 22-24 duplicated variable name", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atLABEL 12-14 a\x0atIDENTIFIER 15-17 a\xff\x00\x0atCOMMA 17-18 ,\x0atLABEL 19-21 b\x0atIDENTIFIER 22-24 a\xff\x00\x0atRCURLY 24-25 }\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"case 0; in a\xffa, *a\xfe\x00; end", shape: b"none", full: b"none", diag: b"\x0aE 16-18 duplicated variable name", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atIDENTIFIER 11-13 a\xff\x00\x0atCOMMA 13-14 ,\x0atSTAR 15-16 *\x0atIDENTIFIER 16-18 a\xff\x00\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"case 0; in [*, a\xffa, a\xfe\x00, *]; end", shape: b"none", full: b"none", diag: b"\x0aE 19-21 duplicated variable name", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACK 11-12 [\x0atSTAR 12-13 *\x0atCOMMA 13-14 ,\x0atIDENTIFIER 15-17 a\xff\x00\x0atCOMMA 17-18 ,\x0atIDENTIFIER 19-21 a\xff\x00\x0atCOMMA 21-22 ,\x0atSTAR 23-24 *\x0atRBRACK 24-25 ]\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"case 0; in [*a\xffa, b, *a\xfe\x00]; end", shape: b"none", full: b"none", diag: b"\x0aE 21-23 duplicated variable name", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACK 11-12 [\x0atSTAR 12-13 *\x0atIDENTIFIER 13-15 a\xff\x00\x0atCOMMA 15-16 ,\x0atIDENTIFIER 17-18 b\x0atCOMMA 18-19 ,\x0atSTAR 20-21 *\x0atIDENTIFIER 21-23 a\xff\x00\x0atRBRACK 23-24 ]\x0atSEMI 24-25 ;\x0akEND 26-29 end\x0aEOF 29-29 " },
    Rec { t: b"case 0; in {a\xffa:, b\xffa: a\xfe\x00}; end", shape: b"none", full: b"none", diag: b"\x0aE 21-23 duplicated variable name", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atLABEL 12-15 a\xff\x00\x0atCOMMA 15-16 ,\x0atLABEL 17-20 b\xff\x01\x0atIDENTIFIER 21-23 a\xff\x00\x0atRCURLY 23-24 }\x0atSEMI 24-25 ;\x0akEND 26-29 end\x0aEOF 29-29 " },
    Rec { t: b"case 0; in {b\xffa: a\xffa, **a\xfe\x01}; end", shape: b"none", full: b"none", diag: b"\x0aE 22-24 duplicated variable name", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atLABEL 12-15 b\xff\x00\x0atIDENTIFIER 16-18 a\xff\x01\x0atCOMMA 18-19 ,\x0atDSTAR 20-22 **\x0atIDENTIFIER 22-24 a\xff\x01\x0atRCURLY 24-25 }\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"case 0; in A => a\xffa, a\xfe\x00; end", shape: b"none", full: b"none", diag: b"\x0aE 20-22 duplicated variable name", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atCONSTANT 11-12 A\x0atASSOC 13-15 =>\x0atIDENTIFIER 16-18 a\xff\x00\x0atCOMMA 18-19 ,\x0atIDENTIFIER 20-22 a\xff\x00\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"case 0; in [a\xffa, b] => a\xfe\x00; end", shape: b"none", full: b"none", diag: b"\x0aE 22-24 duplicated variable name", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACK 11-12 [\x0atIDENTIFIER 12-14 a\xff\x00\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-17 b\x0atRBRACK 17-18 ]\x0atASSOC 19-21 =>\x0atIDENTIFIER 22-24 a\xff\x00\x0atSEMI 24-25 ;\x0akEND 26-29 end\x0aEOF 29-29 " },
    Rec { t: b"case 0; in A(a\xffa, a\xfe\x00); end", shape: b"none", full: b"none", diag: b"\x0aE 17-19 duplicated variable name", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atCONSTANT 11-12 A\x0atLPAREN2 12-13 (\x0atIDENTIFIER 13-15 a\xff\x00\x0atCOMMA 15-16 ,\x0atIDENTIFIER 17-19 a\xff\x00\x0atRPAREN 19-20 )\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"case 0; in A[a\xffa, a\xfe\x00]; end", shape: b"none", full: b"none", diag: b"\x0aE 17-19 duplicated variable name", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atCONSTANT 11-12 A\x0atLBRACK2 12-13 [\x0atIDENTIFIER 13-15 a\xff\x00\x0atCOMMA 15-16 ,\x0atIDENTIFIER 17-19 a\xff\x00\x0atRBRACK 19-20 ]\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"case 0; in A(a: a\xffa, b: a\xfe\x00); end", shape: b"none", full: b"none", diag: b"\x0aE 23-25 duplicated variable name", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atCONSTANT 11-12 A\x0atLPAREN2 12-13 (\x0atLABEL 13-15 a\x0atIDENTIFIER 16-18 a\xff\x00\x0atCOMMA 18-19 ,\x0atLABEL 20-22 b\x0atIDENTIFIER 23-25 a\xff\x00\x0atRPAREN 25-26 )\x0atSEMI 26-27 ;\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"case 0; in (a\xffa, [a\xfe\x00]); end", shape: b"(array elements=[(lvar name=\x22a\xff\x00\x22)])", full: b"(array elements=[(lvar name=\x22a\xff\x00\x22 expression=17-19)] begin=16-17 end=19-20 expression=16-20)", diag: b"\x0aE 14-15 unexpected tCOMMA\x0aE 20-21 unexpected tRPAREN", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLPAREN 11-12 (\x0atIDENTIFIER 12-14 a\xff\x00\x0atCOMMA 14-15 ,\x0atLBRACK 16-17 [\x0atIDENTIFIER 17-19 a\xff\x00\x0atRBRACK 19-20 ]\x0atRPAREN 20-21 )" },
    Rec { t: b"0 => [a\xffa, a\xfe\x00]", shape: b"none", full: b"none", diag: b"\x0aE 10-12 duplicated variable name", toks: b"\x0atINTEGER 0-1 0\x0atASSOC 2-4 =>\x0atLBRACK 5-6 [\x0atIDENTIFIER 6-8 a\xff\x00\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 a\xff\x00\x0atRBRACK 12-13 ]\x0aEOF 13-13 " },
    Rec { t: b"0 in {a: a\xffa, b: [a\xfe\x00]}", shape: b"none", full: b"none", diag: b"\x0aE 17-19 duplicated variable name", toks: b"\x0atINTEGER 0-1 0\x0akIN 2-4 in\x0atLBRACE 5-6 {\x0atLABEL 6-8 a\x0atIDENTIFIER 9-11 a\xff\x00\x0atCOMMA 11-12 ,\x0atLABEL 13-15 b\x0atLBRACK 16-17 [\x0atIDENTIFIER 17-19 a\xff\x00\x0atRBRACK 19-20 ]\x0atRCURLY 20-21 }\x0aEOF 21-21 " },
    Rec { t: b"case 0; in _a\xffa, _a\xfe\x00; end", shape: b"(case_match expr=(int value=\x220\x22) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22_a\xff\x00\x22) (match_var name=\x22_a\xff\x00\x22)]))])", full: b"(case_match expr=(int value=\x220\x22 expression=5-6) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22_a\xff\x00\x22 name=11-14 expression=11-14) (match_var name=\x22_a\xff\x00\x22 name=16-19 expression=16-19)] expression=11-19) keyword=8-10 begin=19-20 expression=8-19)] keyword=0-4 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atIDENTIFIER 11-14 _a\xff\x00\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-19 _a\xff\x00\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"case 0; in _, _; end", shape: b"(case_match expr=(int value=\x220\x22) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22_\x22) (match_var name=\x22_\x22)]))])", full: b"(case_match expr=(int value=\x220\x22 expression=5-6) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22_\x22 name=11-12 expression=11-12) (match_var name=\x22_\x22 name=14-15 expression=14-15)] expression=11-15) keyword=8-10 begin=15-16 expression=8-15)] keyword=0-4 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atIDENTIFIER 11-12 _\x0atCOMMA 12-13 ,\x0atIDENTIFIER 14-15 _\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"case 0; in [_, [_]]; end", shape: b"(case_match expr=(int value=\x220\x22) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22_\x22) (array_pattern elements=[(match_var name=\x22_\x22)])]))])", full: b"(case_match expr=(int value=\x220\x22 expression=5-6) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22_\x22 name=12-13 expression=12-13) (array_pattern elements=[(match_var name=\x22_\x22 name=16-17 expression=16-17)] begin=15-16 end=17-18 expression=15-18)] begin=11-12 end=18-19 expression=11-19) keyword=8-10 begin=19-20 expression=8-19)] keyword=0-4 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACK 11-12 [\x0atIDENTIFIER 12-13 _\x0atCOMMA 13-14 ,\x0atLBRACK 15-16 [\x0atIDENTIFIER 16-17 _\x0atRBRACK 17-18 ]\x0atRBRACK 18-19 ]\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"case 0; in a\xffa; in a\xfe\x00; end", shape: b"(case_match expr=(int value=\x220\x22) in_bodies=[(in_pattern pattern=(match_var name=\x22a\xff\x00\x22)) (in_pattern pattern=(match_var name=\x22a\xff\x00\x22))])", full: b"(case_match expr=(int value=\x220\x22 expression=5-6) in_bodies=[(in_pattern pattern=(match_var name=\x22a\xff\x00\x22 name=11-13 expression=11-13) keyword=8-10 begin=13-14 expression=8-13) (in_pattern pattern=(match_var name=\x22a\xff\x00\x22 name=18-20 expression=18-20) keyword=15-17 begin=20-21 expression=15-20)] keyword=0-4 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atIDENTIFIER 11-13 a\xff\x00\x0atSEMI 13-14 ;\x0akIN 15-17 in\x0atIDENTIFIER 18-20 a\xff\x00\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"case 0; in [a\xffa]; in {b: a\xfe\x00}; end", shape: b"(case_match expr=(int value=\x220\x22) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22a\xff\x00\x22)])) (in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22b\x22) value=(match_var name=\x22a\xff\x00\x22))]))])", full: b"(case_match expr=(int value=\x220\x22 expression=5-6) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22a\xff\x00\x22 name=12-14 expression=12-14)] begin=11-12 end=14-15 expression=11-15) keyword=8-10 begin=15-16 expression=8-15) (in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22b\x22 expression=21-22) value=(match_var name=\x22a\xff\x00\x22 name=24-26 expression=24-26) operator=22-23 expression=21-26)] begin=20-21 end=26-27 expression=20-27) keyword=17-19 begin=27-28 expression=17-27)] keyword=0-4 end=29-32 expression=0-32)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACK 11-12 [\x0atIDENTIFIER 12-14 a\xff\x00\x0atRBRACK 14-15 ]\x0atSEMI 15-16 ;\x0akIN 17-19 in\x0atLBRACE 20-21 {\x0atLABEL 21-23 b\x0atIDENTIFIER 24-26 a\xff\x00\x0atRCURLY 26-27 }\x0atSEMI 27-28 ;\x0akEND 29-32 end\x0aEOF 32-32 " },
    Rec { t: b"0 => a\xffa; 0 => a\xfe\x00", shape: b"(begin statements=[(match_pattern value=(int value=\x220\x22) pattern=(match_var name=\x22a\xff\x00\x22)) (match_pattern value=(int value=\x220\x22) pattern=(match_var name=\x22a\xff\x00\x22))])", full: b"(begin statements=[(match_pattern value=(int value=\x220\x22 expression=0-1) pattern=(match_var name=\x22a\xff\x00\x22 name=5-7 expression=5-7) operator=2-4 expression=0-7) (match_pattern value=(int value=\x220\x22 expression=9-10) pattern=(match_var name=\x22a\xff\x00\x22 name=14-16 expression=14-16) operator=11-13 expression=9-16)] expression=0-16)", diag: b"", toks: b"\x0atINTEGER 0-1 0\x0atASSOC 2-4 =>\x0atIDENTIFIER 5-7 a\xff\x00\x0atSEMI 7-8 ;\x0atINTEGER 9-10 0\x0atASSOC 11-13 =>\x0atIDENTIFIER 14-16 a\xff\x00\x0aEOF 16-16 " },
    Rec { t: b"case 0; in a\xffa; case 1; in a\xfe\x00; end; end", shape: b"(case_match expr=(int value=\x220\x22) in_bodies=[(in_pattern pattern=(match_var name=\x22a\xff\x00\x22) body=(case_match expr=(int value=\x221\x22) in_bodies=[(in_pattern pattern=(match_var name=\x22a\xff\x00\x22))]))])", full: b"(case_match expr=(int value=\x220\x22 expression=5-6) in_bodies=[(in_pattern pattern=(match_var name=\x22a\xff\x00\x22 name=11-13 expression=11-13) body=(case_match expr=(int value=\x221\x22 expression=20-21) in_bodies=[(in_pattern pattern=(match_var name=\x22a\xff\x00\x22 name=26-28 expression=26-28) keyword=23-25 begin=28-29 expression=23-28)] keyword=15-19 end=30-33 expression=15-33) keyword=8-10 begin=13-14 expression=8-33)] keyword=0-4 end=35-38 expression=0-38)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atIDENTIFIER 11-13 a\xff\x00\x0atSEMI 13-14 ;\x0akCASE 15-19 case\x0atINTEGER 20-21 1\x0atSEMI 21-22 ;\x0akIN 23-25 in\x0atIDENTIFIER 26-28 a\xff\x00\x0atSEMI 28-29 ;\x0akEND 30-33 end\x0atSEMI 33-34 ;\x0akEND 35-38 end\x0aEOF 38-38 " },
    Rec { t: b"case 0; in ^a\xffa, a\xfe\x00; end", shape: b"(send method_name=\x22a\xff\x00\x22 args=[])", full: b"(send method_name=\x22a\xff\x00\x22 args=[] selector=16-18 expression=16-18)", diag: b"\x0aE 12-14 a\xff\x00: no such local variable", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atCARET 11-12 ^\x0atIDENTIFIER 12-14 a\xff\x00\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-18 a\xff\x00\x0atSEMI 18-19 ;\x0akEND 20-23 end" },
    Rec { t: b"m { _1; n { |a| _1 } }", shape: b"(numblock call=(send method_name=\x22m\x22 args=[]) numargs=1 body=(begin statements=[(lvar name=\x22_1\x22) (numblock call=(send method_name=\x22n\x22 args=[]) numargs=1 body=(lvar name=\x22_1\x22))]))", full: b"(numblock call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) numargs=1 body=(begin statements=[(lvar name=\x22_1\x22 expression=4-6) (numblock call=(send method_name=\x22n\x22 args=[] selector=8-9 expression=8-9) numargs=1 body=(lvar name=\x22_1\x22 expression=16-18) begin=10-11 end=19-20 expression=8-20)] expression=4-20) begin=2-3 end=21-22 expression=0-22)", diag: b"\x0aE 16-18 ordinary parameter is defined\x0aE 16-18 numbered parameter is already used", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atIDENTIFIER 4-6 _1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-9 n\x0atLCURLY 10-11 {\x0atPIPE 12-13 |\x0atIDENTIFIER 13-14 a\x0atPIPE 14-15 |\x0atIDENTIFIER 16-18 _1\x0atRCURLY 19-20 }\x0atRCURLY 21-22 }\x0aEOF 22-22 " },
    Rec { t: b"m { _1; _1 }", shape: b"(numblock call=(send method_name=\x22m\x22 args=[]) numargs=1 body=(begin statements=[(lvar name=\x22_1\x22) (lvar name=\x22_1\x22)]))", full: b"(numblock call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) numargs=1 body=(begin statements=[(lvar name=\x22_1\x22 expression=4-6) (lvar name=\x22_1\x22 expression=8-10)] expression=4-10) begin=2-3 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atIDENTIFIER 4-6 _1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 _1\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"m { n { o { _1 } }; _\xffD }", shape: b"(numblock call=(send method_name=\x22m\x22 args=[]) numargs=\xff\x00 body=(begin statements=[(block call=(send method_name=\x22n\x22 args=[]) body=(numblock call=(send method_name=\x22o\x22 args=[]) numargs=1 body=(lvar name=\x22_1\x22))) (lvar name=\x22_\xff\x00\x22)]))", full: b"(numblock call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) numargs=\xff\x00 body=(begin statements=[(block call=(send method_name=\x22n\x22 args=[] selector=4-5 expression=4-5) body=(numblock call=(send method_name=\x22o\x22 args=[] selector=8-9 expression=8-9) numargs=1 body=(lvar name=\x22_1\x22 expression=12-14) begin=10-11 end=15-16 expression=8-16) begin=6-7 end=17-18 expression=4-18) (lvar name=\x22_\xff\x00\x22 expression=20-22)] expression=4-22) begin=2-3 end=23-24 expression=0-24)", diag: b"\x0aE 20-22 numbered parameter is already used", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atIDENTIFIER 4-5 n\x0atLCURLY 6-7 {\x0atIDENTIFIER 8-9 o\x0atLCURLY 10-11 {\x0atIDENTIFIER 12-14 _1\x0atRCURLY 15-16 }\x0atRCURLY 17-18 }\x0atSEMI 18-19 ;\x0atIDENTIFIER 20-22 _\xff\x00\x0atRCURLY 23-24 }\x0aEOF 24-24 " },
    Rec { t: b"m { def k; n { _1 } end; _1 }", shape: b"(numblock call=(send method_name=\x22m\x22 args=[]) numargs=1 body=(begin statements=[(def name=\x22k\x22 body=(numblock call=(send method_name=\x22n\x22 args=[]) numargs=1 body=(lvar name=\x22_1\x22))) (lvar name=\x22_1\x22)]))", full: b"(numblock call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) numargs=1 body=(begin statements=[(def name=\x22k\x22 body=(numblock call=(send method_name=\x22n\x22 args=[] selector=11-12 expression=11-12) numargs=1 body=(lvar name=\x22_1\x22 expression=15-17) begin=13-14 end=18-19 expression=11-19) keyword=4-7 name=8-9 end=20-23 expression=4-23) (lvar name=\x22_1\x22 expression=25-27)] expression=4-27) begin=2-3 end=28-29 expression=0-29)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0akDEF 4-7 def\x0atIDENTIFIER 8-9 k\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-12 n\x0atLCURLY 13-14 {\x0atIDENTIFIER 15-17 _1\x0atRCURLY 18-19 }\x0akEND 20-23 end\x0atSEMI 23-24 ;\x0atIDENTIFIER 25-27 _1\x0atRCURLY 28-29 }\x0aEOF 29-29 " },
    Rec { t: b"m { class << self; n { _1 } end; _1 }", shape: b"(numblock call=(send method_name=\x22m\x22 args=[]) numargs=1 body=(begin statements=[(s_class expr=(self_) body=(numblock call=(send method_name=\x22n\x22 args=[]) numargs=1 body=(lvar name=\x22_1\x22))) (lvar name=\x22_1\x22)]))", full: b"(numblock call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) numargs=1 body=(begin statements=[(s_class expr=(self_ expression=13-17) body=(numblock call=(send method_name=\x22n\x22 args=[] selector=19-20 expression=19-20) numargs=1 body=(lvar name=\x22_1\x22 expression=23-25) begin=21-22 end=26-27 expression=19-27) keyword=4-9 operator=10-12 end=28-31 expression=4-31) (lvar name=\x22_1\x22 expression=33-35)] expression=4-35) begin=2-3 end=36-37 expression=0-37)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0akCLASS 4-9 class\x0atLSHFT 10-12 <<\x0akSELF 13-17 self\x0atSEMI 17-18 ;\x0atIDENTIFIER 19-20 n\x0atLCURLY 21-22 {\x0atIDENTIFIER 23-25 _1\x0atRCURLY 26-27 }\x0akEND 28-31 end\x0atSEMI 31-32 ;\x0atIDENTIFIER 33-35 _1\x0atRCURLY 36-37 }\x0aEOF 37-37 " },
    Rec { t: b"m { _1; n { 1 }; _1 }", shape: b"(numblock call=(send method_name=\x22m\x22 args=[]) numargs=1 body=(begin statements=[(lvar name=\x22_1\x22) (block call=(send method_name=\x22n\x22 args=[]) body=(int value=\x221\x22)) (lvar name=\x22_1\x22)]))", full: b"(numblock call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) numargs=1 body=(begin statements=[(lvar name=\x22_1\x22 expression=4-6) (block call=(send method_name=\x22n\x22 args=[] selector=8-9 expression=8-9) body=(int value=\x221\x22 expression=12-13) begin=10-11 end=14-15 expression=8-15) (lvar name=\x22_1\x22 expression=17-19)] expression=4-19) begin=2-3 end=20-21 expression=0-21)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atIDENTIFIER 4-6 _1\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-9 n\x0atLCURLY 10-11 {\x0atINTEGER 12-13 1\x0atRCURLY 14-15 }\x0atSEMI 15-16 ;\x0atIDENTIFIER 17-19 _1\x0atRCURLY 20-21 }\x0aEOF 21-21 " },
    Rec { t: b"m { -> { _1 }; _1 }", shape: b"(numblock call=(send method_name=\x22m\x22 args=[]) numargs=1 body=(begin statements=[(numblock call=(lambda) numargs=1 body=(lvar name=\x22_1\x22)) (lvar name=\x22_1\x22)]))", full: b"(numblock call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) numargs=1 body=(begin statements=[(numblock call=(lambda expression=4-6) numargs=1 body=(lvar name=\x22_1\x22 expression=9-11) begin=7-8 end=12-13 expression=4-13) (lvar name=\x22_1\x22 expression=15-17)] expression=4-17) begin=2-3 end=18-19 expression=0-19)", diag: b"\x0aE 15-17 numbered parameter is already used", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atLAMBDA 4-6 ->\x0atLAMBEG 7-8 {\x0atIDENTIFIER 9-11 _1\x0atRCURLY 12-13 }\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 _1\x0atRCURLY 18-19 }\x0aEOF 19-19 " },
    Rec { t: b"case 0; in {a\xffa: 1, a\xfe\x00: 2}; end", shape: b"none", full: b"none", diag: b"\x0aE 19-22 duplicated key name", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atLABEL 12-15 a\xff\x00\x0atINTEGER 16-17 1\x0atCOMMA 17-18 ,\x0atLABEL 19-22 a\xff\x00\x0atINTEGER 23-24 2\x0atRCURLY 24-25 }\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"case 0; in {a\xffa:, a\xfe\x00:}; end", shape: b"none", full: b"none", diag: b"\x0aE 17-19 duplicated variable name", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atLABEL 12-15 a\xff\x00\x0atCOMMA 15-16 ,\x0atLABEL 17-20 a\xff\x00\x0atRCURLY 20-21 }\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"case 0; in {a\xffa: 1, \x22a\xfe\x00\x22: 2}; end", shape: b"none", full: b"none", diag: b"\x0aE 19-24 duplicated key name", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atLABEL 12-15 a\xff\x00\x0atINTEGER 16-17 1\x0atCOMMA 17-18 ,\x0atSTRING_BEG 19-20 \x22\x0atSTRING_CONTENT 20-22 a\xff\x00\x0atLABEL_END 22-24 \x22:\x0atINTEGER 25-26 2\x0atRCURLY 26-27 }\x0atSEMI 27-28 ;\x0akEND 29-32 end\x0aEOF 32-32 " },
    Rec { t: b"case 0; in {\x22a\xffa\x22: 1, \x22a\xfe\x00\x22: 2}; end", shape: b"none", full: b"none", diag: b"\x0aE 21-26 duplicated key name", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atSTRING_BEG 12-13 \x22\x0atSTRING_CONTENT 13-15 a\xff\x00\x0atLABEL_END 15-17 \x22:\x0atINTEGER 18-19 1\x0atCOMMA 19-20 ,\x0atSTRING_BEG 21-22 \x22\x0atSTRING_CONTENT 22-24 a\xff\x00\x0atLABEL_END 24-26 \x22:\x0atINTEGER 27-28 2\x0atRCURLY 28-29 }\x0atSEMI 29-30 ;\x0akEND 31-34 end\x0aEOF 34-34 " },
    Rec { t: b"case 0; in {a:, b: {a\xffa:, a\xfe\x00: 1}}; end", shape: b"none", full: b"none", diag: b"\x0aE 25-28 duplicated key name", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atLABEL 12-14 a\x0atCOMMA 14-15 ,\x0atLABEL 16-18 b\x0atLBRACE 19-20 {\x0atLABEL 20-23 a\xff\x00\x0atCOMMA 23-24 ,\x0atLABEL 25-28 a\xff\x00\x0atINTEGER 29-30 1\x0atRCURLY 30-31 }\x0atRCURLY 31-32 }\x0atSEMI 32-33 ;\x0akEND 34-37 end\x0aEOF 37-37 " },
    Rec { t: b"case 0; in A(a\xffa: 1, a\xfe\x00: 2); end", shape: b"none", full: b"none", diag: b"\x0aE 20-23 duplicated key name", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atCONSTANT 11-12 A\x0atLPAREN2 12-13 (\x0atLABEL 13-16 a\xff\x00\x0atINTEGER 17-18 1\x0atCOMMA 18-19 ,\x0atLABEL 20-23 a\xff\x00\x0atINTEGER 24-25 2\x0atRPAREN 25-26 )\x0atSEMI 26-27 ;\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"case 0; in a\xffa: 1, a\xfe\x00: 2; end", shape: b"none", full: b"none", diag: b"\x0aE 18-21 duplicated key name", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLABEL 11-14 a\xff\x00\x0atINTEGER 15-16 1\x0atCOMMA 16-17 ,\x0atLABEL 18-21 a\xff\x00\x0atINTEGER 22-23 2\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"0 => {a\xffa: 1, a\xfe\x00: 2}", shape: b"none", full: b"none", diag: b"\x0aE 13-16 duplicated key name", toks: b"\x0atINTEGER 0-1 0\x0atASSOC 2-4 =>\x0atLBRACE 5-6 {\x0atLABEL 6-9 a\xff\x00\x0atINTEGER 10-11 1\x0atCOMMA 11-12 ,\x0atLABEL 13-16 a\xff\x00\x0atINTEGER 17-18 2\x0atRCURLY 18-19 }\x0aEOF 19-19 " },
    Rec { t: b"0 in a\xffa: 1, a\xfe\x00: 2", shape: b"none", full: b"none", diag: b"\x0aE 12-15 duplicated key name", toks: b"\x0atINTEGER 0-1 0\x0akIN 2-4 in\x0atLABEL 5-8 a\xff\x00\x0atINTEGER 9-10 1\x0atCOMMA 10-11 ,\x0atLABEL 12-15 a\xff\x00\x0atINTEGER 16-17 2\x0aEOF 17-17 " },
    Rec { t: b"case 0; in {a\xffa: 1, b: {a\xfe\x00: 2}}; end", shape: b"(case_match expr=(int value=\x220\x22) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22a\xff\x00\x22) value=(int value=\x221\x22)) (pair key=(sym name=\x22b\x22) value=(hash_pattern elements=[(pair key=(sym name=\x22a\xff\x00\x22) value=(int value=\x222\x22))]))]))])", full: b"(case_match expr=(int value=\x220\x22 expression=5-6) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22a\xff\x00\x22 expression=12-14) value=(int value=\x221\x22 expression=16-17) operator=14-15 expression=12-17) (pair key=(sym name=\x22b\x22 expression=19-20) value=(hash_pattern elements=[(pair key=(sym name=\x22a\xff\x00\x22 expression=23-25) value=(int value=\x222\x22 expression=27-28) operator=25-26 expression=23-28)] begin=22-23 end=28-29 expression=22-29) operator=20-21 expression=19-29)] begin=11-12 end=29-30 expression=11-30) keyword=8-10 begin=30-31 expression=8-30)] keyword=0-4 end=32-35 expression=0-35)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atLABEL 12-15 a\xff\x00\x0atINTEGER 16-17 1\x0atCOMMA 17-18 ,\x0atLABEL 19-21 b\x0atLBRACE 22-23 {\x0atLABEL 23-26 a\xff\x00\x0atINTEGER 27-28 2\x0atRCURLY 28-29 }\x0atRCURLY 29-30 }\x0atSEMI 30-31 ;\x0akEND 32-35 end\x0aEOF 35-35 " },
    Rec { t: b"case 0; in [{a\xffa: 1}, {a\xfe\x00: 2}]; end", shape: b"(case_match expr=(int value=\x220\x22) in_bodies=[(in_pattern pattern=(array_pattern elements=[(hash_pattern elements=[(pair key=(sym name=\x22a\xff\x00\x22) value=(int value=\x221\x22))]) (hash_pattern elements=[(pair key=(sym name=\x22a\xff\x00\x22) value=(int value=\x222\x22))])]))])", full: b"(case_match expr=(int value=\x220\x22 expression=5-6) in_bodies=[(in_pattern pattern=(array_pattern elements=[(hash_pattern elements=[(pair key=(sym name=\x22a\xff\x00\x22 expression=13-15) value=(int value=\x221\x22 expression=17-18) operator=15-16 expression=13-18)] begin=12-13 end=18-19 expression=12-19) (hash_pattern elements=[(pair key=(sym name=\x22a\xff\x00\x22 expression=22-24) value=(int value=\x222\x22 expression=26-27) operator=24-25 expression=22-27)] begin=21-22 end=27-28 expression=21-28)] begin=11-12 end=28-29 expression=11-29) keyword=8-10 begin=29-30 expression=8-29)] keyword=0-4 end=31-34 expression=0-34)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACK 11-12 [\x0atLBRACE 12-13 {\x0atLABEL 13-16 a\xff\x00\x0atINTEGER 17-18 1\x0atRCURLY 18-19 }\x0atCOMMA 19-20 ,\x0atLBRACE 21-22 {\x0atLABEL 22-25 a\xff\x00\x0atINTEGER 26-27 2\x0atRCURLY 27-28 }\x0atRBRACK 28-29 ]\x0atSEMI 29-30 ;\x0akEND 31-34 end\x0aEOF 34-34 " },
    Rec { t: b"case 0; in {a\xffa: 1}; in {a\xfe\x00: 2}; end", shape: b"(case_match expr=(int value=\x220\x22) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22a\xff\x00\x22) value=(int value=\x221\x22))])) (in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22a\xff\x00\x22) value=(int value=\x222\x22))]))])", full: b"(case_match expr=(int value=\x220\x22 expression=5-6) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22a\xff\x00\x22 expression=12-14) value=(int value=\x221\x22 expression=16-17) operator=14-15 expression=12-17)] begin=11-12 end=17-18 expression=11-18) keyword=8-10 begin=18-19 expression=8-18) (in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22a\xff\x00\x22 expression=24-26) value=(int value=\x222\x22 expression=28-29) operator=26-27 expression=24-29)] begin=23-24 end=29-30 expression=23-30) keyword=20-22 begin=30-31 expression=20-30)] keyword=0-4 end=32-35 expression=0-35)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atLABEL 12-15 a\xff\x00\x0atINTEGER 16-17 1\x0atRCURLY 17-18 }\x0atSEMI 18-19 ;\x0akIN 20-22 in\x0atLBRACE 23-24 {\x0atLABEL 24-27 a\xff\x00\x0atINTEGER 28-29 2\x0atRCURLY 29-30 }\x0atSEMI 30-31 ;\x0akEND 32-35 end\x0aEOF 35-35 " },
    Rec { t: b"case 0; in {a\xffa: 1} | {a\xfe\x00: 2}; end", shape: b"(case_match expr=(int value=\x220\x22) in_bodies=[(in_pattern pattern=(match_alt lhs=(hash_pattern elements=[(pair key=(sym name=\x22a\xff\x00\x22) value=(int value=\x221\x22))]) rhs=(hash_pattern elements=[(pair key=(sym name=\x22a\xff\x00\x22) value=(int value=\x222\x22))])))])", full: b"(case_match expr=(int value=\x220\x22 expression=5-6) in_bodies=[(in_pattern pattern=(match_alt lhs=(hash_pattern elements=[(pair key=(sym name=\x22a\xff\x00\x22 expression=12-14) value=(int value=\x221\x22 expression=16-17) operator=14-15 expression=12-17)] begin=11-12 end=17-18 expression=11-18) rhs=(hash_pattern elements=[(pair key=(sym name=\x22a\xff\x00\x22 expression=22-24) value=(int value=\x222\x22 expression=26-27) operator=24-25 expression=22-27)] begin=21-22 end=27-28 expression=21-28) operator=19-20 expression=11-28) keyword=8-10 begin=28-29 expression=8-28)] keyword=0-4 end=30-33 expression=0-33)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atLABEL 12-15 a\xff\x00\x0atINTEGER 16-17 1\x0atRCURLY 17-18 }\x0atPIPE 19-20 |\x0atLBRACE 21-22 {\x0atLABEL 22-25 a\xff\x00\x0atINTEGER 26-27 2\x0atRCURLY 27-28 }\x0atSEMI 28-29 ;\x0akEND 30-33 end\x0aEOF 33-33 " },
    Rec { t: b"case 0; in {a: {b: 1}, c: {b: 1}}; end", shape: b"(case_match expr=(int value=\x220\x22) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22a\x22) value=(hash_pattern elements=[(pair key=(sym name=\x22b\x22) value=(int value=\x221\x22))])) (pair key=(sym name=\x22c\x22) value=(hash_pattern elements=[(pair key=(sym name=\x22b\x22) value=(int value=\x221\x22))]))]))])", full: b"(case_match expr=(int value=\x220\x22 expression=5-6) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22a\x22 expression=12-13) value=(hash_pattern elements=[(pair key=(sym name=\x22b\x22 expression=16-17) value=(int value=\x221\x22 expression=19-20) operator=17-18 expression=16-20)] begin=15-16 end=20-21 expression=15-21) operator=13-14 expression=12-21) (pair key=(sym name=\x22c\x22 expression=23-24) value=(hash_pattern elements=[(pair key=(sym name=\x22b\x22 expression=27-28) value=(int value=\x221\x22 expression=30-31) operator=28-29 expression=27-31)] begin=26-27 end=31-32 expression=26-32) operator=24-25 expression=23-32)] begin=11-12 end=32-33 expression=11-33) keyword=8-10 begin=33-34 expression=8-33)] keyword=0-4 end=35-38 expression=0-38)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atLABEL 12-14 a\x0atLBRACE 15-16 {\x0atLABEL 16-18 b\x0atINTEGER 19-20 1\x0atRCURLY 20-21 }\x0atCOMMA 21-22 ,\x0atLABEL 23-25 c\x0atLBRACE 26-27 {\x0atLABEL 27-29 b\x0atINTEGER 30-31 1\x0atRCURLY 31-32 }\x0atRCURLY 32-33 }\x0atSEMI 33-34 ;\x0akEND 35-38 end\x0aEOF 38-38 " },
    Rec { t: b"0 => {a\xffa: 1}; 0 => {a\xfe\x00: 1}", shape: b"(begin statements=[(match_pattern value=(int value=\x220\x22) pattern=(hash_pattern elements=[(pair key=(sym name=\x22a\xff\x00\x22) value=(int value=\x221\x22))])) (match_pattern value=(int value=\x220\x22) pattern=(hash_pattern elements=[(pair key=(sym name=\x22a\xff\x00\x22) value=(int value=\x221\x22))]))])", full: b"(begin statements=[(match_pattern value=(int value=\x220\x22 expression=0-1) pattern=(hash_pattern elements=[(pair key=(sym name=\x22a\xff\x00\x22 expression=6-8) value=(int value=\x221\x22 expression=10-11) operator=8-9 expression=6-11)] begin=5-6 end=11-12 expression=5-12) operator=2-4 expression=0-12) (match_pattern value=(int value=\x220\x22 expression=14-15) pattern=(hash_pattern elements=[(pair key=(sym name=\x22a\xff\x00\x22 expression=20-22) value=(int value=\x221\x22 expression=24-25) operator=22-23 expression=20-25)] begin=19-20 end=25-26 expression=19-26) operator=16-18 expression=14-26)] expression=0-26)", diag: b"", toks: b"\x0atINTEGER 0-1 0\x0atASSOC 2-4 =>\x0atLBRACE 5-6 {\x0atLABEL 6-9 a\xff\x00\x0atINTEGER 10-11 1\x0atRCURLY 11-12 }\x0atSEMI 12-13 ;\x0atINTEGER 14-15 0\x0atASSOC 16-18 =>\x0atLBRACE 19-20 {\x0atLABEL 20-23 a\xff\x00\x0atINTEGER 24-25 1\x0atRCURLY 25-26 }\x0aEOF 26-26 " },
    Rec { t: b"case 0; in {A\xffa:}; end", shape: b"none", full: b"none", diag: b"\x0aE 12-14 key must be valid as local variables", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atLABEL 12-15 A\xff\x00\x0atRCURLY 15-16 }\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"case 0; in {a\xffa?:}; end", shape: b"none", full: b"none", diag: b"\x0aE 12-15 key must be valid as local variables", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atLABEL 12-16 a\xff\x00?\x0atRCURLY 16-17 }\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"case 0; in {a\xffa!:}; end", shape: b"none", full: b"none", diag: b"\x0aE 12-15 key must be valid as local variables", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atLABEL 12-16 a\xff\x00!\x0atRCURLY 16-17 }\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"case 0; in {\x22a b\x22:}; end", shape: b"none", full: b"none", diag: b"\x0aE 13-16 key must be valid as local variables", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atSTRING_BEG 12-13 \x22\x0atSTRING_CONTENT 13-16 a b\x0atLABEL_END 16-18 \x22:\x0atRCURLY 18-19 }\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"case 0; in {\x22A\xffa\x22:}; end", shape: b"none", full: b"none", diag: b"\x0aE 13-15 key must be valid as local variables", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atSTRING_BEG 12-13 \x22\x0atSTRING_CONTENT 13-15 A\xff\x00\x0atLABEL_END 15-17 \x22:\x0atRCURLY 17-18 }\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"case 0; in {\x22a#{b}\x22: 1}; end", shape: b"none", full: b"none", diag: b"\x0aE 12-20 symbol literal with interpolation is not allowed", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atSTRING_BEG 12-13 \x22\x0atSTRING_CONTENT 13-14 a\x0atSTRING_DBEG 14-16 #{\x0atIDENTIFIER 16-17 b\x0atSTRING_DEND 17-18 }\x0atLABEL_END 18-20 \x22:\x0atINTEGER 21-22 1\x0atRCURLY 22-23 }\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"case 0; in {\x22a#{b}\x22:}; end", shape: b"none", full: b"none", diag: b"\x0aE 12-20 symbol literal with interpolation is not allowed", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atSTRING_BEG 12-13 \x22\x0atSTRING_CONTENT 13-14 a\x0atSTRING_DBEG 14-16 #{\x0atIDENTIFIER 16-17 b\x0atSTRING_DEND 17-18 }\x0atLABEL_END 18-20 \x22:\x0atRCURLY 20-21 }\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"case 0; in {\x22a\xffa\x22:}; end", shape: b"(case_match expr=(int value=\x220\x22) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22a\xff\x00\x22)]))])", full: b"(case_match expr=(int value=\x220\x22 expression=5-6) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22a\xff\x00\x22 name=13-15 expression=12-17)] begin=11-12 end=17-18 expression=11-18) keyword=8-10 begin=18-19 expression=8-18)] keyword=0-4 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atSTRING_BEG 12-13 \x22\x0atSTRING_CONTENT 13-15 a\xff\x00\x0atLABEL_END 15-17 \x22:\x0atRCURLY 17-18 }\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"case 0; in {A\xffa: 1}; end", shape: b"(case_match expr=(int value=\x220\x22) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22A\xff\x00\x22) value=(int value=\x221\x22))]))])", full: b"(case_match expr=(int value=\x220\x22 expression=5-6) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22A\xff\x00\x22 expression=12-14) value=(int value=\x221\x22 expression=16-17) operator=14-15 expression=12-17)] begin=11-12 end=17-18 expression=11-18) keyword=8-10 begin=18-19 expression=8-18)] keyword=0-4 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atLABEL 12-15 A\xff\x00\x0atINTEGER 16-17 1\x0atRCURLY 17-18 }\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"case 0; in {a\xffa?: 1}; end", shape: b"(case_match expr=(int value=\x220\x22) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22a\xff\x00?\x22) value=(int value=\x221\x22))]))])", full: b"(case_match expr=(int value=\x220\x22 expression=5-6) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22a\xff\x00?\x22 expression=12-15) value=(int value=\x221\x22 expression=17-18) operator=15-16 expression=12-18)] begin=11-12 end=18-19 expression=11-19) keyword=8-10 begin=19-20 expression=8-19)] keyword=0-4 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atLABEL 12-16 a\xff\x00?\x0atINTEGER 17-18 1\x0atRCURLY 18-19 }\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"case 0; in {\x22a b\x22: 1}; end", shape: b"(case_match expr=(int value=\x220\x22) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22a b\x22) value=(int value=\x221\x22))]))])", full: b"(case_match expr=(int value=\x220\x22 expression=5-6) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22a b\x22 begin=12-13 end=16-17 expression=12-17) value=(int value=\x221\x22 expression=19-20) operator=17-18 expression=12-20)] begin=11-12 end=20-21 expression=11-21) keyword=8-10 begin=21-22 expression=8-21)] keyword=0-4 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atSTRING_BEG 12-13 \x22\x0atSTRING_CONTENT 13-16 a b\x0atLABEL_END 16-18 \x22:\x0atINTEGER 19-20 1\x0atRCURLY 20-21 }\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"0 => ^a\xffa", shape: b"none", full: b"none", diag: b"\x0aE 6-8 a\xff\x00: no such local variable", toks: b"\x0atINTEGER 0-1 0\x0atASSOC 2-4 =>\x0atCARET 5-6 ^\x0atIDENTIFIER 6-8 a\xff\x00\x0aEOF 8-8 " },
    Rec { t: b"case 0; in ^a\xffa; end", shape: b"none", full: b"none", diag: b"\x0aE 12-14 a\xff\x00: no such local variable", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atCARET 11-12 ^\x0atIDENTIFIER 12-14 a\xff\x00\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"case 0; in {b: ^a\xffa}; end", shape: b"none", full: b"none", diag: b"\x0aE 16-18 a\xff\x00: no such local variable", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atLABEL 12-14 b\x0atCARET 15-16 ^\x0atIDENTIFIER 16-18 a\xff\x00\x0atRCURLY 18-19 }\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"case 0; in ^a\xffa..1; end", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=16-17)", diag: b"\x0aE 12-14 a\xff\x00: no such local variable", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atCARET 11-12 ^\x0atIDENTIFIER 12-14 a\xff\x00\x0atDOT2 14-16 ..\x0atINTEGER 16-17 1\x0atSEMI 17-18 ;\x0akEND 19-22 end" },
    Rec { t: b"a\xffa = 1; 0 => ^a\xfe\x00", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (match_pattern value=(int value=\x220\x22) pattern=(pin var=(lvar name=\x22a\xff\x00\x22)))])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (match_pattern value=(int value=\x220\x22 expression=8-9) pattern=(pin var=(lvar name=\x22a\xff\x00\x22 expression=14-16) selector=13-14 expression=13-16) operator=10-12 expression=8-16)] expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0atINTEGER 8-9 0\x0atASSOC 10-12 =>\x0atCARET 13-14 ^\x0atIDENTIFIER 14-16 a\xff\x00\x0aEOF 16-16 " },
    Rec { t: b"a\xffa = 1; case 0; in [^a\xfe\x00, *]; end", shape: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22)) (case_match expr=(int value=\x220\x22) in_bodies=[(in_pattern pattern=(array_pattern elements=[(pin var=(lvar name=\x22a\xff\x00\x22)) (match_rest)]))])])", full: b"(begin statements=[(lvasgn name=\x22a\xff\x00\x22 value=(int value=\x221\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (case_match expr=(int value=\x220\x22 expression=13-14) in_bodies=[(in_pattern pattern=(array_pattern elements=[(pin var=(lvar name=\x22a\xff\x00\x22 expression=21-23) selector=20-21 expression=20-23) (match_rest operator=25-26 expression=25-26)] begin=19-20 end=26-27 expression=19-27) keyword=16-18 begin=27-28 expression=16-27)] keyword=8-12 end=29-32 expression=8-32)] expression=0-32)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 a\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 1\x0atSEMI 6-7 ;\x0akCASE 8-12 case\x0atINTEGER 13-14 0\x0atSEMI 14-15 ;\x0akIN 16-18 in\x0atLBRACK 19-20 [\x0atCARET 20-21 ^\x0atIDENTIFIER 21-23 a\xff\x00\x0atCOMMA 23-24 ,\x0atSTAR 25-26 *\x0atRBRACK 26-27 ]\x0atSEMI 27-28 ;\x0akEND 29-32 end\x0aEOF 32-32 " },
    Rec { t: b"case 0; in [a\xffa, ^a\xfe\x00]; end", shape: b"(case_match expr=(int value=\x220\x22) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22a\xff\x00\x22) (pin var=(lvar name=\x22a\xff\x00\x22))]))])", full: b"(case_match expr=(int value=\x220\x22 expression=5-6) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22a\xff\x00\x22 name=12-14 expression=12-14) (pin var=(lvar name=\x22a\xff\x00\x22 expression=17-19) selector=16-17 expression=16-19)] begin=11-12 end=19-20 expression=11-20) keyword=8-10 begin=20-21 expression=8-20)] keyword=0-4 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACK 11-12 [\x0atIDENTIFIER 12-14 a\xff\x00\x0atCOMMA 14-15 ,\x0atCARET 16-17 ^\x0atIDENTIFIER 17-19 a\xff\x00\x0atRBRACK 19-20 ]\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"case 0; in ^@a\xffa; end", shape: b"(case_match expr=(int value=\x220\x22) in_bodies=[(in_pattern pattern=(pin var=(ivar name=\x22@a\xff\x00\x22)))])", full: b"(case_match expr=(int value=\x220\x22 expression=5-6) in_bodies=[(in_pattern pattern=(pin var=(ivar name=\x22@a\xff\x00\x22 expression=12-15) selector=11-12 expression=11-15) keyword=8-10 begin=15-16 expression=8-15)] keyword=0-4 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atCARET 11-12 ^\x0atIVAR 12-15 @a\xff\x00\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"case 0; in ^@@a\xffa; end", shape: b"(case_match expr=(int value=\x220\x22) in_bodies=[(in_pattern pattern=(pin var=(cvar name=\x22@@a\xff\x00\x22)))])", full: b"(case_match expr=(int value=\x220\x22 expression=5-6) in_bodies=[(in_pattern pattern=(pin var=(cvar name=\x22@@a\xff\x00\x22 expression=12-16) selector=11-12 expression=11-16) keyword=8-10 begin=16-17 expression=8-16)] keyword=0-4 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atCARET 11-12 ^\x0atCVAR 12-16 @@a\xff\x00\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"case 0; in ^$a\xffa; end", shape: b"(case_match expr=(int value=\x220\x22) in_bodies=[(in_pattern pattern=(pin var=(gvar name=\x22$a\xff\x00\x22)))])", full: b"(case_match expr=(int value=\x220\x22 expression=5-6) in_bodies=[(in_pattern pattern=(pin var=(gvar name=\x22$a\xff\x00\x22 expression=12-15) selector=11-12 expression=11-15) keyword=8-10 begin=15-16 expression=8-15)] keyword=0-4 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atCARET 11-12 ^\x0atGVAR 12-15 $a\xff\x00\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"case 0; in ^(a\xffa); end", shape: b"(case_match expr=(int value=\x220\x22) in_bodies=[(in_pattern pattern=(pin var=(begin statements=[(send method_name=\x22a\xff\x00\x22 args=[])])))])", full: b"(case_match expr=(int value=\x220\x22 expression=5-6) in_bodies=[(in_pattern pattern=(pin var=(begin statements=[(send method_name=\x22a\xff\x00\x22 args=[] selector=13-15 expression=13-15)] begin=12-13 end=15-16 expression=12-16) selector=11-12 expression=11-16) keyword=8-10 begin=16-17 expression=8-16)] keyword=0-4 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atCARET 11-12 ^\x0atLPAREN 12-13 (\x0atIDENTIFIER 13-15 a\xff\x00\x0atRPAREN 15-16 )\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"case 0; in ^A\xffa; end", shape: b"(const name=\x22A\xff\x00\x22)", full: b"(const name=\x22A\xff\x00\x22 name=12-14 expression=12-14)", diag: b"\x0aE 12-14 unexpected tCONSTANT", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atCARET 11-12 ^\x0atCONSTANT 12-14 A\xff\x00\x0atSEMI 14-15 ;\x0akEND 16-19 end" },
    Rec { t: b"case 0; in ^1; end", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=12-13)", diag: b"\x0aE 12-13 unexpected tINTEGER", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atCARET 11-12 ^\x0atINTEGER 12-13 1\x0atSEMI 13-14 ;\x0akEND 15-18 end" },
    Rec { t: b"case 0; in a\xffa, ; in *a\xfe\x00, *b, c, *d; end", shape: b"none", full: b"none", diag: b"\x0aE 25-26 unexpected tSTAR\x0aE 34-35 unexpected tSEMI", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atIDENTIFIER 11-13 a\xff\x00\x0atCOMMA 13-14 ,\x0atSEMI 15-16 ;\x0akIN 17-19 in\x0atSTAR 20-21 *\x0atIDENTIFIER 21-23 a\xff\x00\x0atCOMMA 23-24 ,\x0atSTAR 25-26 *\x0atIDENTIFIER 26-27 b\x0atCOMMA 27-28 ,\x0atIDENTIFIER 29-30 c\x0atCOMMA 30-31 ,\x0atSTAR 32-33 *\x0atIDENTIFIER 33-34 d\x0atSEMI 34-35 ;\x0akEND 36-39 end\x0aEOF 39-39 " },
    Rec { t: b"case 0; in *a, *b; end", shape: b"none", full: b"none", diag: b"\x0aE 15-16 unexpected tSTAR", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atSTAR 11-12 *\x0atIDENTIFIER 12-13 a\x0atCOMMA 13-14 ,\x0atSTAR 15-16 *\x0atIDENTIFIER 16-17 b\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"case 0; in **a, **b; end", shape: b"(send method_name=\x22b\x22 args=[])", full: b"(send method_name=\x22b\x22 args=[] selector=18-19 expression=18-19)", diag: b"\x0aE 14-15 unexpected tCOMMA", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atDSTAR 11-13 **\x0atIDENTIFIER 13-14 a\x0atCOMMA 14-15 ,\x0atDSTAR 16-18 **\x0atIDENTIFIER 18-19 b\x0atSEMI 19-20 ;\x0akEND 21-24 end" },
    Rec { t: b"case 0; in {**a, b:}; end", shape: b"none", full: b"none", diag: b"\x0aE 15-16 unexpected tCOMMA", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atDSTAR 12-14 **\x0atIDENTIFIER 14-15 a\x0atCOMMA 15-16 ,\x0atLABEL 17-19 b\x0atRCURLY 19-20 }\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"case 0; in {**nil, a:}; end", shape: b"none", full: b"none", diag: b"\x0aE 17-18 unexpected tCOMMA", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atDSTAR 12-14 **\x0akNIL 14-17 nil\x0atCOMMA 17-18 ,\x0atLABEL 19-21 a\x0atRCURLY 21-22 }\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"case 0; in {**nil, **a}; end", shape: b"(send method_name=\x22a\x22 args=[])", full: b"(send method_name=\x22a\x22 args=[] selector=21-22 expression=21-22)", diag: b"\x0aE 17-18 unexpected tCOMMA", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atDSTAR 12-14 **\x0akNIL 14-17 nil\x0atCOMMA 17-18 ,\x0atDSTAR 19-21 **\x0atIDENTIFIER 21-22 a\x0atRCURLY 22-23 }" },
    Rec { t: b"case 0; in {a:, **nil}; end", shape: b"(case_match expr=(int value=\x220\x22) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22a\x22) (match_nil_pattern)]))])", full: b"(case_match expr=(int value=\x220\x22 expression=5-6) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22a\x22 name=12-13 expression=12-14) (match_nil_pattern operator=16-18 name=18-21 expression=16-21)] begin=11-12 end=21-22 expression=11-22) keyword=8-10 begin=22-23 expression=8-22)] keyword=0-4 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atLABEL 12-14 a\x0atCOMMA 14-15 ,\x0atDSTAR 16-18 **\x0akNIL 18-21 nil\x0atRCURLY 21-22 }\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"case 0; in a\xffa.b; end", shape: b"(send method_name=\x22b\x22 args=[])", full: b"(send method_name=\x22b\x22 args=[] selector=14-15 expression=14-15)", diag: b"\x0aE 13-14 unexpected tDOT", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atIDENTIFIER 11-13 a\xff\x00\x0atDOT 13-14 .\x0atIDENTIFIER 14-15 b\x0atSEMI 15-16 ;\x0akEND 17-20 end" },
    Rec { t: b"case 0; in a\xffa(); end", shape: b"none", full: b"none", diag: b"\x0aE 13-14 unexpected tLPAREN2", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atIDENTIFIER 11-13 a\xff\x00\x0atLPAREN2 13-14 (\x0atRPAREN 14-15 )\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"case 0; in a + b; end", shape: b"(send method_name=\x22b\x22 args=[])", full: b"(send method_name=\x22b\x22 args=[] selector=15-16 expression=15-16)", diag: b"\x0aE 13-14 unexpected tPLUS", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atIDENTIFIER 11-12 a\x0atPLUS 13-14 +\x0atIDENTIFIER 15-16 b\x0atSEMI 16-17 ;\x0akEND 18-21 end" },
    Rec { t: b"case 0; in @a\xffa; end", shape: b"(ivar name=\x22@a\xff\x00\x22)", full: b"(ivar name=\x22@a\xff\x00\x22 expression=11-14)", diag: b"\x0aE 11-14 unexpected tIVAR", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atIVAR 11-14 @a\xff\x00\x0atSEMI 14-15 ;\x0akEND 16-19 end" },
    Rec { t: b"case 0; when 1; in 2; end", shape: b"(int value=\x222\x22)", full: b"(int value=\x222\x22 expression=19-20)", diag: b"\x0aE 16-18 unexpected kIN", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akWHEN 8-12 when\x0atINTEGER 13-14 1\x0atSEMI 14-15 ;\x0akIN 16-18 in\x0atINTEGER 19-20 2\x0atSEMI 20-21 ;\x0akEND 22-25 end" },
    Rec { t: b"case 0; in 1; when 2; end", shape: b"(int value=\x222\x22)", full: b"(int value=\x222\x22 expression=19-20)", diag: b"\x0aE 14-18 unexpected kWHEN", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atINTEGER 11-12 1\x0atSEMI 12-13 ;\x0akWHEN 14-18 when\x0atINTEGER 19-20 2\x0atSEMI 20-21 ;\x0akEND 22-25 end" },
    Rec { t: b"case; in 1; end", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=9-10)", diag: b"\x0aE 6-8 unexpected kIN", toks: b"\x0akCASE 0-4 case\x0atSEMI 4-5 ;\x0akIN 6-8 in\x0atINTEGER 9-10 1\x0atSEMI 10-11 ;\x0akEND 12-15 end" },
    Rec { t: b"case; when 1; end", shape: b"(case when_bodies=[(when patterns=[(int value=\x221\x22)])])", full: b"(case when_bodies=[(when patterns=[(int value=\x221\x22 expression=11-12)] keyword=6-10 begin=12-13 expression=6-12)] keyword=0-4 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atSEMI 4-5 ;\x0akWHEN 6-10 when\x0atINTEGER 11-12 1\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"case 0; end", shape: b"none", full: b"none", diag: b"\x0aE 8-11 unexpected kEND", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akEND 8-11 end\x0aEOF 11-11 " },
    Rec { t: b"case 0; else; end", shape: b"none", full: b"none", diag: b"\x0aE 8-12 unexpected kELSE", toks: b"\x0akCASE 0-4 case\x0atINTEGER 5-6 0\x0atSEMI 6-7 ;\x0akELSE 8-12 else\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"def m(a\xffa = a\xfe\x00) end", shape: b"(def name=\x22m\x22 args=(args args=[(optarg name=\x22a\xff\x00\x22 default=(lvar name=\x22a\xff\x00\x22))]))", full: b"(def name=\x22m\x22 args=(args args=[(optarg name=\x22a\xff\x00\x22 default=(lvar name=\x22a\xff\x00\x22 expression=11-13) name=6-8 operator=9-10 expression=6-13)] expression=5-14 begin=5-6 end=13-14) keyword=0-3 name=4-5 end=15-18 expression=0-18)", diag: b"\x0aE 11-13 circular argument reference - a\xff\x00", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 a\xff\x00\x0atEQL 9-10 =\x0atIDENTIFIER 11-13 a\xff\x00\x0atRPAREN 13-14 )\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"def m(a\xffa: a\xfe\x00) end", shape: b"(def name=\x22m\x22 args=(args args=[(kwoptarg name=\x22a\xff\x00\x22 default=(lvar name=\x22a\xff\x00\x22))]))", full: b"(def name=\x22m\x22 args=(args args=[(kwoptarg name=\x22a\xff\x00\x22 default=(lvar name=\x22a\xff\x00\x22 expression=10-12) name=6-8 expression=6-12)] expression=5-13 begin=5-6 end=12-13) keyword=0-3 name=4-5 end=14-17 expression=0-17)", diag: b"\x0aE 10-12 circular argument reference - a\xff\x00", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atLABEL 6-9 a\xff\x00\x0atIDENTIFIER 10-12 a\xff\x00\x0atRPAREN 12-13 )\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"m { |a\xffa = a\xfe\x00| }", shape: b"(block call=(send method_name=\x22m\x22 args=[]) args=(args args=[(optarg name=\x22a\xff\x00\x22 default=(lvar name=\x22a\xff\x00\x22))]))", full: b"(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) args=(args args=[(optarg name=\x22a\xff\x00\x22 default=(lvar name=\x22a\xff\x00\x22 expression=10-12) name=5-7 operator=8-9 expression=5-12)] expression=4-13 begin=4-5 end=12-13) begin=2-3 end=14-15 expression=0-15)", diag: b"\x0aE 10-12 circular argument reference - a\xff\x00", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atIDENTIFIER 5-7 a\xff\x00\x0atEQL 8-9 =\x0atIDENTIFIER 10-12 a\xff\x00\x0atPIPE 12-13 |\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"->(a\xffa = a\xfe\x00) {}", shape: b"(block call=(lambda) args=(args args=[(optarg name=\x22a\xff\x00\x22 default=(lvar name=\x22a\xff\x00\x22))]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(optarg name=\x22a\xff\x00\x22 default=(lvar name=\x22a\xff\x00\x22 expression=8-10) name=3-5 operator=6-7 expression=3-10)] expression=2-11 begin=2-3 end=10-11) begin=12-13 end=13-14 expression=0-14)", diag: b"\x0aE 8-10 circular argument reference - a\xff\x00", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 a\xff\x00\x0atEQL 6-7 =\x0atIDENTIFIER 8-10 a\xff\x00\x0atRPAREN 10-11 )\x0atLAMBEG 12-13 {\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"def m(a, b\xffa = b\xfe\x00) end", shape: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22a\x22) (optarg name=\x22b\xff\x00\x22 default=(lvar name=\x22b\xff\x00\x22))]))", full: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22a\x22 expression=6-7) (optarg name=\x22b\xff\x00\x22 default=(lvar name=\x22b\xff\x00\x22 expression=14-16) name=9-11 operator=12-13 expression=9-16)] expression=5-17 begin=5-6 end=16-17) keyword=0-3 name=4-5 end=18-21 expression=0-21)", diag: b"\x0aE 14-16 circular argument reference - b\xff\x00", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-7 a\x0atCOMMA 7-8 ,\x0atIDENTIFIER 9-11 b\xff\x00\x0atEQL 12-13 =\x0atIDENTIFIER 14-16 b\xff\x00\x0atRPAREN 16-17 )\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"def m(a\xffa = b(a\xfe\x00)) end", shape: b"(def name=\x22m\x22 args=(args args=[(optarg name=\x22a\xff\x00\x22 default=(send method_name=\x22b\x22 args=[(lvar name=\x22a\xff\x00\x22)]))]))", full: b"(def name=\x22m\x22 args=(args args=[(optarg name=\x22a\xff\x00\x22 default=(send method_name=\x22b\x22 args=[(lvar name=\x22a\xff\x00\x22 expression=13-15)] selector=11-12 begin=12-13 end=15-16 expression=11-16) name=6-8 operator=9-10 expression=6-16)] expression=5-17 begin=5-6 end=16-17) keyword=0-3 name=4-5 end=18-21 expression=0-21)", diag: b"\x0aE 13-15 circular argument reference - a\xff\x00", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 a\xff\x00\x0atEQL 9-10 =\x0atIDENTIFIER 11-12 b\x0atLPAREN2 12-13 (\x0atIDENTIFIER 13-15 a\xff\x00\x0atRPAREN 15-16 )\x0atRPAREN 16-17 )\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"def m(a\xffa = [a\xfe\x00]) end", shape: b"(def name=\x22m\x22 args=(args args=[(optarg name=\x22a\xff\x00\x22 default=(array elements=[(lvar name=\x22a\xff\x00\x22)]))]))", full: b"(def name=\x22m\x22 args=(args args=[(optarg name=\x22a\xff\x00\x22 default=(array elements=[(lvar name=\x22a\xff\x00\x22 expression=12-14)] begin=11-12 end=14-15 expression=11-15) name=6-8 operator=9-10 expression=6-15)] expression=5-16 begin=5-6 end=15-16) keyword=0-3 name=4-5 end=17-20 expression=0-20)", diag: b"\x0aE 12-14 circular argument reference - a\xff\x00", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 a\xff\x00\x0atEQL 9-10 =\x0atLBRACK 11-12 [\x0atIDENTIFIER 12-14 a\xff\x00\x0atRBRACK 14-15 ]\x0atRPAREN 15-16 )\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"def m(a\xffa = b\xffa) end", shape: b"(def name=\x22m\x22 args=(args args=[(optarg name=\x22a\xff\x00\x22 default=(send method_name=\x22b\xff\x01\x22 args=[]))]))", full: b"(def name=\x22m\x22 args=(args args=[(optarg name=\x22a\xff\x00\x22 default=(send method_name=\x22b\xff\x01\x22 args=[] selector=11-13 expression=11-13) name=6-8 operator=9-10 expression=6-13)] expression=5-14 begin=5-6 end=13-14) keyword=0-3 name=4-5 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 a\xff\x00\x0atEQL 9-10 =\x0atIDENTIFIER 11-13 b\xff\x01\x0atRPAREN 13-14 )\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"def m(a\xffa, b\xffa = a\xfe\x00) end", shape: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22a\xff\x00\x22) (optarg name=\x22b\xff\x01\x22 default=(lvar name=\x22a\xff\x00\x22))]))", full: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22a\xff\x00\x22 expression=6-8) (optarg name=\x22b\xff\x01\x22 default=(lvar name=\x22a\xff\x00\x22 expression=15-17) name=10-12 operator=13-14 expression=10-17)] expression=5-18 begin=5-6 end=17-18) keyword=0-3 name=4-5 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 a\xff\x00\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 b\xff\x01\x0atEQL 13-14 =\x0atIDENTIFIER 15-17 a\xff\x00\x0atRPAREN 17-18 )\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"def m(a\xffa = 1, b\xffa = a\xfe\x00) end", shape: b"(def name=\x22m\x22 args=(args args=[(optarg name=\x22a\xff\x00\x22 default=(int value=\x221\x22)) (optarg name=\x22b\xff\x01\x22 default=(lvar name=\x22a\xff\x00\x22))]))", full: b"(def name=\x22m\x22 args=(args args=[(optarg name=\x22a\xff\x00\x22 default=(int value=\x221\x22 expression=11-12) name=6-8 operator=9-10 expression=6-12) (optarg name=\x22b\xff\x01\x22 default=(lvar name=\x22a\xff\x00\x22 expression=19-21) name=14-16 operator=17-18 expression=14-21)] expression=5-22 begin=5-6 end=21-22) keyword=0-3 name=4-5 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 a\xff\x00\x0atEQL 9-10 =\x0atINTEGER 11-12 1\x0atCOMMA 12-13 ,\x0atIDENTIFIER 14-16 b\xff\x01\x0atEQL 17-18 =\x0atIDENTIFIER 19-21 a\xff\x00\x0atRPAREN 21-22 )\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"def m(a\xffa: 1, b\xffa: a\xfe\x00) end", shape: b"(def name=\x22m\x22 args=(args args=[(kwoptarg name=\x22a\xff\x00\x22 default=(int value=\x221\x22)) (kwoptarg name=\x22b\xff\x01\x22 default=(lvar name=\x22a\xff\x00\x22))]))", full: b"(def name=\x22m\x22 args=(args args=[(kwoptarg name=\x22a\xff\x00\x22 default=(int value=\x221\x22 expression=10-11) name=6-8 expression=6-11) (kwoptarg name=\x22b\xff\x01\x22 default=(lvar name=\x22a\xff\x00\x22 expression=17-19) name=13-15 expression=13-19)] expression=5-20 begin=5-6 end=19-20) keyword=0-3 name=4-5 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atLABEL 6-9 a\xff\x00\x0atINTEGER 10-11 1\x0atCOMMA 11-12 ,\x0atLABEL 13-16 b\xff\x01\x0atIDENTIFIER 17-19 a\xff\x00\x0atRPAREN 19-20 )\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"def m(a\xffa = self.a\xfe\x00) end", shape: b"(def name=\x22m\x22 args=(args args=[(optarg name=\x22a\xff\x00\x22 default=(send recv=(self_) method_name=\x22a\xff\x00\x22 args=[]))]))", full: b"(def name=\x22m\x22 args=(args args=[(optarg name=\x22a\xff\x00\x22 default=(send recv=(self_ expression=11-15) method_name=\x22a\xff\x00\x22 args=[] dot=15-16 selector=16-18 expression=11-18) name=6-8 operator=9-10 expression=6-18)] expression=5-19 begin=5-6 end=18-19) keyword=0-3 name=4-5 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 a\xff\x00\x0atEQL 9-10 =\x0akSELF 11-15 self\x0atDOT 15-16 .\x0atIDENTIFIER 16-18 a\xff\x00\x0atRPAREN 18-19 )\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"def m(a\xffa = a\xfe\x00()) end", shape: b"(def name=\x22m\x22 args=(args args=[(optarg name=\x22a\xff\x00\x22 default=(send method_name=\x22a\xff\x00\x22 args=[]))]))", full: b"(def name=\x22m\x22 args=(args args=[(optarg name=\x22a\xff\x00\x22 default=(send method_name=\x22a\xff\x00\x22 args=[] selector=11-13 begin=13-14 end=14-15 expression=11-15) name=6-8 operator=9-10 expression=6-15)] expression=5-16 begin=5-6 end=15-16) keyword=0-3 name=4-5 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 a\xff\x00\x0atEQL 9-10 =\x0atIDENTIFIER 11-13 a\xff\x00\x0atLPAREN2 13-14 (\x0atRPAREN 14-15 )\x0atRPAREN 15-16 )\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"def m(a\xffa = m { |a\xfe\x00| a\xfe\x00 }) end", shape: b"(def name=\x22m\x22 args=(args args=[(optarg name=\x22a\xff\x00\x22 default=(block call=(send method_name=\x22m\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22a\xff\x00\x22)])]) body=(lvar name=\x22a\xff\x00\x22)))]))", full: b"(def name=\x22m\x22 args=(args args=[(optarg name=\x22a\xff\x00\x22 default=(block call=(send method_name=\x22m\x22 args=[] selector=11-12 expression=11-12) args=(args args=[(procarg0 args=[(arg name=\x22a\xff\x00\x22 expression=16-18)] expression=16-18)] expression=15-19 begin=15-16 end=18-19) body=(lvar name=\x22a\xff\x00\x22 expression=20-22) begin=13-14 end=23-24 expression=11-24) name=6-8 operator=9-10 expression=6-24)] expression=5-25 begin=5-6 end=24-25) keyword=0-3 name=4-5 end=26-29 expression=0-29)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 a\xff\x00\x0atEQL 9-10 =\x0atIDENTIFIER 11-12 m\x0atLCURLY 13-14 {\x0atPIPE 15-16 |\x0atIDENTIFIER 16-18 a\xff\x00\x0atPIPE 18-19 |\x0atIDENTIFIER 20-22 a\xff\x00\x0atRCURLY 23-24 }\x0atRPAREN 24-25 )\x0akEND 26-29 end\x0aEOF 29-29 " },
    Rec { t: b"def m(a\xffa = ->(a\xfe\x00) { a\xfe\x00 }) end", shape: b"(def name=\x22m\x22 args=(args args=[(optarg name=\x22a\xff\x00\x22 default=(block call=(lambda) args=(args args=[(arg name=\x22a\xff\x00\x22)]) body=(lvar name=\x22a\xff\x00\x22)))]))", full: b"(def name=\x22m\x22 args=(args args=[(optarg name=\x22a\xff\x00\x22 default=(block call=(lambda expression=11-13) args=(args args=[(arg name=\x22a\xff\x00\x22 expression=14-16)] expression=13-17 begin=13-14 end=16-17) body=(lvar name=\x22a\xff\x00\x22 expression=20-22) begin=18-19 end=23-24 expression=11-24) name=6-8 operator=9-10 expression=6-24)] expression=5-25 begin=5-6 end=24-25) keyword=0-3 name=4-5 end=26-29 expression=0-29)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 a\xff\x00\x0atEQL 9-10 =\x0atLAMBDA 11-13 ->\x0atLPAREN2 13-14 (\x0atIDENTIFIER 14-16 a\xff\x00\x0atRPAREN 16-17 )\x0atLAMBEG 18-19 {\x0atIDENTIFIER 20-22 a\xff\x00\x0atRCURLY 23-24 }\x0atRPAREN 24-25 )\x0akEND 26-29 end\x0aEOF 29-29 " },
    Rec { t: b"def m(a\xffa = m { a\xfe\x00 }) end", shape: b"(def name=\x22m\x22 args=(args args=[(optarg name=\x22a\xff\x00\x22 default=(block call=(send method_name=\x22m\x22 args=[]) body=(lvar name=\x22a\xff\x00\x22)))]))", full: b"(def name=\x22m\x22 args=(args args=[(optarg name=\x22a\xff\x00\x22 default=(block call=(send method_name=\x22m\x22 args=[] selector=11-12 expression=11-12) body=(lvar name=\x22a\xff\x00\x22 expression=15-17) begin=13-14 end=18-19 expression=11-19) name=6-8 operator=9-10 expression=6-19)] expression=5-20 begin=5-6 end=19-20) keyword=0-3 name=4-5 end=21-24 expression=0-24)", diag: b"\x0aE 15-17 circular argument reference - a\xff\x00", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 a\xff\x00\x0atEQL 9-10 =\x0atIDENTIFIER 11-12 m\x0atLCURLY 13-14 {\x0atIDENTIFIER 15-17 a\xff\x00\x0atRCURLY 18-19 }\x0atRPAREN 19-20 )\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"def m(a = 1) a = a end", shape: b"(def name=\x22m\x22 args=(args args=[(optarg name=\x22a\x22 default=(int value=\x221\x22))]) body=(lvasgn name=\x22a\x22 value=(lvar name=\x22a\x22)))", full: b"(def name=\x22m\x22 args=(args args=[(optarg name=\x22a\x22 default=(int value=\x221\x22 expression=10-11) name=6-7 operator=8-9 expression=6-11)] expression=5-12 begin=5-6 end=11-12) body=(lvasgn name=\x22a\x22 value=(lvar name=\x22a\x22 expression=17-18) name=13-14 operator=15-16 expression=13-18) keyword=0-3 name=4-5 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-7 a\x0atEQL 8-9 =\x0atINTEGER 10-11 1\x0atRPAREN 11-12 )\x0atIDENTIFIER 13-14 a\x0atEQL 15-16 =\x0atIDENTIFIER 17-18 a\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"def m(a\xffa = b\xffa) a\xfe\x00 end", shape: b"(def name=\x22m\x22 args=(args args=[(optarg name=\x22a\xff\x00\x22 default=(send method_name=\x22b\xff\x01\x22 args=[]))]) body=(lvar name=\x22a\xff\x00\x22))", full: b"(def name=\x22m\x22 args=(args args=[(optarg name=\x22a\xff\x00\x22 default=(send method_name=\x22b\xff\x01\x22 args=[] selector=11-13 expression=11-13) name=6-8 operator=9-10 expression=6-13)] expression=5-14 begin=5-6 end=13-14) body=(lvar name=\x22a\xff\x00\x22 expression=15-17) keyword=0-3 name=4-5 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 a\xff\x00\x0atEQL 9-10 =\x0atIDENTIFIER 11-13 b\xff\x01\x0atRPAREN 13-14 )\x0atIDENTIFIER 15-17 a\xff\x00\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"m { |a = 1| a }", shape: b"(block call=(send method_name=\x22m\x22 args=[]) args=(args args=[(optarg name=\x22a\x22 default=(int value=\x221\x22))]) body=(lvar name=\x22a\x22))", full: b"(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) args=(args args=[(optarg name=\x22a\x22 default=(int value=\x221\x22 expression=9-10) name=5-6 operator=7-8 expression=5-10)] expression=4-11 begin=4-5 end=10-11) body=(lvar name=\x22a\x22 expression=12-13) begin=2-3 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atIDENTIFIER 5-6 a\x0atEQL 7-8 =\x0atINTEGER 9-10 1\x0atPIPE 10-11 |\x0atIDENTIFIER 12-13 a\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"m(&a) { }", shape: b"none", full: b"none", diag: b"\x0aE 2-4 both block arg and actual block given", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atAMPER 2-3 &\x0atIDENTIFIER 3-4 a\x0atRPAREN 4-5 )\x0atLCURLY 6-7 {\x0atRCURLY 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"m(1, &a) { }", shape: b"none", full: b"none", diag: b"\x0aE 5-7 both block arg and actual block given", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atINTEGER 2-3 1\x0atCOMMA 3-4 ,\x0atAMPER 5-6 &\x0atIDENTIFIER 6-7 a\x0atRPAREN 7-8 )\x0atLCURLY 9-10 {\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"m(&a) do end", shape: b"none", full: b"none", diag: b"\x0aE 2-4 both block arg and actual block given", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atAMPER 2-3 &\x0atIDENTIFIER 3-4 a\x0atRPAREN 4-5 )\x0akDO 6-8 do\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"m &a do end", shape: b"none", full: b"none", diag: b"\x0aW 2-3 `&' interpreted as argument prefix\x0aE 2-4 both block arg and actual block given", toks: b"\x0atIDENTIFIER 0-1 m\x0atAMPER 2-3 &\x0atIDENTIFIER 3-4 a\x0akDO_BLOCK 5-7 do\x0akEND 8-11 end\x0aEOF 11-11 " },
    Rec { t: b"m 1, &a do end", shape: b"none", full: b"none", diag: b"\x0aE 5-7 both block arg and actual block given", toks: b"\x0atIDENTIFIER 0-1 m\x0atINTEGER 2-3 1\x0atCOMMA 3-4 ,\x0atAMPER 5-6 &\x0atIDENTIFIER 6-7 a\x0akDO_BLOCK 8-10 do\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"a.m(&b) { }", shape: b"none", full: b"none", diag: b"\x0aE 4-6 both block arg and actual block given", toks: b"\x0atIDENTIFIER 0-1 a\x0atDOT 1-2 .\x0atIDENTIFIER 2-3 m\x0atLPAREN2 3-4 (\x0atAMPER 4-5 &\x0atIDENTIFIER 5-6 b\x0atRPAREN 6-7 )\x0atLCURLY 8-9 {\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"a.m &b do end", shape: b"none", full: b"none", diag: b"\x0aW 4-5 `&' interpreted as argument prefix\x0aE 4-6 both block arg and actual block given", toks: b"\x0atIDENTIFIER 0-1 a\x0atDOT 1-2 .\x0atIDENTIFIER 2-3 m\x0atAMPER 4-5 &\x0atIDENTIFIER 5-6 b\x0akDO_BLOCK 7-9 do\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"super(&a) { }", shape: b"none", full: b"none", diag: b"\x0aE 6-8 both block arg and actual block given", toks: b"\x0akSUPER 0-5 super\x0atLPAREN2 5-6 (\x0atAMPER 6-7 &\x0atIDENTIFIER 7-8 a\x0atRPAREN 8-9 )\x0atLCURLY 10-11 {\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"super(1, &a) do end", shape: b"none", full: b"none", diag: b"\x0aE 9-11 both block arg and actual block given", toks: b"\x0akSUPER 0-5 super\x0atLPAREN2 5-6 (\x0atINTEGER 6-7 1\x0atCOMMA 7-8 ,\x0atAMPER 9-10 &\x0atIDENTIFIER 10-11 a\x0atRPAREN 11-12 )\x0akDO 13-15 do\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"super { }", shape: b"(block call=(z_super))", full: b"(block call=(z_super expression=0-5) begin=6-7 end=8-9 expression=0-9)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atLCURLY 6-7 {\x0atRCURLY 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"super() { }", shape: b"(block call=(super args=[]))", full: b"(block call=(super args=[] keyword=0-5 begin=5-6 end=6-7 expression=0-7) begin=8-9 end=10-11 expression=0-11)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atLPAREN2 5-6 (\x0atRPAREN 6-7 )\x0atLCURLY 8-9 {\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"super &a do end", shape: b"none", full: b"none", diag: b"\x0aW 6-7 `&' interpreted as argument prefix\x0aE 6-8 both block arg and actual block given", toks: b"\x0akSUPER 0-5 super\x0atAMPER 6-7 &\x0atIDENTIFIER 7-8 a\x0akDO_BLOCK 9-11 do\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"a&.m(&b) { }", shape: b"none", full: b"none", diag: b"\x0aE 5-7 both block arg and actual block given", toks: b"\x0atIDENTIFIER 0-1 a\x0atANDDOT 1-3 &.\x0atIDENTIFIER 3-4 m\x0atLPAREN2 4-5 (\x0atAMPER 5-6 &\x0atIDENTIFIER 6-7 b\x0atRPAREN 7-8 )\x0atLCURLY 9-10 {\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"a::m(&b) { }", shape: b"none", full: b"none", diag: b"\x0aE 5-7 both block arg and actual block given", toks: b"\x0atIDENTIFIER 0-1 a\x0atCOLON2 1-3 ::\x0atIDENTIFIER 3-4 m\x0atLPAREN2 4-5 (\x0atAMPER 5-6 &\x0atIDENTIFIER 6-7 b\x0atRPAREN 7-8 )\x0atLCURLY 9-10 {\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"a.(&b) { }", shape: b"none", full: b"none", diag: b"\x0aE 3-5 both block arg and actual block given", toks: b"\x0atIDENTIFIER 0-1 a\x0atDOT 1-2 .\x0atLPAREN2 2-3 (\x0atAMPER 3-4 &\x0atIDENTIFIER 4-5 b\x0atRPAREN 5-6 )\x0atLCURLY 7-8 {\x0atRCURLY 9-10 }\x0aEOF 10-10 " },
    Rec { t: b"m(a) { }", shape: b"(block call=(send method_name=\x22m\x22 args=[(send method_name=\x22a\x22 args=[])]))", full: b"(block call=(send method_name=\x22m\x22 args=[(send method_name=\x22a\x22 args=[] selector=2-3 expression=2-3)] selector=0-1 begin=1-2 end=3-4 expression=0-4) begin=5-6 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atIDENTIFIER 2-3 a\x0atRPAREN 3-4 )\x0atLCURLY 5-6 {\x0atRCURLY 7-8 }\x0aEOF 8-8 " },
    Rec { t: b"m(*a) { }", shape: b"(block call=(send method_name=\x22m\x22 args=[(splat value=(send method_name=\x22a\x22 args=[]))]))", full: b"(block call=(send method_name=\x22m\x22 args=[(splat value=(send method_name=\x22a\x22 args=[] selector=3-4 expression=3-4) operator=2-3 expression=2-4)] selector=0-1 begin=1-2 end=4-5 expression=0-5) begin=6-7 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atSTAR 2-3 *\x0atIDENTIFIER 3-4 a\x0atRPAREN 4-5 )\x0atLCURLY 6-7 {\x0atRCURLY 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"super(a) { }", shape: b"(block call=(super args=[(send method_name=\x22a\x22 args=[])]))", full: b"(block call=(super args=[(send method_name=\x22a\x22 args=[] selector=6-7 expression=6-7)] keyword=0-5 begin=5-6 end=7-8 expression=0-8) begin=9-10 end=11-12 expression=0-12)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-7 a\x0atRPAREN 7-8 )\x0atLCURLY 9-10 {\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"m(n(&a)) { }", shape: b"(block call=(send method_name=\x22m\x22 args=[(send method_name=\x22n\x22 args=[(block_pass value=(send method_name=\x22a\x22 args=[]))])]))", full: b"(block call=(send method_name=\x22m\x22 args=[(send method_name=\x22n\x22 args=[(block_pass value=(send method_name=\x22a\x22 args=[] selector=5-6 expression=5-6) operator=4-5 expression=4-6)] selector=2-3 begin=3-4 end=6-7 expression=2-7)] selector=0-1 begin=1-2 end=7-8 expression=0-8) begin=9-10 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atIDENTIFIER 2-3 n\x0atLPAREN2 3-4 (\x0atAMPER 4-5 &\x0atIDENTIFIER 5-6 a\x0atRPAREN 6-7 )\x0atRPAREN 7-8 )\x0atLCURLY 9-10 {\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"m n(&a) do end", shape: b"(block call=(send method_name=\x22m\x22 args=[(send method_name=\x22n\x22 args=[(block_pass value=(send method_name=\x22a\x22 args=[]))])]))", full: b"(block call=(send method_name=\x22m\x22 args=[(send method_name=\x22n\x22 args=[(block_pass value=(send method_name=\x22a\x22 args=[] selector=5-6 expression=5-6) operator=4-5 expression=4-6)] selector=2-3 begin=3-4 end=6-7 expression=2-7)] selector=0-1 expression=0-7) begin=8-10 end=11-14 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atIDENTIFIER 2-3 n\x0atLPAREN2 3-4 (\x0atAMPER 4-5 &\x0atIDENTIFIER 5-6 a\x0atRPAREN 6-7 )\x0akDO_BLOCK 8-10 do\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def m; yield { }; end", shape: b"(def name=\x22m\x22)", full: b"(def name=\x22m\x22 keyword=0-3 name=4-5 end=18-21 expression=0-21)", diag: b"\x0aE 13-14 unexpected tLCURLY", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0akYIELD 7-12 yield\x0atLCURLY 13-14 {\x0atRCURLY 15-16 }\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"def m; yield(1) { }; end", shape: b"(def name=\x22m\x22)", full: b"(def name=\x22m\x22 keyword=0-3 name=4-5 end=21-24 expression=0-24)", diag: b"\x0aE 16-17 unexpected tLCURLY", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0akYIELD 7-12 yield\x0atLPAREN2 12-13 (\x0atINTEGER 13-14 1\x0atRPAREN 14-15 )\x0atLCURLY 16-17 {\x0atRCURLY 18-19 }\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"def m; yield 1 do end; end", shape: b"(def name=\x22m\x22)", full: b"(def name=\x22m\x22 keyword=0-3 name=4-5 end=23-26 expression=0-26)", diag: b"\x0aE 7-12 block given to yield", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0akYIELD 7-12 yield\x0atINTEGER 13-14 1\x0akDO_BLOCK 15-17 do\x0akEND 18-21 end\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"def m; yield(&a); end", shape: b"(def name=\x22m\x22)", full: b"(def name=\x22m\x22 keyword=0-3 name=4-5 end=18-21 expression=0-21)", diag: b"\x0aE 7-12 block given to yield", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0akYIELD 7-12 yield\x0atLPAREN2 12-13 (\x0atAMPER 13-14 &\x0atIDENTIFIER 14-15 a\x0atRPAREN 15-16 )\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"def m; yield &a; end", shape: b"(def name=\x22m\x22)", full: b"(def name=\x22m\x22 keyword=0-3 name=4-5 end=17-20 expression=0-20)", diag: b"\x0aW 13-14 `&' interpreted as argument prefix\x0aE 7-12 block given to yield", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0akYIELD 7-12 yield\x0atAMPER 13-14 &\x0atIDENTIFIER 14-15 a\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"def m; yield 1, &a; end", shape: b"(def name=\x22m\x22)", full: b"(def name=\x22m\x22 keyword=0-3 name=4-5 end=20-23 expression=0-23)", diag: b"\x0aE 7-12 block given to yield", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0akYIELD 7-12 yield\x0atINTEGER 13-14 1\x0atCOMMA 14-15 ,\x0atAMPER 16-17 &\x0atIDENTIFIER 17-18 a\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"def m; yield 1; end", shape: b"(def name=\x22m\x22 body=(yield args=[(int value=\x221\x22)]))", full: b"(def name=\x22m\x22 body=(yield args=[(int value=\x221\x22 expression=13-14)] keyword=7-12 expression=7-14) keyword=0-3 name=4-5 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0akYIELD 7-12 yield\x0atINTEGER 13-14 1\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"def m; yield n { }; end", shape: b"(def name=\x22m\x22 body=(yield args=[(block call=(send method_name=\x22n\x22 args=[]))]))", full: b"(def name=\x22m\x22 body=(yield args=[(block call=(send method_name=\x22n\x22 args=[] selector=13-14 expression=13-14) begin=15-16 end=17-18 expression=13-18)] keyword=7-12 expression=7-18) keyword=0-3 name=4-5 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0akYIELD 7-12 yield\x0atIDENTIFIER 13-14 n\x0atLCURLY 15-16 {\x0atRCURLY 17-18 }\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"def m; yield(*a, **b); end", shape: b"(def name=\x22m\x22 body=(yield args=[(splat value=(send method_name=\x22a\x22 args=[])) (kwargs pairs=[(kwsplat value=(send method_name=\x22b\x22 args=[]))])]))", full: b"(def name=\x22m\x22 body=(yield args=[(splat value=(send method_name=\x22a\x22 args=[] selector=14-15 expression=14-15) operator=13-14 expression=13-15) (kwargs pairs=[(kwsplat value=(send method_name=\x22b\x22 args=[] selector=19-20 expression=19-20) operator=17-19 expression=17-20)] expression=17-20)] keyword=7-12 begin=12-13 end=20-21 expression=7-21) keyword=0-3 name=4-5 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0akYIELD 7-12 yield\x0atLPAREN2 12-13 (\x0atSTAR 13-14 *\x0atIDENTIFIER 14-15 a\x0atCOMMA 15-16 ,\x0atDSTAR 17-19 **\x0atIDENTIFIER 19-20 b\x0atRPAREN 20-21 )\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"m(&a, b)", shape: b"(send method_name=\x22b\x22 args=[])", full: b"(send method_name=\x22b\x22 args=[] selector=6-7 expression=6-7)", diag: b"\x0aE 4-5 unexpected tCOMMA", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atAMPER 2-3 &\x0atIDENTIFIER 3-4 a\x0atCOMMA 4-5 ,\x0atIDENTIFIER 6-7 b\x0atRPAREN 7-8 )" },
    Rec { t: b"m(&a, &b)", shape: b"(send method_name=\x22b\x22 args=[])", full: b"(send method_name=\x22b\x22 args=[] selector=7-8 expression=7-8)", diag: b"\x0aE 4-5 unexpected tCOMMA", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atAMPER 2-3 &\x0atIDENTIFIER 3-4 a\x0atCOMMA 4-5 ,\x0atAMPER 6-7 &\x0atIDENTIFIER 7-8 b\x0atRPAREN 8-9 )" },
    Rec { t: b"m(&a, *b)", shape: b"none", full: b"none", diag: b"\x0aE 4-5 unexpected tCOMMA", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atAMPER 2-3 &\x0atIDENTIFIER 3-4 a\x0atCOMMA 4-5 ,\x0atSTAR 6-7 *\x0atIDENTIFIER 7-8 b\x0atRPAREN 8-9 )\x0aEOF 9-9 " },
    Rec { t: b"m(&a, b: 1)", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=9-10)", diag: b"\x0aE 4-5 unexpected tCOMMA", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atAMPER 2-3 &\x0atIDENTIFIER 3-4 a\x0atCOMMA 4-5 ,\x0atLABEL 6-8 b\x0atINTEGER 9-10 1\x0atRPAREN 10-11 )" },
    Rec { t: b"m(a: 1, &b) { }", shape: b"none", full: b"none", diag: b"\x0aE 8-10 both block arg and actual block given", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atLABEL 2-4 a\x0atINTEGER 5-6 1\x0atCOMMA 6-7 ,\x0atAMPER 8-9 &\x0atIDENTIFIER 9-10 b\x0atRPAREN 10-11 )\x0atLCURLY 12-13 {\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"m(**a, b)", shape: b"none", full: b"none", diag: b"\x0aE 8-9 unexpected tRPAREN", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atDSTAR 2-4 **\x0atIDENTIFIER 4-5 a\x0atCOMMA 5-6 ,\x0atIDENTIFIER 7-8 b\x0atRPAREN 8-9 )\x0aEOF 9-9 " },
    Rec { t: b"m(a: 1, b)", shape: b"none", full: b"none", diag: b"\x0aE 9-10 unexpected tRPAREN", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atLABEL 2-4 a\x0atINTEGER 5-6 1\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-9 b\x0atRPAREN 9-10 )\x0aEOF 10-10 " },
    Rec { t: b"m a: 1, b", shape: b"none", full: b"none", diag: b"\x0aE 9-9 unexpected END_OF_INPUT", toks: b"\x0atIDENTIFIER 0-1 m\x0atLABEL 2-4 a\x0atINTEGER 5-6 1\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-9 b\x0aEOF 9-9 " },
    Rec { t: b"m(a, b: 1)", shape: b"(send method_name=\x22m\x22 args=[(send method_name=\x22a\x22 args=[]) (kwargs pairs=[(pair key=(sym name=\x22b\x22) value=(int value=\x221\x22))])])", full: b"(send method_name=\x22m\x22 args=[(send method_name=\x22a\x22 args=[] selector=2-3 expression=2-3) (kwargs pairs=[(pair key=(sym name=\x22b\x22 expression=5-6) value=(int value=\x221\x22 expression=8-9) operator=6-7 expression=5-9)] expression=5-9)] selector=0-1 begin=1-2 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atIDENTIFIER 2-3 a\x0atCOMMA 3-4 ,\x0atLABEL 5-7 b\x0atINTEGER 8-9 1\x0atRPAREN 9-10 )\x0aEOF 10-10 " },
    Rec { t: b"m(*a, b)", shape: b"(send method_name=\x22m\x22 args=[(splat value=(send method_name=\x22a\x22 args=[])) (send method_name=\x22b\x22 args=[])])", full: b"(send method_name=\x22m\x22 args=[(splat value=(send method_name=\x22a\x22 args=[] selector=3-4 expression=3-4) operator=2-3 expression=2-4) (send method_name=\x22b\x22 args=[] selector=6-7 expression=6-7)] selector=0-1 begin=1-2 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atSTAR 2-3 *\x0atIDENTIFIER 3-4 a\x0atCOMMA 4-5 ,\x0atIDENTIFIER 6-7 b\x0atRPAREN 7-8 )\x0aEOF 8-8 " },
    Rec { t: b"m(*a, *b)", shape: b"(send method_name=\x22m\x22 args=[(splat value=(send method_name=\x22a\x22 args=[])) (splat value=(send method_name=\x22b\x22 args=[]))])", full: b"(send method_name=\x22m\x22 args=[(splat value=(send method_name=\x22a\x22 args=[] selector=3-4 expression=3-4) operator=2-3 expression=2-4) (splat value=(send method_name=\x22b\x22 args=[] selector=7-8 expression=7-8) operator=6-7 expression=6-8)] selector=0-1 begin=1-2 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atSTAR 2-3 *\x0atIDENTIFIER 3-4 a\x0atCOMMA 4-5 ,\x0atSTAR 6-7 *\x0atIDENTIFIER 7-8 b\x0atRPAREN 8-9 )\x0aEOF 9-9 " },
    Rec { t: b"m(**a, **b)", shape: b"(send method_name=\x22m\x22 args=[(kwargs pairs=[(kwsplat value=(send method_name=\x22a\x22 args=[])) (kwsplat value=(send method_name=\x22b\x22 args=[]))])])", full: b"(send method_name=\x22m\x22 args=[(kwargs pairs=[(kwsplat value=(send method_name=\x22a\x22 args=[] selector=4-5 expression=4-5) operator=2-4 expression=2-5) (kwsplat value=(send method_name=\x22b\x22 args=[] selector=9-10 expression=9-10) operator=7-9 expression=7-10)] expression=2-10)] selector=0-1 begin=1-2 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atDSTAR 2-4 **\x0atIDENTIFIER 4-5 a\x0atCOMMA 5-6 ,\x0atDSTAR 7-9 **\x0atIDENTIFIER 9-10 b\x0atRPAREN 10-11 )\x0aEOF 11-11 " },
    Rec { t: b"m(**a, b: 1)", shape: b"(send method_name=\x22m\x22 args=[(kwargs pairs=[(kwsplat value=(send method_name=\x22a\x22 args=[])) (pair key=(sym name=\x22b\x22) value=(int value=\x221\x22))])])", full: b"(send method_name=\x22m\x22 args=[(kwargs pairs=[(kwsplat value=(send method_name=\x22a\x22 args=[] selector=4-5 expression=4-5) operator=2-4 expression=2-5) (pair key=(sym name=\x22b\x22 expression=7-8) value=(int value=\x221\x22 expression=10-11) operator=8-9 expression=7-11)] expression=2-11)] selector=0-1 begin=1-2 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atDSTAR 2-4 **\x0atIDENTIFIER 4-5 a\x0atCOMMA 5-6 ,\x0atLABEL 7-9 b\x0atINTEGER 10-11 1\x0atRPAREN 11-12 )\x0aEOF 12-12 " },
    Rec { t: b"m(a: 1, **b)", shape: b"(send method_name=\x22m\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22a\x22) value=(int value=\x221\x22)) (kwsplat value=(send method_name=\x22b\x22 args=[]))])])", full: b"(send method_name=\x22m\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22a\x22 expression=2-3) value=(int value=\x221\x22 expression=5-6) operator=3-4 expression=2-6) (kwsplat value=(send method_name=\x22b\x22 args=[] selector=10-11 expression=10-11) operator=8-10 expression=8-11)] expression=2-11)] selector=0-1 begin=1-2 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atLABEL 2-4 a\x0atINTEGER 5-6 1\x0atCOMMA 6-7 ,\x0atDSTAR 8-10 **\x0atIDENTIFIER 10-11 b\x0atRPAREN 11-12 )\x0aEOF 12-12 " },
    Rec { t: b"m(a: 1, &b)", shape: b"(send method_name=\x22m\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22a\x22) value=(int value=\x221\x22))]) (block_pass value=(send method_name=\x22b\x22 args=[]))])", full: b"(send method_name=\x22m\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22a\x22 expression=2-3) value=(int value=\x221\x22 expression=5-6) operator=3-4 expression=2-6)] expression=2-6) (block_pass value=(send method_name=\x22b\x22 args=[] selector=9-10 expression=9-10) operator=8-9 expression=8-10)] selector=0-1 begin=1-2 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atLABEL 2-4 a\x0atINTEGER 5-6 1\x0atCOMMA 6-7 ,\x0atAMPER 8-9 &\x0atIDENTIFIER 9-10 b\x0atRPAREN 10-11 )\x0aEOF 11-11 " },
    Rec { t: b"[*a, &b]", shape: b"(send method_name=\x22b\x22 args=[])", full: b"(send method_name=\x22b\x22 args=[] selector=6-7 expression=6-7)", diag: b"\x0aE 5-6 unexpected tAMPER", toks: b"\x0atLBRACK 0-1 [\x0atSTAR 1-2 *\x0atIDENTIFIER 2-3 a\x0atCOMMA 3-4 ,\x0atAMPER 5-6 &\x0atIDENTIFIER 6-7 b\x0atRBRACK 7-8 ]" },
    Rec { t: b"[&a]", shape: b"(send method_name=\x22a\x22 args=[])", full: b"(send method_name=\x22a\x22 args=[] selector=2-3 expression=2-3)", diag: b"\x0aE 1-2 unexpected tAMPER", toks: b"\x0atLBRACK 0-1 [\x0atAMPER 1-2 &\x0atIDENTIFIER 2-3 a\x0atRBRACK 3-4 ]" },
    Rec { t: b"[**]", shape: b"none", full: b"none", diag: b"\x0aE 3-4 unexpected tRBRACK", toks: b"\x0atLBRACK 0-1 [\x0atDSTAR 1-3 **\x0atRBRACK 3-4 ]\x0aEOF 4-4 " },
    Rec { t: b"[**a]", shape: b"(array elements=[(hash pairs=[(kwsplat value=(send method_name=\x22a\x22 args=[]))])])", full: b"(array elements=[(hash pairs=[(kwsplat value=(send method_name=\x22a\x22 args=[] selector=3-4 expression=3-4) operator=1-3 expression=1-4)] expression=1-4)] begin=0-1 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atDSTAR 1-3 **\x0atIDENTIFIER 3-4 a\x0atRBRACK 4-5 ]\x0aEOF 5-5 " },
    Rec { t: b"[*a, **b]", shape: b"(array elements=[(splat value=(send method_name=\x22a\x22 args=[])) (hash pairs=[(kwsplat value=(send method_name=\x22b\x22 args=[]))])])", full: b"(array elements=[(splat value=(send method_name=\x22a\x22 args=[] selector=2-3 expression=2-3) operator=1-2 expression=1-3) (hash pairs=[(kwsplat value=(send method_name=\x22b\x22 args=[] selector=7-8 expression=7-8) operator=5-7 expression=5-8)] expression=5-8)] begin=0-1 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atSTAR 1-2 *\x0atIDENTIFIER 2-3 a\x0atCOMMA 3-4 ,\x0atDSTAR 5-7 **\x0atIDENTIFIER 7-8 b\x0atRBRACK 8-9 ]\x0aEOF 9-9 " },
    Rec { t: b"a[&b] { }", shape: b"none", full: b"none", diag: b"\x0aE 2-4 both block arg and actual block given", toks: b"\x0atIDENTIFIER 0-1 a\x0atLBRACK2 1-2 [\x0atAMPER 2-3 &\x0atIDENTIFIER 3-4 b\x0atRBRACK 4-5 ]\x0atLCURLY 6-7 {\x0atRCURLY 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"alias $a\xffa $b\xffa $c", shape: b"(alias to=(gvar name=\x22$a\xff\x00\x22) from=(gvar name=\x22$b\xff\x01\x22))", full: b"(alias to=(gvar name=\x22$a\xff\x00\x22 expression=6-9) from=(gvar name=\x22$b\xff\x01\x22 expression=10-13) keyword=0-5 expression=0-13)", diag: b"\x0aE 14-16 unexpected tGVAR", toks: b"\x0akALIAS 0-5 alias\x0atGVAR 6-9 $a\xff\x00\x0atGVAR 10-13 $b\xff\x01\x0atGVAR 14-16 $c" },
    Rec { t: b"def (1).m; end", shape: b"(send method_name=\x22m\x22 args=[])", full: b"(send method_name=\x22m\x22 args=[] selector=8-9 expression=8-9)", diag: b"\x0aE 5-6 can't define singleton method for literals", toks: b"\x0akDEF 0-3 def\x0atLPAREN2 4-5 (\x0atINTEGER 5-6 1\x0atRPAREN 6-7 )\x0atDOT 7-8 .\x0atIDENTIFIER 8-9 m\x0atSEMI 9-10 ;\x0akEND 11-14 end" },
    Rec { t: b"def (1.0).m; end", shape: b"(send method_name=\x22m\x22 args=[])", full: b"(send method_name=\x22m\x22 args=[] selector=10-11 expression=10-11)", diag: b"\x0aE 5-8 can't define singleton method for literals", toks: b"\x0akDEF 0-3 def\x0atLPAREN2 4-5 (\x0atFLOAT 5-8 1.0\x0atRPAREN 8-9 )\x0atDOT 9-10 .\x0atIDENTIFIER 10-11 m\x0atSEMI 11-12 ;\x0akEND 13-16 end" },
    Rec { t: b"def (1r).m; end", shape: b"(send method_name=\x22m\x22 args=[])", full: b"(send method_name=\x22m\x22 args=[] selector=9-10 expression=9-10)", diag: b"\x0aE 5-7 can't define singleton method for literals", toks: b"\x0akDEF 0-3 def\x0atLPAREN2 4-5 (\x0atRATIONAL 5-7 1r\x0atRPAREN 7-8 )\x0atDOT 8-9 .\x0atIDENTIFIER 9-10 m\x0atSEMI 10-11 ;\x0akEND 12-15 end" },
    Rec { t: b"def (1i).m; end", shape: b"(send method_name=\x22m\x22 args=[])", full: b"(send method_name=\x22m\x22 args=[] selector=9-10 expression=9-10)", diag: b"\x0aE 5-7 can't define singleton method for literals", toks: b"\x0akDEF 0-3 def\x0atLPAREN2 4-5 (\x0atIMAGINARY 5-7 1i\x0atRPAREN 7-8 )\x0atDOT 8-9 .\x0atIDENTIFIER 9-10 m\x0atSEMI 10-11 ;\x0akEND 12-15 end" },
    Rec { t: b"def (\x22a\x22).m; end", shape: b"(send method_name=\x22m\x22 args=[])", full: b"(send method_name=\x22m\x22 args=[] selector=10-11 expression=10-11)", diag: b"\x0aE 5-8 can't define singleton method for literals", toks: b"\x0akDEF 0-3 def\x0atLPAREN2 4-5 (\x0atSTRING_BEG 5-6 \x22\x0atSTRING_CONTENT 6-7 a\x0atSTRING_END 7-8 \x22\x0atRPAREN 8-9 )\x0atDOT 9-10 .\x0atIDENTIFIER 10-11 m\x0atSEMI 11-12 ;\x0akEND 13-16 end" },
    Rec { t: b"def (\x22a#{b}\x22).m; end", shape: b"(send method_name=\x22m\x22 args=[])", full: b"(send method_name=\x22m\x22 args=[] selector=14-15 expression=14-15)", diag: b"\x0aE 5-12 can't define singleton method for literals", toks: b"\x0akDEF 0-3 def\x0atLPAREN2 4-5 (\x0atSTRING_BEG 5-6 \x22\x0atSTRING_CONTENT 6-7 a\x0atSTRING_DBEG 7-9 #{\x0atIDENTIFIER 9-10 b\x0atSTRING_DEND 10-11 }\x0atSTRING_END 11-12 \x22\x0atRPAREN 12-13 )\x0atDOT 13-14 .\x0atIDENTIFIER 14-15 m\x0atSEMI 15-16 ;\x0akEND 17-20 end" },
    Rec { t: b"def (:a).m; end", shape: b"(send method_name=\x22m\x22 args=[])", full: b"(send method_name=\x22m\x22 args=[] selector=9-10 expression=9-10)", diag: b"\x0aE 5-7 can't define singleton method for literals", toks: b"\x0akDEF 0-3 def\x0atLPAREN2 4-5 (\x0atSYMBEG 5-6 :\x0atIDENTIFIER 6-7 a\x0atRPAREN 7-8 )\x0atDOT 8-9 .\x0atIDENTIFIER 9-10 m\x0atSEMI 10-11 ;\x0akEND 12-15 end" },
    Rec { t: b"def (:\x22a#{b}\x22).m; end", shape: b"(send method_name=\x22m\x22 args=[])", full: b"(send method_name=\x22m\x22 args=[] selector=15-16 expression=15-16)", diag: b"\x0aE 5-13 can't define singleton method for literals", toks: b"\x0akDEF 0-3 def\x0atLPAREN2 4-5 (\x0atSYMBEG 5-7 :\x22\x0atSTRING_CONTENT 7-8 a\x0atSTRING_DBEG 8-10 #{\x0atIDENTIFIER 10-11 b\x0atSTRING_DEND 11-12 }\x0atSTRING_END 12-13 \x22\x0atRPAREN 13-14 )\x0atDOT 14-15 .\x0atIDENTIFIER 15-16 m\x0atSEMI 16-17 ;\x0akEND 18-21 end" },
    Rec { t: b"def (/a/).m; end", shape: b"(send method_name=\x22m\x22 args=[])", full: b"(send method_name=\x22m\x22 args=[] selector=10-11 expression=10-11)", diag: b"\x0aE 5-8 can't define singleton method for literals", toks: b"\x0akDEF 0-3 def\x0atLPAREN2 4-5 (\x0atREGEXP_BEG 5-6 /\x0atSTRING_CONTENT 6-7 a\x0atREGEXP_END 7-8 /\x0atRPAREN 8-9 )\x0atDOT 9-10 .\x0atIDENTIFIER 10-11 m\x0atSEMI 11-12 ;\x0akEND 13-16 end" },
    Rec { t: b"def ([]).m; end", shape: b"(send method_name=\x22m\x22 args=[])", full: b"(send method_name=\x22m\x22 args=[] selector=9-10 expression=9-10)", diag: b"\x0aE 5-7 can't define singleton method for literals", toks: b"\x0akDEF 0-3 def\x0atLPAREN2 4-5 (\x0atLBRACK 5-6 [\x0atRBRACK 6-7 ]\x0atRPAREN 7-8 )\x0atDOT 8-9 .\x0atIDENTIFIER 9-10 m\x0atSEMI 10-11 ;\x0akEND 12-15 end" },
    Rec { t: b"def ({}).m; end", shape: b"(send method_name=\x22m\x22 args=[])", full: b"(send method_name=\x22m\x22 args=[] selector=9-10 expression=9-10)", diag: b"\x0aE 5-7 can't define singleton method for literals", toks: b"\x0akDEF 0-3 def\x0atLPAREN2 4-5 (\x0atLBRACE 5-6 {\x0atRCURLY 6-7 }\x0atRPAREN 7-8 )\x0atDOT 8-9 .\x0atIDENTIFIER 9-10 m\x0atSEMI 10-11 ;\x0akEND 12-15 end" },
    Rec { t: b"def (<<A).m; end\x0aA", shape: b"(send method_name=\x22m\x22 args=[])", full: b"(send method_name=\x22m\x22 args=[] selector=10-11 expression=10-11)", diag: b"\x0aE 5-8 can't define singleton method for literals", toks: b"\x0akDEF 0-3 def\x0atLPAREN2 4-5 (\x0atSTRING_BEG 5-8 <<A\x0atSTRING_END 17-18 A\x0atRPAREN 8-9 )\x0atDOT 9-10 .\x0atIDENTIFIER 10-11 m\x0atSEMI 11-12 ;\x0akEND 13-16 end" },
    Rec { t: b"def (a\xffa).m; end", shape: b"(defs definee=(send method_name=\x22a\xff\x00\x22 args=[]) name=\x22m\x22)", full: b"(defs definee=(send method_name=\x22a\xff\x00\x22 args=[] selector=5-7 expression=5-7) name=\x22m\x22 keyword=0-3 operator=8-9 name=9-10 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atLPAREN2 4-5 (\x0atIDENTIFIER 5-7 a\xff\x00\x0atRPAREN 7-8 )\x0atDOT 8-9 .\x0atIDENTIFIER 9-10 m\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def (A\xffa).m; end", shape: b"(defs definee=(const name=\x22A\xff\x00\x22) name=\x22m\x22)", full: b"(defs definee=(const name=\x22A\xff\x00\x22 name=5-7 expression=5-7) name=\x22m\x22 keyword=0-3 operator=8-9 name=9-10 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atLPAREN2 4-5 (\x0atCONSTANT 5-7 A\xff\x00\x0atRPAREN 7-8 )\x0atDOT 8-9 .\x0atIDENTIFIER 9-10 m\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def (a.b\xffa).m; end", shape: b"(defs definee=(send recv=(send method_name=\x22a\x22 args=[]) method_name=\x22b\xff\x00\x22 args=[]) name=\x22m\x22)", full: b"(defs definee=(send recv=(send method_name=\x22a\x22 args=[] selector=5-6 expression=5-6) method_name=\x22b\xff\x00\x22 args=[] dot=6-7 selector=7-9 expression=5-9) name=\x22m\x22 keyword=0-3 operator=10-11 name=11-12 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atLPAREN2 4-5 (\x0atIDENTIFIER 5-6 a\x0atDOT 6-7 .\x0atIDENTIFIER 7-9 b\xff\x00\x0atRPAREN 9-10 )\x0atDOT 10-11 .\x0atIDENTIFIER 11-12 m\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"def (a; b).m; end", shape: b"(send method_name=\x22b\x22 args=[])", full: b"(send method_name=\x22b\x22 args=[] selector=8-9 expression=8-9)", diag: b"\x0aE 6-7 unexpected tSEMI", toks: b"\x0akDEF 0-3 def\x0atLPAREN2 4-5 (\x0atIDENTIFIER 5-6 a\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-9 b\x0atRPAREN 9-10 )" },
    Rec { t: b"def self.m; end", shape: b"(defs definee=(self_) name=\x22m\x22)", full: b"(defs definee=(self_ expression=4-8) name=\x22m\x22 keyword=0-3 operator=8-9 name=9-10 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-10 m\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def nil.m; end", shape: b"(defs definee=(nil) name=\x22m\x22)", full: b"(defs definee=(nil expression=4-7) name=\x22m\x22 keyword=0-3 operator=7-8 name=8-9 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akNIL 4-7 nil\x0atDOT 7-8 .\x0atIDENTIFIER 8-9 m\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def true.m; end", shape: b"(defs definee=(true) name=\x22m\x22)", full: b"(defs definee=(true expression=4-8) name=\x22m\x22 keyword=0-3 operator=8-9 name=9-10 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akTRUE 4-8 true\x0atDOT 8-9 .\x0atIDENTIFIER 9-10 m\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def __FILE__.m; end", shape: b"(defs definee=(file) name=\x22m\x22)", full: b"(defs definee=(file expression=4-12) name=\x22m\x22 keyword=0-3 operator=12-13 name=13-14 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0ak__FILE__ 4-12 __FILE__\x0atDOT 12-13 .\x0atIDENTIFIER 13-14 m\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"def @a\xffa.m; end", shape: b"(defs definee=(ivar name=\x22@a\xff\x00\x22) name=\x22m\x22)", full: b"(defs definee=(ivar name=\x22@a\xff\x00\x22 expression=4-7) name=\x22m\x22 keyword=0-3 operator=7-8 name=8-9 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIVAR 4-7 @a\xff\x00\x0atDOT 7-8 .\x0atIDENTIFIER 8-9 m\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def @@a\xffa.m; end", shape: b"(defs definee=(cvar name=\x22@@a\xff\x00\x22) name=\x22m\x22)", full: b"(defs definee=(cvar name=\x22@@a\xff\x00\x22 expression=4-8) name=\x22m\x22 keyword=0-3 operator=8-9 name=9-10 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atCVAR 4-8 @@a\xff\x00\x0atDOT 8-9 .\x0atIDENTIFIER 9-10 m\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def $a\xffa.m; end", shape: b"(defs definee=(gvar name=\x22$a\xff\x00\x22) name=\x22m\x22)", full: b"(defs definee=(gvar name=\x22$a\xff\x00\x22 expression=4-7) name=\x22m\x22 keyword=0-3 operator=7-8 name=8-9 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atGVAR 4-7 $a\xff\x00\x0atDOT 7-8 .\x0atIDENTIFIER 8-9 m\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def 1.m; end", shape: b"(send recv=(int value=\x221\x22) method_name=\x22m\x22 args=[])", full: b"(send recv=(int value=\x221\x22 expression=4-5) method_name=\x22m\x22 args=[] dot=5-6 selector=6-7 expression=4-7)", diag: b"\x0aE 4-5 unexpected tINTEGER\x0aE 9-12 unexpected kEND", toks: b"\x0akDEF 0-3 def\x0atINTEGER 4-5 1\x0atDOT 5-6 .\x0atIDENTIFIER 6-7 m\x0atSEMI 7-8 ;\x0akEND 9-12 end" },
    Rec { t: b"def a.b.m; end", shape: b"(send method_name=\x22m\x22 args=[])", full: b"(send method_name=\x22m\x22 args=[] selector=8-9 expression=8-9)", diag: b"\x0aE 7-8 unexpected tDOT", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 a\x0atDOT 5-6 .\x0atIDENTIFIER 6-7 b\x0atDOT 7-8 .\x0atIDENTIFIER 8-9 m\x0atSEMI 9-10 ;\x0akEND 11-14 end" },
    Rec { t: b"def \x22a\x22.m; end", shape: b"(send recv=(str value=\x22a\x22) method_name=\x22m\x22 args=[])", full: b"(send recv=(str value=\x22a\x22 begin=4-5 end=6-7 expression=4-7) method_name=\x22m\x22 args=[] dot=7-8 selector=8-9 expression=4-9)", diag: b"\x0aE 4-5 unexpected tSTRING_BEG\x0aE 11-14 unexpected kEND", toks: b"\x0akDEF 0-3 def\x0atSTRING_BEG 4-5 \x22\x0atSTRING_CONTENT 5-6 a\x0atSTRING_END 6-7 \x22\x0atDOT 7-8 .\x0atIDENTIFIER 8-9 m\x0atSEMI 9-10 ;\x0akEND 11-14 end" },
    Rec { t: b"def a().m; end", shape: b"(def name=\x22a\x22 args=(args args=[]))", full: b"(def name=\x22a\x22 args=(args args=[] expression=5-7 begin=5-6 end=6-7) keyword=0-3 name=4-5 end=11-14 expression=0-14)", diag: b"\x0aE 7-8 unexpected tDOT", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 a\x0atLPAREN2 5-6 (\x0atRPAREN 6-7 )\x0atDOT 7-8 .\x0atIDENTIFIER 8-9 m\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"a == b == c", shape: b"(send method_name=\x22c\x22 args=[])", full: b"(send method_name=\x22c\x22 args=[] selector=10-11 expression=10-11)", diag: b"\x0aE 7-9 unexpected tEQ", toks: b"\x0atIDENTIFIER 0-1 a\x0atEQ 2-4 ==\x0atIDENTIFIER 5-6 b\x0atEQ 7-9 ==\x0atIDENTIFIER 10-11 c\x0aEOF 11-11 " },
    Rec { t: b"a <=> b <=> c", shape: b"(send method_name=\x22c\x22 args=[])", full: b"(send method_name=\x22c\x22 args=[] selector=12-13 expression=12-13)", diag: b"\x0aE 8-11 unexpected tCMP", toks: b"\x0atIDENTIFIER 0-1 a\x0atCMP 2-5 <=>\x0atIDENTIFIER 6-7 b\x0atCMP 8-11 <=>\x0atIDENTIFIER 12-13 c\x0aEOF 13-13 " },
    Rec { t: b"a != b == c", shape: b"(send method_name=\x22c\x22 args=[])", full: b"(send method_name=\x22c\x22 args=[] selector=10-11 expression=10-11)", diag: b"\x0aE 7-9 unexpected tEQ", toks: b"\x0atIDENTIFIER 0-1 a\x0atNEQ 2-4 !=\x0atIDENTIFIER 5-6 b\x0atEQ 7-9 ==\x0atIDENTIFIER 10-11 c\x0aEOF 11-11 " },
    Rec { t: b"a =~ b =~ c", shape: b"(send method_name=\x22c\x22 args=[])", full: b"(send method_name=\x22c\x22 args=[] selector=10-11 expression=10-11)", diag: b"\x0aE 7-9 unexpected tMATCH", toks: b"\x0atIDENTIFIER 0-1 a\x0atMATCH 2-4 =~\x0atIDENTIFIER 5-6 b\x0atMATCH 7-9 =~\x0atIDENTIFIER 10-11 c\x0aEOF 11-11 " },
    Rec { t: b"a === b != c", shape: b"(send method_name=\x22c\x22 args=[])", full: b"(send method_name=\x22c\x22 args=[] selector=11-12 expression=11-12)", diag: b"\x0aE 8-10 unexpected tNEQ", toks: b"\x0atIDENTIFIER 0-1 a\x0atEQQ 2-5 ===\x0atIDENTIFIER 6-7 b\x0atNEQ 8-10 !=\x0atIDENTIFIER 11-12 c\x0aEOF 12-12 " },
    Rec { t: b"a..b..c", shape: b"(send method_name=\x22c\x22 args=[])", full: b"(send method_name=\x22c\x22 args=[] selector=6-7 expression=6-7)", diag: b"\x0aE 4-6 unexpected tDOT2", toks: b"\x0atIDENTIFIER 0-1 a\x0atDOT2 1-3 ..\x0atIDENTIFIER 3-4 b\x0atDOT2 4-6 ..\x0atIDENTIFIER 6-7 c\x0aEOF 7-7 " },
    Rec { t: b"a...b..c", shape: b"(send method_name=\x22c\x22 args=[])", full: b"(send method_name=\x22c\x22 args=[] selector=7-8 expression=7-8)", diag: b"\x0aE 5-7 unexpected tDOT2", toks: b"\x0atIDENTIFIER 0-1 a\x0atDOT3 1-4 ...\x0atIDENTIFIER 4-5 b\x0atDOT2 5-7 ..\x0atIDENTIFIER 7-8 c\x0aEOF 8-8 " },
    Rec { t: b"(a == b) == c", shape: b"(send recv=(begin statements=[(send recv=(send method_name=\x22a\x22 args=[]) method_name=\x22==\x22 args=[(send method_name=\x22b\x22 args=[])])]) method_name=\x22==\x22 args=[(send method_name=\x22c\x22 args=[])])", full: b"(send recv=(begin statements=[(send recv=(send method_name=\x22a\x22 args=[] selector=1-2 expression=1-2) method_name=\x22==\x22 args=[(send method_name=\x22b\x22 args=[] selector=6-7 expression=6-7)] selector=3-5 expression=1-7)] begin=0-1 end=7-8 expression=0-8) method_name=\x22==\x22 args=[(send method_name=\x22c\x22 args=[] selector=12-13 expression=12-13)] selector=9-11 expression=0-13)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atIDENTIFIER 1-2 a\x0atEQ 3-5 ==\x0atIDENTIFIER 6-7 b\x0atRPAREN 7-8 )\x0atEQ 9-11 ==\x0atIDENTIFIER 12-13 c\x0aEOF 13-13 " },
    Rec { t: b"(a..b)..c", shape: b"(irange left=(begin statements=[(irange left=(send method_name=\x22a\x22 args=[]) right=(send method_name=\x22b\x22 args=[]))]) right=(send method_name=\x22c\x22 args=[]))", full: b"(irange left=(begin statements=[(irange left=(send method_name=\x22a\x22 args=[] selector=1-2 expression=1-2) right=(send method_name=\x22b\x22 args=[] selector=4-5 expression=4-5) operator=2-4 expression=1-5)] begin=0-1 end=5-6 expression=0-6) right=(send method_name=\x22c\x22 args=[] selector=8-9 expression=8-9) operator=6-8 expression=0-9)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atIDENTIFIER 1-2 a\x0atDOT2 2-4 ..\x0atIDENTIFIER 4-5 b\x0atRPAREN 5-6 )\x0atDOT2 6-8 ..\x0atIDENTIFIER 8-9 c\x0aEOF 9-9 " },
    Rec { t: b"a < b < c", shape: b"(send recv=(send recv=(send method_name=\x22a\x22 args=[]) method_name=\x22<\x22 args=[(send method_name=\x22b\x22 args=[])]) method_name=\x22<\x22 args=[(send method_name=\x22c\x22 args=[])])", full: b"(send recv=(send recv=(send method_name=\x22a\x22 args=[] selector=0-1 expression=0-1) method_name=\x22<\x22 args=[(send method_name=\x22b\x22 args=[] selector=4-5 expression=4-5)] selector=2-3 expression=0-5) method_name=\x22<\x22 args=[(send method_name=\x22c\x22 args=[] selector=8-9 expression=8-9)] selector=6-7 expression=0-9)", diag: b"\x0aW 6-7 comparison '<' after comparison", toks: b"\x0atIDENTIFIER 0-1 a\x0atLT 2-3 <\x0atIDENTIFIER 4-5 b\x0atLT 6-7 <\x0atIDENTIFIER 8-9 c\x0aEOF 9-9 " },
    Rec { t: b"defined? a = ", shape: b"none", full: b"none", diag: b"\x0aE 13-13 unexpected END_OF_INPUT", toks: b"\x0akDEFINED 0-8 defined?\x0atIDENTIFIER 9-10 a\x0atEQL 11-12 =\x0aEOF 13-13 " },
    Rec { t: b":\x22a\xffa\x5cxff\x22; begin", shape: b"none", full: b"none", diag: b"\x0aE 0-9 invalid symbol in encoding UTF-8\x0aE 16-16 unexpected END_OF_INPUT", toks: b"\x0atSYMBEG 0-2 :\x22\x0atSTRING_CONTENT 2-8 a\xff\x00\xff\x0atSTRING_END 8-9 \x22\x0atSEMI 9-10 ;\x0akBEGIN 11-16 begin\x0aEOF 16-16 " },
    Rec { t: b"\x22\x5cu{110000}\x22", shape: b"(str value=\x22\x22)", full: b"(str value=\x22\x22 begin=0-1 end=11-12 expression=0-12)", diag: b"\x0aE 4-10 invalid Unicode codepoint (too large)", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_CONTENT 1-11 \x0atSTRING_END 11-12 \x22\x0aEOF 12-12 " },
    Rec { t: b"\x22\x5cxg\x22", shape: b"(str value=\x22\x00g\x22)", full: b"(str value=\x22\x00g\x22 begin=0-1 end=4-5 expression=0-5)", diag: b"\x0aE 1-3 invalid hex escape", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_CONTENT 1-4 \x00g\x0atSTRING_END 4-5 \x22\x0aEOF 5-5 " },
    Rec { t: b"?", shape: b"none", full: b"none", diag: b"\x0aE 0-1 incomplete character syntax", toks: b"\x0aEOF 0-1 ?" },
    Rec { t: b"?a\xffa", shape: b"(send method_name=\x22a\xff\x00\x22 args=[])", full: b"(send method_name=\x22a\xff\x00\x22 args=[] selector=1-3 expression=1-3)", diag: b"\x0aE 0-1 unexpected tEH", toks: b"\x0atEH 0-1 ?\x0atIDENTIFIER 1-3 a\xff\x00\x0aEOF 3-3 " },
    Rec { t: b"a ? b", shape: b"none", full: b"none", diag: b"\x0aE 5-5 unexpected END_OF_INPUT", toks: b"\x0atIDENTIFIER 0-1 a\x0atEH 2-3 ?\x0atIDENTIFIER 4-5 b\x0aEOF 5-5 " },
    Rec { t: b"a ? b :", shape: b"none", full: b"none", diag: b"\x0aE 6-7 unexpected tSYMBEG", toks: b"\x0atIDENTIFIER 0-1 a\x0atEH 2-3 ?\x0atIDENTIFIER 4-5 b\x0atSYMBEG 6-7 :\x0aEOF 7-7 " },
    Rec { t: b"retry if", shape: b"none", full: b"none", diag: b"\x0aE 8-8 unexpected END_OF_INPUT", toks: b"\x0akRETRY 0-5 retry\x0akIF_MOD 6-8 if\x0aEOF 8-8 " },
    Rec { t: b"redo", shape: b"(redo)", full: b"(redo expression=0-4)", diag: b"", toks: b"\x0akREDO 0-4 redo\x0aEOF 4-4 " },
    Rec { t: b"retry", shape: b"(retry)", full: b"(retry expression=0-5)", diag: b"", toks: b"\x0akRETRY 0-5 retry\x0aEOF 5-5 " },
    Rec { t: b"break", shape: b"(break args=[])", full: b"(break args=[] keyword=0-5 expression=0-5)", diag: b"", toks: b"\x0akBREAK 0-5 break\x0aEOF 5-5 " },
    Rec { t: b"next", shape: b"(next args=[])", full: b"(next args=[] keyword=0-4 expression=0-4)", diag: b"", toks: b"\x0akNEXT 0-4 next\x0aEOF 4-4 " },
    Rec { t: b"m { redo }", shape: b"(block call=(send method_name=\x22m\x22 args=[]) body=(redo))", full: b"(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) body=(redo expression=4-8) begin=2-3 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0akREDO 4-8 redo\x0atRCURLY 9-10 }\x0aEOF 10-10 " },
    Rec { t: b"while a; redo; end", shape: b"(while cond=(send method_name=\x22a\x22 args=[]) body=(redo))", full: b"(while cond=(send method_name=\x22a\x22 args=[] selector=6-7 expression=6-7) body=(redo expression=9-13) keyword=0-5 begin=7-8 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akWHILE 0-5 while\x0atIDENTIFIER 6-7 a\x0atSEMI 7-8 ;\x0akREDO 9-13 redo\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"x = return", shape: b"none", full: b"none", diag: b"\x0aE 4-10 void value expression", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0akRETURN 4-10 return\x0aEOF 10-10 " },
    Rec { t: b"x = (return)", shape: b"none", full: b"none", diag: b"\x0aE 5-11 void value expression", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0atLPAREN 4-5 (\x0akRETURN 5-11 return\x0atRPAREN 11-12 )\x0aEOF 12-12 " },
    Rec { t: b"x = (return 1)", shape: b"none", full: b"none", diag: b"\x0aE 5-13 void value expression", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0atLPAREN 4-5 (\x0akRETURN 5-11 return\x0atINTEGER 12-13 1\x0atRPAREN 13-14 )\x0aEOF 14-14 " },
    Rec { t: b"x = begin; return; end", shape: b"none", full: b"none", diag: b"\x0aE 11-17 void value expression", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0akBEGIN 4-9 begin\x0atSEMI 9-10 ;\x0akRETURN 11-17 return\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"x = break", shape: b"none", full: b"none", diag: b"\x0aE 4-9 void value expression", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0akBREAK 4-9 break\x0aEOF 9-9 " },
    Rec { t: b"x = next", shape: b"none", full: b"none", diag: b"\x0aE 4-8 void value expression", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0akNEXT 4-8 next\x0aEOF 8-8 " },
    Rec { t: b"x = redo", shape: b"none", full: b"none", diag: b"\x0aE 4-8 void value expression", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0akREDO 4-8 redo\x0aEOF 8-8 " },
    Rec { t: b"x = retry", shape: b"none", full: b"none", diag: b"\x0aE 4-9 void value expression", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0akRETRY 4-9 retry\x0aEOF 9-9 " },
    Rec { t: b"x += return", shape: b"none", full: b"none", diag: b"\x0aE 5-11 void value expression", toks: b"\x0atIDENTIFIER 0-1 x\x0atOP_ASGN 2-4 +=\x0akRETURN 5-11 return\x0aEOF 11-11 " },
    Rec { t: b"x ||= return", shape: b"none", full: b"none", diag: b"\x0aE 6-12 void value expression", toks: b"\x0atIDENTIFIER 0-1 x\x0atOP_ASGN 2-5 ||=\x0akRETURN 6-12 return\x0aEOF 12-12 " },
    Rec { t: b"x &&= (a; 1)", shape: b"(and_asgn recv=(lvasgn name=\x22x\x22) value=(begin statements=[(send method_name=\x22a\x22 args=[]) (int value=\x221\x22)]))", full: b"(and_asgn recv=(lvasgn name=\x22x\x22 name=0-1 expression=0-1) value=(begin statements=[(send method_name=\x22a\x22 args=[] selector=7-8 expression=7-8) (int value=\x221\x22 expression=10-11)] begin=6-7 end=11-12 expression=6-12) operator=2-5 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atOP_ASGN 2-5 &&=\x0atLPAREN 6-7 (\x0atIDENTIFIER 7-8 a\x0atSEMI 8-9 ;\x0atINTEGER 10-11 1\x0atRPAREN 11-12 )\x0aEOF 12-12 " },
    Rec { t: b"x.y = return", shape: b"none", full: b"none", diag: b"\x0aE 6-12 void value expression", toks: b"\x0atIDENTIFIER 0-1 x\x0atDOT 1-2 .\x0atIDENTIFIER 2-3 y\x0atEQL 4-5 =\x0akRETURN 6-12 return\x0aEOF 12-12 " },
    Rec { t: b"x[1] = return", shape: b"none", full: b"none", diag: b"\x0aE 7-13 void value expression", toks: b"\x0atIDENTIFIER 0-1 x\x0atLBRACK2 1-2 [\x0atINTEGER 2-3 1\x0atRBRACK 3-4 ]\x0atEQL 5-6 =\x0akRETURN 7-13 return\x0aEOF 13-13 " },
    Rec { t: b"@a = return", shape: b"none", full: b"none", diag: b"\x0aE 5-11 void value expression", toks: b"\x0atIVAR 0-2 @a\x0atEQL 3-4 =\x0akRETURN 5-11 return\x0aEOF 11-11 " },
    Rec { t: b"$a = return", shape: b"none", full: b"none", diag: b"\x0aE 5-11 void value expression", toks: b"\x0atGVAR 0-2 $a\x0atEQL 3-4 =\x0akRETURN 5-11 return\x0aEOF 11-11 " },
    Rec { t: b"@@a = return", shape: b"none", full: b"none", diag: b"\x0aE 6-12 void value expression", toks: b"\x0atCVAR 0-3 @@a\x0atEQL 4-5 =\x0akRETURN 6-12 return\x0aEOF 12-12 " },
    Rec { t: b"A = return", shape: b"none", full: b"none", diag: b"\x0aE 4-10 void value expression", toks: b"\x0atCONSTANT 0-1 A\x0atEQL 2-3 =\x0akRETURN 4-10 return\x0aEOF 10-10 " },
    Rec { t: b"a, b = return", shape: b"none", full: b"none", diag: b"\x0aE 7-13 void value expression", toks: b"\x0atIDENTIFIER 0-1 a\x0atCOMMA 1-2 ,\x0atIDENTIFIER 3-4 b\x0atEQL 5-6 =\x0akRETURN 7-13 return\x0aEOF 13-13 " },
    Rec { t: b"x = (a; return)", shape: b"none", full: b"none", diag: b"\x0aE 8-14 void value expression", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0atLPAREN 4-5 (\x0atIDENTIFIER 5-6 a\x0atSEMI 6-7 ;\x0akRETURN 8-14 return\x0atRPAREN 14-15 )\x0aEOF 15-15 " },
    Rec { t: b"x = (return; a)", shape: b"(lvasgn name=\x22x\x22 value=(begin statements=[(return args=[]) (send method_name=\x22a\x22 args=[])]))", full: b"(lvasgn name=\x22x\x22 value=(begin statements=[(return args=[] keyword=5-11 expression=5-11) (send method_name=\x22a\x22 args=[] selector=13-14 expression=13-14)] begin=4-5 end=14-15 expression=4-15) name=0-1 operator=2-3 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0atLPAREN 4-5 (\x0akRETURN 5-11 return\x0atSEMI 11-12 ;\x0atIDENTIFIER 13-14 a\x0atRPAREN 14-15 )\x0aEOF 15-15 " },
    Rec { t: b"x = (return if a)", shape: b"(lvasgn name=\x22x\x22 value=(begin statements=[(if_mod cond=(send method_name=\x22a\x22 args=[]) if_true=(return args=[]))]))", full: b"(lvasgn name=\x22x\x22 value=(begin statements=[(if_mod cond=(send method_name=\x22a\x22 args=[] selector=15-16 expression=15-16) if_true=(return args=[] keyword=5-11 expression=5-11) keyword=12-14 expression=5-16)] begin=4-5 end=16-17 expression=4-17) name=0-1 operator=2-3 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0atLPAREN 4-5 (\x0akRETURN 5-11 return\x0akIF_MOD 12-14 if\x0atIDENTIFIER 15-16 a\x0atRPAREN 16-17 )\x0aEOF 17-17 " },
    Rec { t: b"x = (a && return)", shape: b"(lvasgn name=\x22x\x22 value=(begin statements=[(and lhs=(send method_name=\x22a\x22 args=[]) rhs=(return args=[]))]))", full: b"(lvasgn name=\x22x\x22 value=(begin statements=[(and lhs=(send method_name=\x22a\x22 args=[] selector=5-6 expression=5-6) rhs=(return args=[] keyword=10-16 expression=10-16) operator=7-9 expression=5-16)] begin=4-5 end=16-17 expression=4-17) name=0-1 operator=2-3 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0atLPAREN 4-5 (\x0atIDENTIFIER 5-6 a\x0atANDOP 7-9 &&\x0akRETURN 10-16 return\x0atRPAREN 16-17 )\x0aEOF 17-17 " },
    Rec { t: b"x = (a || return)", shape: b"(lvasgn name=\x22x\x22 value=(begin statements=[(or lhs=(send method_name=\x22a\x22 args=[]) rhs=(return args=[]))]))", full: b"(lvasgn name=\x22x\x22 value=(begin statements=[(or lhs=(send method_name=\x22a\x22 args=[] selector=5-6 expression=5-6) rhs=(return args=[] keyword=10-16 expression=10-16) operator=7-9 expression=5-16)] begin=4-5 end=16-17 expression=4-17) name=0-1 operator=2-3 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0atLPAREN 4-5 (\x0atIDENTIFIER 5-6 a\x0atOROP 7-9 ||\x0akRETURN 10-16 return\x0atRPAREN 16-17 )\x0aEOF 17-17 " },
    Rec { t: b"x = a ? return : b", shape: b"(lvasgn name=\x22x\x22 value=(if_ternary cond=(send method_name=\x22a\x22 args=[]) if_true=(return args=[]) if_false=(send method_name=\x22b\x22 args=[])))", full: b"(lvasgn name=\x22x\x22 value=(if_ternary cond=(send method_name=\x22a\x22 args=[] selector=4-5 expression=4-5) if_true=(return args=[] keyword=8-14 expression=8-14) if_false=(send method_name=\x22b\x22 args=[] selector=17-18 expression=17-18) question=6-7 colon=15-16 expression=4-18) name=0-1 operator=2-3 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0atIDENTIFIER 4-5 a\x0atEH 6-7 ?\x0akRETURN 8-14 return\x0atCOLON 15-16 :\x0atIDENTIFIER 17-18 b\x0aEOF 18-18 " },
    Rec { t: b"x = a ? return : break", shape: b"none", full: b"none", diag: b"\x0aE 8-14 void value expression", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0atIDENTIFIER 4-5 a\x0atEH 6-7 ?\x0akRETURN 8-14 return\x0atCOLON 15-16 :\x0akBREAK 17-22 break\x0aEOF 22-22 " },
    Rec { t: b"x = ((return) in a)", shape: b"(lvasgn name=\x22x\x22 value=(begin statements=[]))", full: b"(lvasgn name=\x22x\x22 value=(begin statements=[] begin=4-5 end=18-19 expression=4-19) name=0-1 operator=2-3 expression=0-19)", diag: b"\x0aE 6-12 void value expression", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0atLPAREN 4-5 (\x0atLPAREN 5-6 (\x0akRETURN 6-12 return\x0atRPAREN 12-13 )\x0akIN 14-16 in\x0atIDENTIFIER 17-18 a\x0atRPAREN 18-19 )\x0aEOF 19-19 " },
    Rec { t: b"x = ((return) => a)", shape: b"(lvasgn name=\x22x\x22 value=(begin statements=[]))", full: b"(lvasgn name=\x22x\x22 value=(begin statements=[] begin=4-5 end=18-19 expression=4-19) name=0-1 operator=2-3 expression=0-19)", diag: b"\x0aE 6-12 void value expression", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0atLPAREN 4-5 (\x0atLPAREN 5-6 (\x0akRETURN 6-12 return\x0atRPAREN 12-13 )\x0atASSOC 14-16 =>\x0atIDENTIFIER 17-18 a\x0atRPAREN 18-19 )\x0aEOF 19-19 " },
    Rec { t: b"def m; x = ((return) in a); end", shape: b"(def name=\x22m\x22 body=(lvasgn name=\x22x\x22 value=(begin statements=[])))", full: b"(def name=\x22m\x22 body=(lvasgn name=\x22x\x22 value=(begin statements=[] begin=11-12 end=25-26 expression=11-26) name=7-8 operator=9-10 expression=7-26) keyword=0-3 name=4-5 end=28-31 expression=0-31)", diag: b"\x0aE 13-19 void value expression", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-8 x\x0atEQL 9-10 =\x0atLPAREN 11-12 (\x0atLPAREN 12-13 (\x0akRETURN 13-19 return\x0atRPAREN 19-20 )\x0akIN 21-23 in\x0atIDENTIFIER 24-25 a\x0atRPAREN 25-26 )\x0atSEMI 26-27 ;\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"p { x = ((next) in [a]) }", shape: b"(block call=(send method_name=\x22p\x22 args=[]) body=(lvasgn name=\x22x\x22 value=(begin statements=[])))", full: b"(block call=(send method_name=\x22p\x22 args=[] selector=0-1 expression=0-1) body=(lvasgn name=\x22x\x22 value=(begin statements=[] begin=8-9 end=22-23 expression=8-23) name=4-5 operator=6-7 expression=4-23) begin=2-3 end=24-25 expression=0-25)", diag: b"\x0aE 10-14 void value expression", toks: b"\x0atIDENTIFIER 0-1 p\x0atLCURLY 2-3 {\x0atIDENTIFIER 4-5 x\x0atEQL 6-7 =\x0atLPAREN 8-9 (\x0atLPAREN 9-10 (\x0akNEXT 10-14 next\x0atRPAREN 14-15 )\x0akIN 16-18 in\x0atLBRACK 19-20 [\x0atIDENTIFIER 20-21 a\x0atRBRACK 21-22 ]\x0atRPAREN 22-23 )\x0atRCURLY 24-25 }\x0aEOF 25-25 " },
    Rec { t: b"x = ((return) and a)", shape: b"(lvasgn name=\x22x\x22 value=(begin statements=[]))", full: b"(lvasgn name=\x22x\x22 value=(begin statements=[] begin=4-5 end=19-20 expression=4-20) name=0-1 operator=2-3 expression=0-20)", diag: b"\x0aE 6-12 void value expression", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0atLPAREN 4-5 (\x0atLPAREN 5-6 (\x0akRETURN 6-12 return\x0atRPAREN 12-13 )\x0akAND 14-17 and\x0atIDENTIFIER 18-19 a\x0atRPAREN 19-20 )\x0aEOF 20-20 " },
    Rec { t: b"x = ((return) or a)", shape: b"(lvasgn name=\x22x\x22 value=(begin statements=[]))", full: b"(lvasgn name=\x22x\x22 value=(begin statements=[] begin=4-5 end=18-19 expression=4-19) name=0-1 operator=2-3 expression=0-19)", diag: b"\x0aE 6-12 void value expression", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0atLPAREN 4-5 (\x0atLPAREN 5-6 (\x0akRETURN 6-12 return\x0atRPAREN 12-13 )\x0akOR 14-16 or\x0atIDENTIFIER 17-18 a\x0atRPAREN 18-19 )\x0aEOF 19-19 " },
    Rec { t: b"x = (return && a)", shape: b"(lvasgn name=\x22x\x22 value=(begin statements=[]))", full: b"(lvasgn name=\x22x\x22 value=(begin statements=[] begin=4-5 end=16-17 expression=4-17) name=0-1 operator=2-3 expression=0-17)", diag: b"\x0aE 5-11 void value expression", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0atLPAREN 4-5 (\x0akRETURN 5-11 return\x0atANDOP 12-14 &&\x0atIDENTIFIER 15-16 a\x0atRPAREN 16-17 )\x0aEOF 17-17 " },
    Rec { t: b"x = ((return; return) in a)", shape: b"(lvasgn name=\x22x\x22 value=(begin statements=[]))", full: b"(lvasgn name=\x22x\x22 value=(begin statements=[] begin=4-5 end=26-27 expression=4-27) name=0-1 operator=2-3 expression=0-27)", diag: b"\x0aE 14-20 void value expression", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0atLPAREN 4-5 (\x0atLPAREN 5-6 (\x0akRETURN 6-12 return\x0atSEMI 12-13 ;\x0akRETURN 14-20 return\x0atRPAREN 20-21 )\x0akIN 22-24 in\x0atIDENTIFIER 25-26 a\x0atRPAREN 26-27 )\x0aEOF 27-27 " },
    Rec { t: b"(return)&.a", shape: b"(send method_name=\x22a\x22 args=[])", full: b"(send method_name=\x22a\x22 args=[] selector=10-11 expression=10-11)", diag: b"\x0aE 1-7 void value expression", toks: b"\x0atLPAREN 0-1 (\x0akRETURN 1-7 return\x0atRPAREN 7-8 )\x0atANDDOT 8-10 &.\x0atIDENTIFIER 10-11 a\x0aEOF 11-11 " },
    Rec { t: b"(return)..1", shape: b"none", full: b"none", diag: b"\x0aE 1-7 void value expression", toks: b"\x0atLPAREN 0-1 (\x0akRETURN 1-7 return\x0atRPAREN 7-8 )\x0atDOT2 8-10 ..\x0atINTEGER 10-11 1\x0aEOF 11-11 " },
    Rec { t: b"1..(return)", shape: b"none", full: b"none", diag: b"\x0aE 4-10 void value expression", toks: b"\x0atINTEGER 0-1 1\x0atDOT2 1-3 ..\x0atLPAREN 3-4 (\x0akRETURN 4-10 return\x0atRPAREN 10-11 )\x0aEOF 11-11 " },
    Rec { t: b"(return) == 1", shape: b"none", full: b"none", diag: b"\x0aE 1-7 void value expression", toks: b"\x0atLPAREN 0-1 (\x0akRETURN 1-7 return\x0atRPAREN 7-8 )\x0atEQ 9-11 ==\x0atINTEGER 12-13 1\x0aEOF 13-13 " },
    Rec { t: b"(return) =~ 1", shape: b"none", full: b"none", diag: b"\x0aE 1-7 void value expression", toks: b"\x0atLPAREN 0-1 (\x0akRETURN 1-7 return\x0atRPAREN 7-8 )\x0atMATCH 9-11 =~\x0atINTEGER 12-13 1\x0aEOF 13-13 " },
    Rec { t: b"(return) ? 1 : 2", shape: b"none", full: b"none", diag: b"\x0aE 1-7 void value expression", toks: b"\x0atLPAREN 0-1 (\x0akRETURN 1-7 return\x0atRPAREN 7-8 )\x0atEH 9-10 ?\x0atINTEGER 11-12 1\x0atCOLON 13-14 :\x0atINTEGER 15-16 2\x0aEOF 16-16 " },
    Rec { t: b"if (return) then 1 end", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=17-18)", diag: b"\x0aE 4-10 void value expression", toks: b"\x0akIF 0-2 if\x0atLPAREN 3-4 (\x0akRETURN 4-10 return\x0atRPAREN 10-11 )\x0akTHEN 12-16 then\x0atINTEGER 17-18 1\x0akEND 19-22 end" },
    Rec { t: b"while (return) do 1 end", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=18-19)", diag: b"\x0aE 7-13 void value expression", toks: b"\x0akWHILE 0-5 while\x0atLPAREN 6-7 (\x0akRETURN 7-13 return\x0atRPAREN 13-14 )\x0akDO_COND 15-17 do\x0atINTEGER 18-19 1\x0akEND 20-23 end" },
    Rec { t: b"case (return); when 1; end", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=20-21)", diag: b"\x0aE 6-12 void value expression", toks: b"\x0akCASE 0-4 case\x0atLPAREN 5-6 (\x0akRETURN 6-12 return\x0atRPAREN 12-13 )\x0atSEMI 13-14 ;\x0akWHEN 15-19 when\x0atINTEGER 20-21 1\x0atSEMI 21-22 ;\x0akEND 23-26 end" },
    Rec { t: b"case (return); in 1; end", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=18-19)", diag: b"\x0aE 6-12 void value expression", toks: b"\x0akCASE 0-4 case\x0atLPAREN 5-6 (\x0akRETURN 6-12 return\x0atRPAREN 12-13 )\x0atSEMI 13-14 ;\x0akIN 15-17 in\x0atINTEGER 18-19 1\x0atSEMI 19-20 ;\x0akEND 21-24 end" },
    Rec { t: b"for a in (return) do end", shape: b"none", full: b"none", diag: b"\x0aE 10-16 void value expression", toks: b"\x0akFOR 0-3 for\x0atIDENTIFIER 4-5 a\x0akIN 6-8 in\x0atLPAREN 9-10 (\x0akRETURN 10-16 return\x0atRPAREN 16-17 )\x0akDO_COND 18-20 do\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"\x22#{return}\x22 + (return)", shape: b"none", full: b"none", diag: b"\x0aE 15-21 void value expression", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_DBEG 1-3 #{\x0akRETURN 3-9 return\x0atSTRING_DEND 9-10 }\x0atSTRING_END 10-11 \x22\x0atPLUS 12-13 +\x0atLPAREN 14-15 (\x0akRETURN 15-21 return\x0atRPAREN 21-22 )\x0aEOF 22-22 " },
    Rec { t: b"def (return).a; end", shape: b"(send method_name=\x22a\x22 args=[])", full: b"(send method_name=\x22a\x22 args=[] selector=13-14 expression=13-14)", diag: b"\x0aE 5-11 void value expression", toks: b"\x0akDEF 0-3 def\x0atLPAREN2 4-5 (\x0akRETURN 5-11 return\x0atRPAREN 11-12 )\x0atDOT 12-13 .\x0atIDENTIFIER 13-14 a\x0atSEMI 14-15 ;\x0akEND 16-19 end" },
    Rec { t: b"def m(*, ...) end", shape: b"(def name=\x22m\x22 args=(args args=[(restarg) (forward_arg)]))", full: b"(def name=\x22m\x22 args=(args args=[(restarg operator=6-7 expression=6-7) (forward_arg expression=9-12)] expression=5-13 begin=5-6 end=12-13) keyword=0-3 name=4-5 end=14-17 expression=0-17)", diag: b"\x0aE 9-12 ... after rest argument", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atSTAR 6-7 *\x0atCOMMA 7-8 ,\x0atBDOT3 9-12 ...\x0atRPAREN 12-13 )\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"def m(a, *, ...) end", shape: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22a\x22) (restarg) (forward_arg)]))", full: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22a\x22 expression=6-7) (restarg operator=9-10 expression=9-10) (forward_arg expression=12-15)] expression=5-16 begin=5-6 end=15-16) keyword=0-3 name=4-5 end=17-20 expression=0-20)", diag: b"\x0aE 12-15 ... after rest argument", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-7 a\x0atCOMMA 7-8 ,\x0atSTAR 9-10 *\x0atCOMMA 10-11 ,\x0atBDOT3 12-15 ...\x0atRPAREN 15-16 )\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"def m(a = 1, *, ...) end", shape: b"(def name=\x22m\x22 args=(args args=[(optarg name=\x22a\x22 default=(int value=\x221\x22)) (restarg) (forward_arg)]))", full: b"(def name=\x22m\x22 args=(args args=[(optarg name=\x22a\x22 default=(int value=\x221\x22 expression=10-11) name=6-7 operator=8-9 expression=6-11) (restarg operator=13-14 expression=13-14) (forward_arg expression=16-19)] expression=5-20 begin=5-6 end=19-20) keyword=0-3 name=4-5 end=21-24 expression=0-24)", diag: b"\x0aE 16-19 ... after rest argument", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-7 a\x0atEQL 8-9 =\x0atINTEGER 10-11 1\x0atCOMMA 11-12 ,\x0atSTAR 13-14 *\x0atCOMMA 14-15 ,\x0atBDOT3 16-19 ...\x0atRPAREN 19-20 )\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"def m(a, *b, ...) end", shape: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22a\x22) (restarg name=\x22b\x22) (forward_arg)]))", full: b"(def name=\x22m\x22 args=(args args=[(arg name=\x22a\x22 expression=6-7) (restarg name=\x22b\x22 operator=9-10 name=10-11 expression=9-11) (forward_arg expression=13-16)] expression=5-17 begin=5-6 end=16-17) keyword=0-3 name=4-5 end=18-21 expression=0-21)", diag: b"\x0aE 13-16 ... after rest argument", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-7 a\x0atCOMMA 7-8 ,\x0atSTAR 9-10 *\x0atIDENTIFIER 10-11 b\x0atCOMMA 11-12 ,\x0atBDOT3 13-16 ...\x0atRPAREN 16-17 )\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"def m(*, a, ...) end", shape: b"(def name=\x22m\x22 args=(args args=[(restarg) (arg name=\x22a\x22) (forward_arg)]))", full: b"(def name=\x22m\x22 args=(args args=[(restarg operator=6-7 expression=6-7) (arg name=\x22a\x22 expression=9-10) (forward_arg expression=12-15)] expression=5-16 begin=5-6 end=15-16) keyword=0-3 name=4-5 end=17-20 expression=0-20)", diag: b"\x0aE 12-15 ... after rest argument", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atSTAR 6-7 *\x0atCOMMA 7-8 ,\x0atIDENTIFIER 9-10 a\x0atCOMMA 10-11 ,\x0atBDOT3 12-15 ...\x0atRPAREN 15-16 )\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"def m(..., *) end", shape: b"none", full: b"none", diag: b"\x0aE 9-10 unexpected tCOMMA", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atBDOT3 6-9 ...\x0atCOMMA 9-10 ,\x0atSTAR 11-12 *\x0atRPAREN 12-13 )\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"def m(..., ...) end", shape: b"none", full: b"none", diag: b"\x0aE 9-10 unexpected tCOMMA", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atBDOT3 6-9 ...\x0atCOMMA 9-10 ,\x0atBDOT3 11-14 ...\x0atRPAREN 14-15 )\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"def m(**, ...) end", shape: b"none", full: b"none", diag: b"\x0aE 10-13 unexpected tBDOT3", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atDSTAR 6-8 **\x0atCOMMA 8-9 ,\x0atBDOT3 10-13 ...\x0atRPAREN 13-14 )\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"def m(**nil, ...) end", shape: b"none", full: b"none", diag: b"\x0aE 13-16 unexpected tBDOT3", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atDSTAR 6-8 **\x0akNIL 8-11 nil\x0atCOMMA 11-12 ,\x0atBDOT3 13-16 ...\x0atRPAREN 16-17 )\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"def m *, ...; end", shape: b"(def name=\x22m\x22 args=(args args=[(restarg) (forward_arg)]))", full: b"(def name=\x22m\x22 args=(args args=[(restarg operator=6-7 expression=6-7) (forward_arg expression=9-12)] expression=6-12) keyword=0-3 name=4-5 end=14-17 expression=0-17)", diag: b"\x0aE 9-12 ... after rest argument", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSTAR2 6-7 *\x0atCOMMA 7-8 ,\x0atBDOT3 9-12 ...\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"f(a, b, c, &d) { }", shape: b"none", full: b"none", diag: b"\x0aE 11-13 both block arg and actual block given", toks: b"\x0atIDENTIFIER 0-1 f\x0atLPAREN2 1-2 (\x0atIDENTIFIER 2-3 a\x0atCOMMA 3-4 ,\x0atIDENTIFIER 5-6 b\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-9 c\x0atCOMMA 9-10 ,\x0atAMPER 11-12 &\x0atIDENTIFIER 12-13 d\x0atRPAREN 13-14 )\x0atLCURLY 15-16 {\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"f(a, b, c, d, &e) { }", shape: b"none", full: b"none", diag: b"\x0aE 14-16 both block arg and actual block given", toks: b"\x0atIDENTIFIER 0-1 f\x0atLPAREN2 1-2 (\x0atIDENTIFIER 2-3 a\x0atCOMMA 3-4 ,\x0atIDENTIFIER 5-6 b\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-9 c\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-12 d\x0atCOMMA 12-13 ,\x0atAMPER 14-15 &\x0atIDENTIFIER 15-16 e\x0atRPAREN 16-17 )\x0atLCURLY 18-19 {\x0atRCURLY 20-21 }\x0aEOF 21-21 " },
    Rec { t: b"f(a, b, c, &d) do end", shape: b"none", full: b"none", diag: b"\x0aE 11-13 both block arg and actual block given", toks: b"\x0atIDENTIFIER 0-1 f\x0atLPAREN2 1-2 (\x0atIDENTIFIER 2-3 a\x0atCOMMA 3-4 ,\x0atIDENTIFIER 5-6 b\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-9 c\x0atCOMMA 9-10 ,\x0atAMPER 11-12 &\x0atIDENTIFIER 12-13 d\x0atRPAREN 13-14 )\x0akDO 15-17 do\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"f a, b, c, &d do end", shape: b"none", full: b"none", diag: b"\x0aE 11-13 both block arg and actual block given", toks: b"\x0atIDENTIFIER 0-1 f\x0atIDENTIFIER 2-3 a\x0atCOMMA 3-4 ,\x0atIDENTIFIER 5-6 b\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-9 c\x0atCOMMA 9-10 ,\x0atAMPER 11-12 &\x0atIDENTIFIER 12-13 d\x0akDO_BLOCK 14-16 do\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"x.f(a, b, c, d: 1, &e) { }", shape: b"none", full: b"none", diag: b"\x0aE 19-21 both block arg and actual block given", toks: b"\x0atIDENTIFIER 0-1 x\x0atDOT 1-2 .\x0atIDENTIFIER 2-3 f\x0atLPAREN2 3-4 (\x0atIDENTIFIER 4-5 a\x0atCOMMA 5-6 ,\x0atIDENTIFIER 7-8 b\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-11 c\x0atCOMMA 11-12 ,\x0atLABEL 13-15 d\x0atINTEGER 16-17 1\x0atCOMMA 17-18 ,\x0atAMPER 19-20 &\x0atIDENTIFIER 20-21 e\x0atRPAREN 21-22 )\x0atLCURLY 23-24 {\x0atRCURLY 25-26 }\x0aEOF 26-26 " },
    Rec { t: b"super(a, b, c, &d) { }", shape: b"none", full: b"none", diag: b"\x0aE 15-17 both block arg and actual block given", toks: b"\x0akSUPER 0-5 super\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-7 a\x0atCOMMA 7-8 ,\x0atIDENTIFIER 9-10 b\x0atCOMMA 10-11 ,\x0atIDENTIFIER 12-13 c\x0atCOMMA 13-14 ,\x0atAMPER 15-16 &\x0atIDENTIFIER 16-17 d\x0atRPAREN 17-18 )\x0atLCURLY 19-20 {\x0atRCURLY 21-22 }\x0aEOF 22-22 " },
    Rec { t: b"x[a, b, c, &d] { }", shape: b"none", full: b"none", diag: b"\x0aE 11-13 both block arg and actual block given", toks: b"\x0atIDENTIFIER 0-1 x\x0atLBRACK2 1-2 [\x0atIDENTIFIER 2-3 a\x0atCOMMA 3-4 ,\x0atIDENTIFIER 5-6 b\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-9 c\x0atCOMMA 9-10 ,\x0atAMPER 11-12 &\x0atIDENTIFIER 12-13 d\x0atRBRACK 13-14 ]\x0atLCURLY 15-16 {\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"def m(...) f(a, b, c, ...) { } end", shape: b"(def name=\x22m\x22 args=(args args=[(forward_arg)]))", full: b"(def name=\x22m\x22 args=(args args=[(forward_arg expression=6-9)] expression=5-10 begin=5-6 end=9-10) keyword=0-3 name=4-5 end=31-34 expression=0-34)", diag: b"\x0aE 22-25 both block arg and actual block given", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atBDOT3 6-9 ...\x0atRPAREN 9-10 )\x0atIDENTIFIER 11-12 f\x0atLPAREN2 12-13 (\x0atIDENTIFIER 13-14 a\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-17 b\x0atCOMMA 17-18 ,\x0atIDENTIFIER 19-20 c\x0atCOMMA 20-21 ,\x0atBDOT3 22-25 ...\x0atRPAREN 25-26 )\x0atLCURLY 27-28 {\x0atRCURLY 29-30 }\x0akEND 31-34 end\x0aEOF 34-34 " },
    Rec { t: b"case a; in [_b, _b]; end", shape: b"(case_match expr=(send method_name=\x22a\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22_b\x22) (match_var name=\x22_b\x22)]))])", full: b"(case_match expr=(send method_name=\x22a\x22 args=[] selector=5-6 expression=5-6) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22_b\x22 name=12-14 expression=12-14) (match_var name=\x22_b\x22 name=16-18 expression=16-18)] begin=11-12 end=18-19 expression=11-19) keyword=8-10 begin=19-20 expression=8-19)] keyword=0-4 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-6 a\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACK 11-12 [\x0atIDENTIFIER 12-14 _b\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-18 _b\x0atRBRACK 18-19 ]\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"case a; in [_, _]; end", shape: b"(case_match expr=(send method_name=\x22a\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22_\x22) (match_var name=\x22_\x22)]))])", full: b"(case_match expr=(send method_name=\x22a\x22 args=[] selector=5-6 expression=5-6) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22_\x22 name=12-13 expression=12-13) (match_var name=\x22_\x22 name=15-16 expression=15-16)] begin=11-12 end=16-17 expression=11-17) keyword=8-10 begin=17-18 expression=8-17)] keyword=0-4 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-6 a\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACK 11-12 [\x0atIDENTIFIER 12-13 _\x0atCOMMA 13-14 ,\x0atIDENTIFIER 15-16 _\x0atRBRACK 16-17 ]\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"case a; in {a: _b, b: _b}; end", shape: b"(case_match expr=(send method_name=\x22a\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22a\x22) value=(match_var name=\x22_b\x22)) (pair key=(sym name=\x22b\x22) value=(match_var name=\x22_b\x22))]))])", full: b"(case_match expr=(send method_name=\x22a\x22 args=[] selector=5-6 expression=5-6) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22a\x22 expression=12-13) value=(match_var name=\x22_b\x22 name=15-17 expression=15-17) operator=13-14 expression=12-17) (pair key=(sym name=\x22b\x22 expression=19-20) value=(match_var name=\x22_b\x22 name=22-24 expression=22-24) operator=20-21 expression=19-24)] begin=11-12 end=24-25 expression=11-25) keyword=8-10 begin=25-26 expression=8-25)] keyword=0-4 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-6 a\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACE 11-12 {\x0atLABEL 12-14 a\x0atIDENTIFIER 15-17 _b\x0atCOMMA 17-18 ,\x0atLABEL 19-21 b\x0atIDENTIFIER 22-24 _b\x0atRCURLY 24-25 }\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"case a; in [_b, [_b, *_b]]; end", shape: b"(case_match expr=(send method_name=\x22a\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22_b\x22) (array_pattern elements=[(match_var name=\x22_b\x22) (match_rest name=(match_var name=\x22_b\x22))])]))])", full: b"(case_match expr=(send method_name=\x22a\x22 args=[] selector=5-6 expression=5-6) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22_b\x22 name=12-14 expression=12-14) (array_pattern elements=[(match_var name=\x22_b\x22 name=17-19 expression=17-19) (match_rest name=(match_var name=\x22_b\x22 name=22-24 expression=22-24) operator=21-22 expression=21-24)] begin=16-17 end=24-25 expression=16-25)] begin=11-12 end=25-26 expression=11-26) keyword=8-10 begin=26-27 expression=8-26)] keyword=0-4 end=28-31 expression=0-31)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-6 a\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACK 11-12 [\x0atIDENTIFIER 12-14 _b\x0atCOMMA 14-15 ,\x0atLBRACK 16-17 [\x0atIDENTIFIER 17-19 _b\x0atCOMMA 19-20 ,\x0atSTAR 21-22 *\x0atIDENTIFIER 22-24 _b\x0atRBRACK 24-25 ]\x0atRBRACK 25-26 ]\x0atSEMI 26-27 ;\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"case a; in [b_, b_]; end", shape: b"none", full: b"none", diag: b"\x0aE 16-18 duplicated variable name", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-6 a\x0atSEMI 6-7 ;\x0akIN 8-10 in\x0atLBRACK 11-12 [\x0atIDENTIFIER 12-14 b_\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-18 b_\x0atRBRACK 18-19 ]\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"x = if a; return; else return; end", shape: b"none", full: b"none", diag: b"\x0aE 10-16 void value expression", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0akIF 4-6 if\x0atIDENTIFIER 7-8 a\x0atSEMI 8-9 ;\x0akRETURN 10-16 return\x0atSEMI 16-17 ;\x0akELSE 18-22 else\x0akRETURN 23-29 return\x0atSEMI 29-30 ;\x0akEND 31-34 end\x0aEOF 34-34 " },
    Rec { t: b"x = if a; return; else; b; return; end", shape: b"none", full: b"none", diag: b"\x0aE 10-16 void value expression", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0akIF 4-6 if\x0atIDENTIFIER 7-8 a\x0atSEMI 8-9 ;\x0akRETURN 10-16 return\x0atSEMI 16-17 ;\x0akELSE 18-22 else\x0atSEMI 22-23 ;\x0atIDENTIFIER 24-25 b\x0atSEMI 25-26 ;\x0akRETURN 27-33 return\x0atSEMI 33-34 ;\x0akEND 35-38 end\x0aEOF 38-38 " },
    Rec { t: b"x = if a; return; else b; end", shape: b"(lvasgn name=\x22x\x22 value=(if cond=(send method_name=\x22a\x22 args=[]) if_true=(return args=[]) if_false=(send method_name=\x22b\x22 args=[])))", full: b"(lvasgn name=\x22x\x22 value=(if cond=(send method_name=\x22a\x22 args=[] selector=7-8 expression=7-8) if_true=(return args=[] keyword=10-16 expression=10-16) if_false=(send method_name=\x22b\x22 args=[] selector=23-24 expression=23-24) keyword=4-6 begin=8-9 else=18-22 end=26-29 expression=4-29) name=0-1 operator=2-3 expression=0-29)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0akIF 4-6 if\x0atIDENTIFIER 7-8 a\x0atSEMI 8-9 ;\x0akRETURN 10-16 return\x0atSEMI 16-17 ;\x0akELSE 18-22 else\x0atIDENTIFIER 23-24 b\x0atSEMI 24-25 ;\x0akEND 26-29 end\x0aEOF 29-29 " },
    Rec { t: b"x = if a; return; end", shape: b"(lvasgn name=\x22x\x22 value=(if cond=(send method_name=\x22a\x22 args=[]) if_true=(return args=[])))", full: b"(lvasgn name=\x22x\x22 value=(if cond=(send method_name=\x22a\x22 args=[] selector=7-8 expression=7-8) if_true=(return args=[] keyword=10-16 expression=10-16) keyword=4-6 begin=8-9 end=18-21 expression=4-21) name=0-1 operator=2-3 expression=0-21)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0akIF 4-6 if\x0atIDENTIFIER 7-8 a\x0atSEMI 8-9 ;\x0akRETURN 10-16 return\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"x = begin; return; ensure; a; end", shape: b"(lvasgn name=\x22x\x22 value=(kw_begin statements=[(ensure body=(return args=[]) ensure=(send method_name=\x22a\x22 args=[]))]))", full: b"(lvasgn name=\x22x\x22 value=(kw_begin statements=[(ensure body=(return args=[] keyword=11-17 expression=11-17) ensure=(send method_name=\x22a\x22 args=[] selector=27-28 expression=27-28) keyword=19-25 expression=11-28)] begin=4-9 end=30-33 expression=4-33) name=0-1 operator=2-3 expression=0-33)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0akBEGIN 4-9 begin\x0atSEMI 9-10 ;\x0akRETURN 11-17 return\x0atSEMI 17-18 ;\x0akENSURE 19-25 ensure\x0atSEMI 25-26 ;\x0atIDENTIFIER 27-28 a\x0atSEMI 28-29 ;\x0akEND 30-33 end\x0aEOF 33-33 " },
    Rec { t: b"x = begin; a; rescue; return; end", shape: b"(lvasgn name=\x22x\x22 value=(kw_begin statements=[(rescue body=(send method_name=\x22a\x22 args=[]) rescue_bodies=[(rescue_body body=(return args=[]))])]))", full: b"(lvasgn name=\x22x\x22 value=(kw_begin statements=[(rescue body=(send method_name=\x22a\x22 args=[] selector=11-12 expression=11-12) rescue_bodies=[(rescue_body body=(return args=[] keyword=22-28 expression=22-28) keyword=14-20 begin=20-21 expression=14-28)] expression=11-28)] begin=4-9 end=30-33 expression=4-33) name=0-1 operator=2-3 expression=0-33)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0akBEGIN 4-9 begin\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-12 a\x0atSEMI 12-13 ;\x0akRESCUE 14-20 rescue\x0atSEMI 20-21 ;\x0akRETURN 22-28 return\x0atSEMI 28-29 ;\x0akEND 30-33 end\x0aEOF 33-33 " },
    Rec { t: b"x = case a; when b; return; else return; end", shape: b"(lvasgn name=\x22x\x22 value=(case expr=(send method_name=\x22a\x22 args=[]) when_bodies=[(when patterns=[(send method_name=\x22b\x22 args=[])] body=(return args=[]))] else_body=(return args=[])))", full: b"(lvasgn name=\x22x\x22 value=(case expr=(send method_name=\x22a\x22 args=[] selector=9-10 expression=9-10) when_bodies=[(when patterns=[(send method_name=\x22b\x22 args=[] selector=17-18 expression=17-18)] body=(return args=[] keyword=20-26 expression=20-26) keyword=12-16 begin=18-19 expression=12-26)] else_body=(return args=[] keyword=33-39 expression=33-39) keyword=4-8 else=28-32 end=41-44 expression=4-44) name=0-1 operator=2-3 expression=0-44)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0akCASE 4-8 case\x0atIDENTIFIER 9-10 a\x0atSEMI 10-11 ;\x0akWHEN 12-16 when\x0atIDENTIFIER 17-18 b\x0atSEMI 18-19 ;\x0akRETURN 20-26 return\x0atSEMI 26-27 ;\x0akELSE 28-32 else\x0akRETURN 33-39 return\x0atSEMI 39-40 ;\x0akEND 41-44 end\x0aEOF 44-44 " },
    Rec { t: b"return.a", shape: b"(send method_name=\x22a\x22 args=[])", full: b"(send method_name=\x22a\x22 args=[] selector=7-8 expression=7-8)", diag: b"\x0aE 0-6 void value expression", toks: b"\x0akRETURN 0-6 return\x0atDOT 6-7 .\x0atIDENTIFIER 7-8 a\x0aEOF 8-8 " },
    Rec { t: b"(return).a", shape: b"(send method_name=\x22a\x22 args=[])", full: b"(send method_name=\x22a\x22 args=[] selector=9-10 expression=9-10)", diag: b"\x0aE 1-7 void value expression", toks: b"\x0atLPAREN 0-1 (\x0akRETURN 1-7 return\x0atRPAREN 7-8 )\x0atDOT 8-9 .\x0atIDENTIFIER 9-10 a\x0aEOF 10-10 " },
    Rec { t: b"(return) + 1", shape: b"none", full: b"none", diag: b"\x0aE 1-7 void value expression", toks: b"\x0atLPAREN 0-1 (\x0akRETURN 1-7 return\x0atRPAREN 7-8 )\x0atPLUS 9-10 +\x0atINTEGER 11-12 1\x0aEOF 12-12 " },
    Rec { t: b"1 + (return)", shape: b"none", full: b"none", diag: b"\x0aE 5-11 void value expression", toks: b"\x0atINTEGER 0-1 1\x0atPLUS 2-3 +\x0atLPAREN 4-5 (\x0akRETURN 5-11 return\x0atRPAREN 11-12 )\x0aEOF 12-12 " },
    Rec { t: b"a((return))", shape: b"none", full: b"none", diag: b"\x0aE 3-9 void value expression", toks: b"\x0atIDENTIFIER 0-1 a\x0atLPAREN2 1-2 (\x0atLPAREN 2-3 (\x0akRETURN 3-9 return\x0atRPAREN 9-10 )\x0atRPAREN 10-11 )\x0aEOF 11-11 " },
    Rec { t: b"a (return)", shape: b"none", full: b"none", diag: b"\x0aE 3-9 void value expression", toks: b"\x0atIDENTIFIER 0-1 a\x0atLPAREN_ARG 2-3 (\x0akRETURN 3-9 return\x0atRPAREN 9-10 )\x0aEOF 10-10 " },
    Rec { t: b"[(return)]", shape: b"none", full: b"none", diag: b"\x0aE 2-8 void value expression", toks: b"\x0atLBRACK 0-1 [\x0atLPAREN 1-2 (\x0akRETURN 2-8 return\x0atRPAREN 8-9 )\x0atRBRACK 9-10 ]\x0aEOF 10-10 " },
    Rec { t: b"{a: (return)}", shape: b"none", full: b"none", diag: b"\x0aE 5-11 void value expression", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 1-3 a\x0atLPAREN 4-5 (\x0akRETURN 5-11 return\x0atRPAREN 11-12 )\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"{(return) => a}", shape: b"(send method_name=\x22a\x22 args=[])", full: b"(send method_name=\x22a\x22 args=[] selector=13-14 expression=13-14)", diag: b"\x0aE 2-8 void value expression", toks: b"\x0atLBRACE 0-1 {\x0atLPAREN 1-2 (\x0akRETURN 2-8 return\x0atRPAREN 8-9 )\x0atASSOC 10-12 =>\x0atIDENTIFIER 13-14 a\x0atRCURLY 14-15 }" },
    Rec { t: b"!(return)", shape: b"none", full: b"none", diag: b"\x0aE 2-8 void value expression", toks: b"\x0atBANG 0-1 !\x0atLPAREN 1-2 (\x0akRETURN 2-8 return\x0atRPAREN 8-9 )\x0aEOF 9-9 " },
    Rec { t: b"not (return)", shape: b"none", full: b"none", diag: b"\x0aE 5-11 void value expression", toks: b"\x0akNOT 0-3 not\x0atLPAREN_ARG 4-5 (\x0akRETURN 5-11 return\x0atRPAREN 11-12 )\x0aEOF 12-12 " },
    Rec { t: b"(return) && a", shape: b"none", full: b"none", diag: b"\x0aE 1-7 void value expression", toks: b"\x0atLPAREN 0-1 (\x0akRETURN 1-7 return\x0atRPAREN 7-8 )\x0atANDOP 9-11 &&\x0atIDENTIFIER 12-13 a\x0aEOF 13-13 " },
    Rec { t: b"(return) and a", shape: b"none", full: b"none", diag: b"\x0aE 1-7 void value expression", toks: b"\x0atLPAREN 0-1 (\x0akRETURN 1-7 return\x0atRPAREN 7-8 )\x0akAND 9-12 and\x0atIDENTIFIER 13-14 a\x0aEOF 14-14 " },
    Rec { t: b"(return) || a", shape: b"none", full: b"none", diag: b"\x0aE 1-7 void value expression", toks: b"\x0atLPAREN 0-1 (\x0akRETURN 1-7 return\x0atRPAREN 7-8 )\x0atOROP 9-11 ||\x0atIDENTIFIER 12-13 a\x0aEOF 13-13 " },
    Rec { t: b"return and a", shape: b"none", full: b"none", diag: b"\x0aE 0-6 void value expression", toks: b"\x0akRETURN 0-6 return\x0akAND 7-10 and\x0atIDENTIFIER 11-12 a\x0aEOF 12-12 " },
    Rec { t: b"a && (return)", shape: b"(and lhs=(send method_name=\x22a\x22 args=[]) rhs=(begin statements=[(return args=[])]))", full: b"(and lhs=(send method_name=\x22a\x22 args=[] selector=0-1 expression=0-1) rhs=(begin statements=[(return args=[] keyword=6-12 expression=6-12)] begin=5-6 end=12-13 expression=5-13) operator=2-4 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 a\x0atANDOP 2-4 &&\x0atLPAREN 5-6 (\x0akRETURN 6-12 return\x0atRPAREN 12-13 )\x0aEOF 13-13 " },
    Rec { t: b"a and return", shape: b"(and lhs=(send method_name=\x22a\x22 args=[]) rhs=(return args=[]))", full: b"(and lhs=(send method_name=\x22a\x22 args=[] selector=0-1 expression=0-1) rhs=(return args=[] keyword=6-12 expression=6-12) operator=2-5 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 a\x0akAND 2-5 and\x0akRETURN 6-12 return\x0aEOF 12-12 " },
    Rec { t: b"a or return", shape: b"(or lhs=(send method_name=\x22a\x22 args=[]) rhs=(return args=[]))", full: b"(or lhs=(send method_name=\x22a\x22 args=[] selector=0-1 expression=0-1) rhs=(return args=[] keyword=5-11 expression=5-11) operator=2-4 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 a\x0akOR 2-4 or\x0akRETURN 5-11 return\x0aEOF 11-11 " },
    Rec { t: b"a || (return)", shape: b"(or lhs=(send method_name=\x22a\x22 args=[]) rhs=(begin statements=[(return args=[])]))", full: b"(or lhs=(send method_name=\x22a\x22 args=[] selector=0-1 expression=0-1) rhs=(begin statements=[(return args=[] keyword=6-12 expression=6-12)] begin=5-6 end=12-13 expression=5-13) operator=2-4 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 a\x0atOROP 2-4 ||\x0atLPAREN 5-6 (\x0akRETURN 6-12 return\x0atRPAREN 12-13 )\x0aEOF 13-13 " },
    Rec { t: b"(return)[1]", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=9-10)", diag: b"\x0aE 1-7 void value expression", toks: b"\x0atLPAREN 0-1 (\x0akRETURN 1-7 return\x0atRPAREN 7-8 )\x0atLBRACK2 8-9 [\x0atINTEGER 9-10 1\x0atRBRACK 10-11 ]" },
    Rec { t: b"(return).a = 1", shape: b"(lvasgn name=\x22a\x22 value=(int value=\x221\x22))", full: b"(lvasgn name=\x22a\x22 value=(int value=\x221\x22 expression=13-14) name=9-10 operator=11-12 expression=9-14)", diag: b"\x0aE 1-7 void value expression", toks: b"\x0atLPAREN 0-1 (\x0akRETURN 1-7 return\x0atRPAREN 7-8 )\x0atDOT 8-9 .\x0atIDENTIFIER 9-10 a\x0atEQL 11-12 =\x0atINTEGER 13-14 1\x0aEOF 14-14 " },
    Rec { t: b"(return)..a", shape: b"none", full: b"none", diag: b"\x0aE 1-7 void value expression", toks: b"\x0atLPAREN 0-1 (\x0akRETURN 1-7 return\x0atRPAREN 7-8 )\x0atDOT2 8-10 ..\x0atIDENTIFIER 10-11 a\x0aEOF 11-11 " },
    Rec { t: b"a..(return)", shape: b"none", full: b"none", diag: b"\x0aE 4-10 void value expression", toks: b"\x0atIDENTIFIER 0-1 a\x0atDOT2 1-3 ..\x0atLPAREN 3-4 (\x0akRETURN 4-10 return\x0atRPAREN 10-11 )\x0aEOF 11-11 " },
    Rec { t: b"if (return); a; end", shape: b"(send method_name=\x22a\x22 args=[])", full: b"(send method_name=\x22a\x22 args=[] selector=13-14 expression=13-14)", diag: b"\x0aE 4-10 void value expression", toks: b"\x0akIF 0-2 if\x0atLPAREN 3-4 (\x0akRETURN 4-10 return\x0atRPAREN 10-11 )\x0atSEMI 11-12 ;\x0atIDENTIFIER 13-14 a\x0atSEMI 14-15 ;\x0akEND 16-19 end" },
    Rec { t: b"while (return); a; end", shape: b"(send method_name=\x22a\x22 args=[])", full: b"(send method_name=\x22a\x22 args=[] selector=16-17 expression=16-17)", diag: b"\x0aE 7-13 void value expression", toks: b"\x0akWHILE 0-5 while\x0atLPAREN 6-7 (\x0akRETURN 7-13 return\x0atRPAREN 13-14 )\x0atSEMI 14-15 ;\x0atIDENTIFIER 16-17 a\x0atSEMI 17-18 ;\x0akEND 19-22 end" },
    Rec { t: b"until (return); end", shape: b"none", full: b"none", diag: b"\x0aE 7-13 void value expression", toks: b"\x0akUNTIL 0-5 until\x0atLPAREN 6-7 (\x0akRETURN 7-13 return\x0atRPAREN 13-14 )\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"(return) ? a : b", shape: b"none", full: b"none", diag: b"\x0aE 1-7 void value expression", toks: b"\x0atLPAREN 0-1 (\x0akRETURN 1-7 return\x0atRPAREN 7-8 )\x0atEH 9-10 ?\x0atIDENTIFIER 11-12 a\x0atCOLON 13-14 :\x0atIDENTIFIER 15-16 b\x0aEOF 16-16 " },
    Rec { t: b"a if (return)", shape: b"none", full: b"none", diag: b"\x0aE 6-12 void value expression", toks: b"\x0atIDENTIFIER 0-1 a\x0akIF_MOD 2-4 if\x0atLPAREN 5-6 (\x0akRETURN 6-12 return\x0atRPAREN 12-13 )\x0aEOF 13-13 " },
    Rec { t: b"a while (return)", shape: b"none", full: b"none", diag: b"\x0aE 9-15 void value expression", toks: b"\x0atIDENTIFIER 0-1 a\x0akWHILE_MOD 2-7 while\x0atLPAREN 8-9 (\x0akRETURN 9-15 return\x0atRPAREN 15-16 )\x0aEOF 16-16 " },
    Rec { t: b"case (return); when a; end", shape: b"(send method_name=\x22a\x22 args=[])", full: b"(send method_name=\x22a\x22 args=[] selector=20-21 expression=20-21)", diag: b"\x0aE 6-12 void value expression", toks: b"\x0akCASE 0-4 case\x0atLPAREN 5-6 (\x0akRETURN 6-12 return\x0atRPAREN 12-13 )\x0atSEMI 13-14 ;\x0akWHEN 15-19 when\x0atIDENTIFIER 20-21 a\x0atSEMI 21-22 ;\x0akEND 23-26 end" },
    Rec { t: b"case a; when (return); end", shape: b"none", full: b"none", diag: b"\x0aE 14-20 void value expression", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-6 a\x0atSEMI 6-7 ;\x0akWHEN 8-12 when\x0atLPAREN 13-14 (\x0akRETURN 14-20 return\x0atRPAREN 20-21 )\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"for a in (return); end", shape: b"none", full: b"none", diag: b"\x0aE 10-16 void value expression", toks: b"\x0akFOR 0-3 for\x0atIDENTIFIER 4-5 a\x0akIN 6-8 in\x0atLPAREN 9-10 (\x0akRETURN 10-16 return\x0atRPAREN 16-17 )\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"-(return)", shape: b"none", full: b"none", diag: b"\x0aE 2-8 void value expression", toks: b"\x0atUMINUS 0-1 -\x0atLPAREN 1-2 (\x0akRETURN 2-8 return\x0atRPAREN 8-9 )\x0aEOF 9-9 " },
    Rec { t: b"~(return)", shape: b"none", full: b"none", diag: b"\x0aE 2-8 void value expression", toks: b"\x0atTILDE 0-1 ~\x0atLPAREN 1-2 (\x0akRETURN 2-8 return\x0atRPAREN 8-9 )\x0aEOF 9-9 " },
    Rec { t: b"+(return)", shape: b"none", full: b"none", diag: b"\x0aE 2-8 void value expression", toks: b"\x0atUPLUS 0-1 +\x0atLPAREN 1-2 (\x0akRETURN 2-8 return\x0atRPAREN 8-9 )\x0aEOF 9-9 " },
    Rec { t: b"(return) rescue a", shape: b"(rescue body=(begin statements=[(return args=[])]) rescue_bodies=[(rescue_body body=(send method_name=\x22a\x22 args=[]))])", full: b"(rescue body=(begin statements=[(return args=[] keyword=1-7 expression=1-7)] begin=0-1 end=7-8 expression=0-8) rescue_bodies=[(rescue_body body=(send method_name=\x22a\x22 args=[] selector=16-17 expression=16-17) keyword=9-15 expression=9-17)] expression=0-17)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0akRETURN 1-7 return\x0atRPAREN 7-8 )\x0akRESCUE_MOD 9-15 rescue\x0atIDENTIFIER 16-17 a\x0aEOF 17-17 " },
    Rec { t: b"a rescue return", shape: b"(rescue body=(send method_name=\x22a\x22 args=[]) rescue_bodies=[(rescue_body body=(return args=[]))])", full: b"(rescue body=(send method_name=\x22a\x22 args=[] selector=0-1 expression=0-1) rescue_bodies=[(rescue_body body=(return args=[] keyword=9-15 expression=9-15) keyword=2-8 expression=2-15)] expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 a\x0akRESCUE_MOD 2-8 rescue\x0akRETURN 9-15 return\x0aEOF 15-15 " },
    Rec { t: b"return rescue a", shape: b"(rescue body=(return args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22a\x22 args=[]))])", full: b"(rescue body=(return args=[] keyword=0-6 expression=0-6) rescue_bodies=[(rescue_body body=(send method_name=\x22a\x22 args=[] selector=14-15 expression=14-15) keyword=7-13 expression=7-15)] expression=0-15)", diag: b"", toks: b"\x0akRETURN 0-6 return\x0akRESCUE_MOD 7-13 rescue\x0atIDENTIFIER 14-15 a\x0aEOF 15-15 " },
    Rec { t: b"return (return)", shape: b"none", full: b"none", diag: b"\x0aE 8-14 void value expression", toks: b"\x0akRETURN 0-6 return\x0atLPAREN 7-8 (\x0akRETURN 8-14 return\x0atRPAREN 14-15 )\x0aEOF 15-15 " },
    Rec { t: b"m(*(return))", shape: b"none", full: b"none", diag: b"\x0aE 4-10 void value expression", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atSTAR 2-3 *\x0atLPAREN 3-4 (\x0akRETURN 4-10 return\x0atRPAREN 10-11 )\x0atRPAREN 11-12 )\x0aEOF 12-12 " },
    Rec { t: b"m(&(return))", shape: b"none", full: b"none", diag: b"\x0aE 4-10 void value expression", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atAMPER 2-3 &\x0atLPAREN 3-4 (\x0akRETURN 4-10 return\x0atRPAREN 10-11 )\x0atRPAREN 11-12 )\x0aEOF 12-12 " },
    Rec { t: b"m(**(return))", shape: b"none", full: b"none", diag: b"\x0aE 5-11 void value expression", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atDSTAR 2-4 **\x0atLPAREN 4-5 (\x0akRETURN 5-11 return\x0atRPAREN 11-12 )\x0atRPAREN 12-13 )\x0aEOF 13-13 " },
    Rec { t: b"m(a: (return))", shape: b"none", full: b"none", diag: b"\x0aE 6-12 void value expression", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atLABEL 2-4 a\x0atLPAREN 5-6 (\x0akRETURN 6-12 return\x0atRPAREN 12-13 )\x0atRPAREN 13-14 )\x0aEOF 14-14 " },
    Rec { t: b"m a, (return)", shape: b"none", full: b"none", diag: b"\x0aE 6-12 void value expression", toks: b"\x0atIDENTIFIER 0-1 m\x0atIDENTIFIER 2-3 a\x0atCOMMA 3-4 ,\x0atLPAREN 5-6 (\x0akRETURN 6-12 return\x0atRPAREN 12-13 )\x0aEOF 13-13 " },
    Rec { t: b"yield (return)", shape: b"none", full: b"none", diag: b"\x0aE 7-13 void value expression", toks: b"\x0akYIELD 0-5 yield\x0atLPAREN_ARG 6-7 (\x0akRETURN 7-13 return\x0atRPAREN 13-14 )\x0aEOF 14-14 " },
    Rec { t: b"super((return))", shape: b"none", full: b"none", diag: b"\x0aE 7-13 void value expression", toks: b"\x0akSUPER 0-5 super\x0atLPAREN2 5-6 (\x0atLPAREN 6-7 (\x0akRETURN 7-13 return\x0atRPAREN 13-14 )\x0atRPAREN 14-15 )\x0aEOF 15-15 " },
    Rec { t: b"defined?((return))", shape: b"(defined value=(begin statements=[(return args=[])]))", full: b"(defined value=(begin statements=[(return args=[] keyword=10-16 expression=10-16)] begin=9-10 end=16-17 expression=9-17) keyword=0-8 begin=8-9 end=17-18 expression=0-18)", diag: b"", toks: b"\x0akDEFINED 0-8 defined?\x0atLPAREN2 8-9 (\x0atLPAREN 9-10 (\x0akRETURN 10-16 return\x0atRPAREN 16-17 )\x0atRPAREN 17-18 )\x0aEOF 18-18 " },
    Rec { t: b"\x22#{return}\x22", shape: b"(dstr parts=[(begin statements=[(return args=[])])])", full: b"(dstr parts=[(begin statements=[(return args=[] keyword=3-9 expression=3-9)] begin=1-3 end=9-10 expression=1-10)] begin=0-1 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_DBEG 1-3 #{\x0akRETURN 3-9 return\x0atSTRING_DEND 9-10 }\x0atSTRING_END 10-11 \x22\x0aEOF 11-11 " },
    Rec { t: b"\x22#{(return)}\x22", shape: b"(dstr parts=[(begin statements=[(begin statements=[(return args=[])])])])", full: b"(dstr parts=[(begin statements=[(begin statements=[(return args=[] keyword=4-10 expression=4-10)] begin=3-4 end=10-11 expression=3-11)] begin=1-3 end=11-12 expression=1-12)] begin=0-1 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_DBEG 1-3 #{\x0atLPAREN 3-4 (\x0akRETURN 4-10 return\x0atRPAREN 10-11 )\x0atSTRING_DEND 11-12 }\x0atSTRING_END 12-13 \x22\x0aEOF 13-13 " },
    Rec { t: b"class A < (return); end", shape: b"none", full: b"none", diag: b"\x0aE 11-17 void value expression", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-7 A\x0atLT 8-9 <\x0atLPAREN 10-11 (\x0akRETURN 11-17 return\x0atRPAREN 17-18 )\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"class << (return); end", shape: b"(s_class expr=(begin statements=[(return args=[])]))", full: b"(s_class expr=(begin statements=[(return args=[] keyword=10-16 expression=10-16)] begin=9-10 end=16-17 expression=9-17) keyword=0-5 operator=6-8 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atLSHFT 6-8 <<\x0atLPAREN 9-10 (\x0akRETURN 10-16 return\x0atRPAREN 16-17 )\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"def (return).m; end", shape: b"(send method_name=\x22m\x22 args=[])", full: b"(send method_name=\x22m\x22 args=[] selector=13-14 expression=13-14)", diag: b"\x0aE 5-11 void value expression", toks: b"\x0akDEF 0-3 def\x0atLPAREN2 4-5 (\x0akRETURN 5-11 return\x0atRPAREN 11-12 )\x0atDOT 12-13 .\x0atIDENTIFIER 13-14 m\x0atSEMI 14-15 ;\x0akEND 16-19 end" },
    Rec { t: b"def m(a = (return)) end", shape: b"none", full: b"none", diag: b"\x0aE 11-17 void value expression", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-7 a\x0atEQL 8-9 =\x0atLPAREN 10-11 (\x0akRETURN 11-17 return\x0atRPAREN 17-18 )\x0atRPAREN 18-19 )\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"def m = return", shape: b"(def name=\x22m\x22 body=(return args=[]))", full: b"(def name=\x22m\x22 body=(return args=[] keyword=8-14 expression=8-14) keyword=0-3 name=4-5 assignment=6-7 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atEQL 6-7 =\x0akRETURN 8-14 return\x0aEOF 14-14 " },
    Rec { t: b"def m() = (return)", shape: b"(def name=\x22m\x22 args=(args args=[]) body=(begin statements=[(return args=[])]))", full: b"(def name=\x22m\x22 args=(args args=[] expression=5-7 begin=5-6 end=6-7) body=(begin statements=[(return args=[] keyword=11-17 expression=11-17)] begin=10-11 end=17-18 expression=10-18) keyword=0-3 name=4-5 assignment=8-9 expression=0-18)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atRPAREN 6-7 )\x0atEQL 8-9 =\x0atLPAREN 10-11 (\x0akRETURN 11-17 return\x0atRPAREN 17-18 )\x0aEOF 18-18 " },
    Rec { t: b"(return) => a", shape: b"(send method_name=\x22a\x22 args=[])", full: b"(send method_name=\x22a\x22 args=[] selector=12-13 expression=12-13)", diag: b"\x0aE 1-7 void value expression", toks: b"\x0atLPAREN 0-1 (\x0akRETURN 1-7 return\x0atRPAREN 7-8 )\x0atASSOC 9-11 =>\x0atIDENTIFIER 12-13 a\x0aEOF 13-13 " },
    Rec { t: b"(return) in a", shape: b"(send method_name=\x22a\x22 args=[])", full: b"(send method_name=\x22a\x22 args=[] selector=12-13 expression=12-13)", diag: b"\x0aE 1-7 void value expression", toks: b"\x0atLPAREN 0-1 (\x0akRETURN 1-7 return\x0atRPAREN 7-8 )\x0akIN 9-11 in\x0atIDENTIFIER 12-13 a\x0aEOF 13-13 " },
    Rec { t: b"a ? (return) : b + (return)", shape: b"none", full: b"none", diag: b"\x0aE 20-26 void value expression", toks: b"\x0atIDENTIFIER 0-1 a\x0atEH 2-3 ?\x0atLPAREN 4-5 (\x0akRETURN 5-11 return\x0atRPAREN 11-12 )\x0atCOLON 13-14 :\x0atIDENTIFIER 15-16 b\x0atPLUS 17-18 +\x0atLPAREN 19-20 (\x0akRETURN 20-26 return\x0atRPAREN 26-27 )\x0aEOF 27-27 " },
    Rec { t: b"-> { return }", shape: b"(block call=(lambda) body=(return args=[]))", full: b"(block call=(lambda expression=0-2) body=(return args=[] keyword=5-11 expression=5-11) begin=3-4 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLAMBEG 3-4 {\x0akRETURN 5-11 return\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"m { return }", shape: b"(block call=(send method_name=\x22m\x22 args=[]) body=(return args=[]))", full: b"(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) body=(return args=[] keyword=4-10 expression=4-10) begin=2-3 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0akRETURN 4-10 return\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"x = -> { return }", shape: b"(lvasgn name=\x22x\x22 value=(block call=(lambda) body=(return args=[])))", full: b"(lvasgn name=\x22x\x22 value=(block call=(lambda expression=4-6) body=(return args=[] keyword=9-15 expression=9-15) begin=7-8 end=16-17 expression=4-17) name=0-1 operator=2-3 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0atLAMBDA 4-6 ->\x0atLAMBEG 7-8 {\x0akRETURN 9-15 return\x0atRCURLY 16-17 }\x0aEOF 17-17 " },
    Rec { t: b"x = m { return }", shape: b"(lvasgn name=\x22x\x22 value=(block call=(send method_name=\x22m\x22 args=[]) body=(return args=[])))", full: b"(lvasgn name=\x22x\x22 value=(block call=(send method_name=\x22m\x22 args=[] selector=4-5 expression=4-5) body=(return args=[] keyword=8-14 expression=8-14) begin=6-7 end=15-16 expression=4-16) name=0-1 operator=2-3 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0atIDENTIFIER 4-5 m\x0atLCURLY 6-7 {\x0akRETURN 8-14 return\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"x = (def m; return; end)", shape: b"(lvasgn name=\x22x\x22 value=(begin statements=[(def name=\x22m\x22 body=(return args=[]))]))", full: b"(lvasgn name=\x22x\x22 value=(begin statements=[(def name=\x22m\x22 body=(return args=[] keyword=12-18 expression=12-18) keyword=5-8 name=9-10 end=20-23 expression=5-23)] begin=4-5 end=23-24 expression=4-24) name=0-1 operator=2-3 expression=0-24)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0atLPAREN 4-5 (\x0akDEF 5-8 def\x0atIDENTIFIER 9-10 m\x0atSEMI 10-11 ;\x0akRETURN 12-18 return\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0atRPAREN 23-24 )\x0aEOF 24-24 " },
    Rec { t: b"x = while a; return; end", shape: b"(lvasgn name=\x22x\x22 value=(while cond=(send method_name=\x22a\x22 args=[]) body=(return args=[])))", full: b"(lvasgn name=\x22x\x22 value=(while cond=(send method_name=\x22a\x22 args=[] selector=10-11 expression=10-11) body=(return args=[] keyword=13-19 expression=13-19) keyword=4-9 begin=11-12 end=21-24 expression=4-24) name=0-1 operator=2-3 expression=0-24)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 x\x0atEQL 2-3 =\x0akWHILE 4-9 while\x0atIDENTIFIER 10-11 a\x0atSEMI 11-12 ;\x0akRETURN 13-19 return\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"begin; return; end while a", shape: b"(while_post cond=(send method_name=\x22a\x22 args=[]) body=(kw_begin statements=[(return args=[])]))", full: b"(while_post cond=(send method_name=\x22a\x22 args=[] selector=25-26 expression=25-26) body=(kw_begin statements=[(return args=[] keyword=7-13 expression=7-13)] begin=0-5 end=15-18 expression=0-18) keyword=19-24 expression=0-26)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akRETURN 7-13 return\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0akWHILE_MOD 19-24 while\x0atIDENTIFIER 25-26 a\x0aEOF 26-26 " },
    Rec { t: b"return if a", shape: b"(if_mod cond=(send method_name=\x22a\x22 args=[]) if_true=(return args=[]))", full: b"(if_mod cond=(send method_name=\x22a\x22 args=[] selector=10-11 expression=10-11) if_true=(return args=[] keyword=0-6 expression=0-6) keyword=7-9 expression=0-11)", diag: b"", toks: b"\x0akRETURN 0-6 return\x0akIF_MOD 7-9 if\x0atIDENTIFIER 10-11 a\x0aEOF 11-11 " },
    Rec { t: b"return unless a", shape: b"(if_mod cond=(send method_name=\x22a\x22 args=[]) if_false=(return args=[]))", full: b"(if_mod cond=(send method_name=\x22a\x22 args=[] selector=14-15 expression=14-15) if_false=(return args=[] keyword=0-6 expression=0-6) keyword=7-13 expression=0-15)", diag: b"", toks: b"\x0akRETURN 0-6 return\x0akUNLESS_MOD 7-13 unless\x0atIDENTIFIER 14-15 a\x0aEOF 15-15 " },
    Rec { t: b"return while a", shape: b"(while cond=(send method_name=\x22a\x22 args=[]) body=(return args=[]))", full: b"(while cond=(send method_name=\x22a\x22 args=[] selector=13-14 expression=13-14) body=(return args=[] keyword=0-6 expression=0-6) keyword=7-12 expression=0-14)", diag: b"", toks: b"\x0akRETURN 0-6 return\x0akWHILE_MOD 7-12 while\x0atIDENTIFIER 13-14 a\x0aEOF 14-14 " },
    Rec { t: b"if a; return; else return; end", shape: b"(if cond=(send method_name=\x22a\x22 args=[]) if_true=(return args=[]) if_false=(return args=[]))", full: b"(if cond=(send method_name=\x22a\x22 args=[] selector=3-4 expression=3-4) if_true=(return args=[] keyword=6-12 expression=6-12) if_false=(return args=[] keyword=19-25 expression=19-25) keyword=0-2 begin=4-5 else=14-18 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-4 a\x0atSEMI 4-5 ;\x0akRETURN 6-12 return\x0atSEMI 12-13 ;\x0akELSE 14-18 else\x0akRETURN 19-25 return\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"begin; return; rescue; return; ensure; return; end", shape: b"(kw_begin statements=[(ensure body=(rescue body=(return args=[]) rescue_bodies=[(rescue_body body=(return args=[]))]) ensure=(return args=[]))])", full: b"(kw_begin statements=[(ensure body=(rescue body=(return args=[] keyword=7-13 expression=7-13) rescue_bodies=[(rescue_body body=(return args=[] keyword=23-29 expression=23-29) keyword=15-21 begin=21-22 expression=15-29)] expression=7-29) ensure=(return args=[] keyword=39-45 expression=39-45) keyword=31-37 expression=7-45)] begin=0-5 end=47-50 expression=0-50)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akRETURN 7-13 return\x0atSEMI 13-14 ;\x0akRESCUE 15-21 rescue\x0atSEMI 21-22 ;\x0akRETURN 23-29 return\x0atSEMI 29-30 ;\x0akENSURE 31-37 ensure\x0atSEMI 37-38 ;\x0akRETURN 39-45 return\x0atSEMI 45-46 ;\x0akEND 47-50 end\x0aEOF 50-50 " },
    Rec { t: b"case a; when b; return; end", shape: b"(case expr=(send method_name=\x22a\x22 args=[]) when_bodies=[(when patterns=[(send method_name=\x22b\x22 args=[])] body=(return args=[]))])", full: b"(case expr=(send method_name=\x22a\x22 args=[] selector=5-6 expression=5-6) when_bodies=[(when patterns=[(send method_name=\x22b\x22 args=[] selector=13-14 expression=13-14)] body=(return args=[] keyword=16-22 expression=16-22) keyword=8-12 begin=14-15 expression=8-22)] keyword=0-4 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-6 a\x0atSEMI 6-7 ;\x0akWHEN 8-12 when\x0atIDENTIFIER 13-14 b\x0atSEMI 14-15 ;\x0akRETURN 16-22 return\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"begin; else; end", shape: b"(kw_begin statements=[])", full: b"(kw_begin statements=[] begin=0-5 end=13-16 expression=0-16)", diag: b"\x0aE 7-11 else without rescue is useless", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akELSE 7-11 else\x0atSEMI 11-12 ;\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"begin; a; else; b; end", shape: b"(kw_begin statements=[])", full: b"(kw_begin statements=[] begin=0-5 end=19-22 expression=0-22)", diag: b"\x0aE 10-14 else without rescue is useless", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-8 a\x0atSEMI 8-9 ;\x0akELSE 10-14 else\x0atSEMI 14-15 ;\x0atIDENTIFIER 16-17 b\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"begin; a; else; b; ensure; c; end", shape: b"(kw_begin statements=[])", full: b"(kw_begin statements=[] begin=0-5 end=30-33 expression=0-33)", diag: b"\x0aE 10-14 else without rescue is useless", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-8 a\x0atSEMI 8-9 ;\x0akELSE 10-14 else\x0atSEMI 14-15 ;\x0atIDENTIFIER 16-17 b\x0atSEMI 17-18 ;\x0akENSURE 19-25 ensure\x0atSEMI 25-26 ;\x0atIDENTIFIER 27-28 c\x0atSEMI 28-29 ;\x0akEND 30-33 end\x0aEOF 33-33 " },
    Rec { t: b"def m; a; else; b; end", shape: b"(def name=\x22m\x22)", full: b"(def name=\x22m\x22 keyword=0-3 name=4-5 end=19-22 expression=0-22)", diag: b"\x0aE 10-14 else without rescue is useless", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-8 a\x0atSEMI 8-9 ;\x0akELSE 10-14 else\x0atSEMI 14-15 ;\x0atIDENTIFIER 16-17 b\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"begin; a; rescue; b; else; c; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22a\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22b\x22 args=[]))] else_=(send method_name=\x22c\x22 args=[]))])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22a\x22 args=[] selector=7-8 expression=7-8) rescue_bodies=[(rescue_body body=(send method_name=\x22b\x22 args=[] selector=18-19 expression=18-19) keyword=10-16 begin=16-17 expression=10-19)] else_=(send method_name=\x22c\x22 args=[] selector=27-28 expression=27-28) else=21-25 expression=7-28)] begin=0-5 end=30-33 expression=0-33)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-8 a\x0atSEMI 8-9 ;\x0akRESCUE 10-16 rescue\x0atSEMI 16-17 ;\x0atIDENTIFIER 18-19 b\x0atSEMI 19-20 ;\x0akELSE 21-25 else\x0atSEMI 25-26 ;\x0atIDENTIFIER 27-28 c\x0atSEMI 28-29 ;\x0akEND 30-33 end\x0aEOF 33-33 " },
    Rec { t: b"def m; a; rescue; b; else; c; ensure; d; end", shape: b"(def name=\x22m\x22 body=(ensure body=(rescue body=(send method_name=\x22a\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22b\x22 args=[]))] else_=(send method_name=\x22c\x22 args=[])) ensure=(send method_name=\x22d\x22 args=[])))", full: b"(def name=\x22m\x22 body=(ensure body=(rescue body=(send method_name=\x22a\x22 args=[] selector=7-8 expression=7-8) rescue_bodies=[(rescue_body body=(send method_name=\x22b\x22 args=[] selector=18-19 expression=18-19) keyword=10-16 begin=16-17 expression=10-19)] else_=(send method_name=\x22c\x22 args=[] selector=27-28 expression=27-28) else=21-25 expression=7-28) ensure=(send method_name=\x22d\x22 args=[] selector=38-39 expression=38-39) keyword=30-36 expression=7-39) keyword=0-3 name=4-5 end=41-44 expression=0-44)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-8 a\x0atSEMI 8-9 ;\x0akRESCUE 10-16 rescue\x0atSEMI 16-17 ;\x0atIDENTIFIER 18-19 b\x0atSEMI 19-20 ;\x0akELSE 21-25 else\x0atSEMI 25-26 ;\x0atIDENTIFIER 27-28 c\x0atSEMI 28-29 ;\x0akENSURE 30-36 ensure\x0atSEMI 36-37 ;\x0atIDENTIFIER 38-39 d\x0atSEMI 39-40 ;\x0akEND 41-44 end\x0aEOF 44-44 " },
    Rec { t: b"begin; ensure; rescue; end", shape: b"(kw_begin statements=[(rescue rescue_bodies=[(rescue_body)])])", full: b"(kw_begin statements=[(rescue rescue_bodies=[(rescue_body keyword=15-21 begin=21-22 expression=15-22)] expression=15-22)] begin=0-5 end=23-26 expression=0-26)", diag: b"\x0aE 15-21 unexpected kRESCUE", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akENSURE 7-13 ensure\x0atSEMI 13-14 ;\x0akRESCUE 15-21 rescue\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"begin; ensure; ensure; end", shape: b"(kw_begin statements=[(ensure)])", full: b"(kw_begin statements=[(ensure keyword=15-21 expression=15-21)] begin=0-5 end=23-26 expression=0-26)", diag: b"\x0aE 15-21 unexpected kENSURE", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akENSURE 7-13 ensure\x0atSEMI 13-14 ;\x0akENSURE 15-21 ensure\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"begin; rescue; else; else; end", shape: b"(kw_begin statements=[])", full: b"(kw_begin statements=[] begin=0-5 end=27-30 expression=0-30)", diag: b"\x0aE 21-25 unexpected kELSE\x0aE 21-25 else without rescue is useless", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akRESCUE 7-13 rescue\x0atSEMI 13-14 ;\x0akELSE 15-19 else\x0atSEMI 19-20 ;\x0akELSE 21-25 else\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"m do; rescue; end", shape: b"(block call=(send method_name=\x22m\x22 args=[]) body=(rescue rescue_bodies=[(rescue_body)]))", full: b"(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) body=(rescue rescue_bodies=[(rescue_body keyword=6-12 begin=12-13 expression=6-13)] expression=6-13) begin=2-4 end=14-17 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0akDO 2-4 do\x0atSEMI 4-5 ;\x0akRESCUE 6-12 rescue\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"m do a; rescue B => c; d; else e; ensure f; end", shape: b"(block call=(send method_name=\x22m\x22 args=[]) body=(ensure body=(rescue body=(send method_name=\x22a\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22B\x22)]) exc_var=(lvasgn name=\x22c\x22) body=(send method_name=\x22d\x22 args=[]))] else_=(send method_name=\x22e\x22 args=[])) ensure=(send method_name=\x22f\x22 args=[])))", full: b"(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) body=(ensure body=(rescue body=(send method_name=\x22a\x22 args=[] selector=5-6 expression=5-6) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22B\x22 name=15-16 expression=15-16)] expression=15-16) exc_var=(lvasgn name=\x22c\x22 name=20-21 expression=20-21) body=(send method_name=\x22d\x22 args=[] selector=23-24 expression=23-24) keyword=8-14 assoc=17-19 begin=21-22 expression=8-24)] else_=(send method_name=\x22e\x22 args=[] selector=31-32 expression=31-32) else=26-30 expression=5-32) ensure=(send method_name=\x22f\x22 args=[] selector=41-42 expression=41-42) keyword=34-40 expression=5-42) begin=2-4 end=44-47 expression=0-47)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0akDO 2-4 do\x0atIDENTIFIER 5-6 a\x0atSEMI 6-7 ;\x0akRESCUE 8-14 rescue\x0atCONSTANT 15-16 B\x0atASSOC 17-19 =>\x0atIDENTIFIER 20-21 c\x0atSEMI 21-22 ;\x0atIDENTIFIER 23-24 d\x0atSEMI 24-25 ;\x0akELSE 26-30 else\x0atIDENTIFIER 31-32 e\x0atSEMI 32-33 ;\x0akENSURE 34-40 ensure\x0atIDENTIFIER 41-42 f\x0atSEMI 42-43 ;\x0akEND 44-47 end\x0aEOF 47-47 " },
    Rec { t: b"-> do a; rescue; b; end", shape: b"(block call=(lambda) body=(rescue body=(send method_name=\x22a\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22b\x22 args=[]))]))", full: b"(block call=(lambda expression=0-2) body=(rescue body=(send method_name=\x22a\x22 args=[] selector=6-7 expression=6-7) rescue_bodies=[(rescue_body body=(send method_name=\x22b\x22 args=[] selector=17-18 expression=17-18) keyword=9-15 begin=15-16 expression=9-18)] expression=6-18) begin=3-5 end=20-23 expression=0-23)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0akDO_LAMBDA 3-5 do\x0atIDENTIFIER 6-7 a\x0atSEMI 7-8 ;\x0akRESCUE 9-15 rescue\x0atSEMI 15-16 ;\x0atIDENTIFIER 17-18 b\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"m { a; rescue; b }", shape: b"(send method_name=\x22b\x22 args=[])", full: b"(send method_name=\x22b\x22 args=[] selector=15-16 expression=15-16)", diag: b"\x0aE 7-13 unexpected kRESCUE", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atIDENTIFIER 4-5 a\x0atSEMI 5-6 ;\x0akRESCUE 7-13 rescue\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-16 b\x0atRCURLY 17-18 }" },
    Rec { t: b"if a; else; else; end", shape: b"(if cond=(send method_name=\x22a\x22 args=[]))", full: b"(if cond=(send method_name=\x22a\x22 args=[] selector=3-4 expression=3-4) keyword=0-2 begin=4-5 else=12-16 end=18-21 expression=0-21)", diag: b"\x0aE 12-16 unexpected kELSE", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-4 a\x0atSEMI 4-5 ;\x0akELSE 6-10 else\x0atSEMI 10-11 ;\x0akELSE 12-16 else\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"if a; else; elsif b; end", shape: b"(if cond=(send method_name=\x22a\x22 args=[]) if_false=(if cond=(send method_name=\x22b\x22 args=[])))", full: b"(if cond=(send method_name=\x22a\x22 args=[] selector=3-4 expression=3-4) if_false=(if cond=(send method_name=\x22b\x22 args=[] selector=18-19 expression=18-19) keyword=12-17 begin=19-20 expression=12-20) keyword=0-2 begin=4-5 else=12-17 end=21-24 expression=0-24)", diag: b"\x0aE 12-17 unexpected kELSIF", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-4 a\x0atSEMI 4-5 ;\x0akELSE 6-10 else\x0atSEMI 10-11 ;\x0akELSIF 12-17 elsif\x0atIDENTIFIER 18-19 b\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"unless a; elsif b; end", shape: b"(if cond=(send method_name=\x22a\x22 args=[]))", full: b"(if cond=(send method_name=\x22a\x22 args=[] selector=7-8 expression=7-8) keyword=0-6 begin=8-9 end=19-22 expression=0-22)", diag: b"\x0aE 10-15 unexpected kELSIF", toks: b"\x0akUNLESS 0-6 unless\x0atIDENTIFIER 7-8 a\x0atSEMI 8-9 ;\x0akELSIF 10-15 elsif\x0atIDENTIFIER 16-17 b\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"unless a; else; else; end", shape: b"(if cond=(send method_name=\x22a\x22 args=[]))", full: b"(if cond=(send method_name=\x22a\x22 args=[] selector=7-8 expression=7-8) keyword=0-6 begin=8-9 else=16-20 end=22-25 expression=0-25)", diag: b"\x0aE 16-20 unexpected kELSE", toks: b"\x0akUNLESS 0-6 unless\x0atIDENTIFIER 7-8 a\x0atSEMI 8-9 ;\x0akELSE 10-14 else\x0atSEMI 14-15 ;\x0akELSE 16-20 else\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"case a; when b; else; when c; end", shape: b"(send method_name=\x22c\x22 args=[])", full: b"(send method_name=\x22c\x22 args=[] selector=27-28 expression=27-28)", diag: b"\x0aE 22-26 unexpected kWHEN", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-6 a\x0atSEMI 6-7 ;\x0akWHEN 8-12 when\x0atIDENTIFIER 13-14 b\x0atSEMI 14-15 ;\x0akELSE 16-20 else\x0atSEMI 20-21 ;\x0akWHEN 22-26 when\x0atIDENTIFIER 27-28 c\x0atSEMI 28-29 ;\x0akEND 30-33 end" },
    Rec { t: b"case a; when b; else; else; end", shape: b"none", full: b"none", diag: b"\x0aE 22-26 unexpected kELSE", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-6 a\x0atSEMI 6-7 ;\x0akWHEN 8-12 when\x0atIDENTIFIER 13-14 b\x0atSEMI 14-15 ;\x0akELSE 16-20 else\x0atSEMI 20-21 ;\x0akELSE 22-26 else\x0atSEMI 26-27 ;\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"while a; else; end", shape: b"(while cond=(send method_name=\x22a\x22 args=[]))", full: b"(while cond=(send method_name=\x22a\x22 args=[] selector=6-7 expression=6-7) keyword=0-5 begin=7-8 end=15-18 expression=0-18)", diag: b"\x0aE 9-13 unexpected kELSE", toks: b"\x0akWHILE 0-5 while\x0atIDENTIFIER 6-7 a\x0atSEMI 7-8 ;\x0akELSE 9-13 else\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"{a}", shape: b"none", full: b"none", diag: b"\x0aE 2-3 unexpected tRCURLY", toks: b"\x0atLBRACE 0-1 {\x0atIDENTIFIER 1-2 a\x0atRCURLY 2-3 }\x0aEOF 3-3 " },
    Rec { t: b"{a:, 1}", shape: b"none", full: b"none", diag: b"\x0aE 6-7 unexpected tRCURLY", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 1-3 a\x0atCOMMA 3-4 ,\x0atINTEGER 5-6 1\x0atRCURLY 6-7 }\x0aEOF 7-7 " },
    Rec { t: b"{a\xffa:, B\xffa:}", shape: b"(hash pairs=[(pair key=(sym name=\x22a\xff\x00\x22) value=(send method_name=\x22a\xff\x00\x22 args=[])) (pair key=(sym name=\x22B\xff\x01\x22) value=(const name=\x22B\xff\x01\x22))])", full: b"(hash pairs=[(pair key=(sym name=\x22a\xff\x00\x22 expression=1-3) value=(send method_name=\x22a\xff\x00\x22 args=[] selector=1-3 expression=1-3) operator=3-4 expression=1-4) (pair key=(sym name=\x22B\xff\x01\x22 expression=6-8) value=(const name=\x22B\xff\x01\x22 name=6-8 expression=6-8) operator=8-9 expression=6-9)] begin=0-1 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 1-4 a\xff\x00\x0atCOMMA 4-5 ,\x0atLABEL 6-9 B\xff\x01\x0atRCURLY 9-10 }\x0aEOF 10-10 " },
    Rec { t: b"{a\xffa?:}", shape: b"(hash pairs=[(pair key=(sym name=\x22a\xff\x00?\x22) value=(send method_name=\x22a\xff\x00?\x22 args=[]))])", full: b"(hash pairs=[(pair key=(sym name=\x22a\xff\x00?\x22 expression=1-4) value=(send method_name=\x22a\xff\x00?\x22 args=[] selector=1-4 expression=1-4) operator=4-5 expression=1-5)] begin=0-1 end=5-6 expression=0-6)", diag: b"\x0aE 1-4 identifier a\xff\x00? is not valid to get", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 1-5 a\xff\x00?\x0atRCURLY 5-6 }\x0aEOF 6-6 " },
    Rec { t: b"{a\xffa!:}", shape: b"(hash pairs=[(pair key=(sym name=\x22a\xff\x00!\x22) value=(send method_name=\x22a\xff\x00!\x22 args=[]))])", full: b"(hash pairs=[(pair key=(sym name=\x22a\xff\x00!\x22 expression=1-4) value=(send method_name=\x22a\xff\x00!\x22 args=[] selector=1-4 expression=1-4) operator=4-5 expression=1-5)] begin=0-1 end=5-6 expression=0-6)", diag: b"\x0aE 1-4 identifier a\xff\x00! is not valid to get", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 1-5 a\xff\x00!\x0atRCURLY 5-6 }\x0aEOF 6-6 " },
    Rec { t: b"{\x22a\xffa\x22:}", shape: b"none", full: b"none", diag: b"\x0aE 6-7 unexpected tRCURLY", toks: b"\x0atLBRACE 0-1 {\x0atSTRING_BEG 1-2 \x22\x0atSTRING_CONTENT 2-4 a\xff\x00\x0atLABEL_END 4-6 \x22:\x0atRCURLY 6-7 }\x0aEOF 7-7 " },
    Rec { t: b"m(\x22a\xffa\x22:)", shape: b"none", full: b"none", diag: b"\x0aE 7-8 unexpected tRPAREN", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atSTRING_BEG 2-3 \x22\x0atSTRING_CONTENT 3-5 a\xff\x00\x0atLABEL_END 5-7 \x22:\x0atRPAREN 7-8 )\x0aEOF 8-8 " },
    Rec { t: b"m(a\xffa:)", shape: b"(send method_name=\x22m\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22a\xff\x00\x22) value=(send method_name=\x22a\xff\x00\x22 args=[]))])])", full: b"(send method_name=\x22m\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22a\xff\x00\x22 expression=2-4) value=(send method_name=\x22a\xff\x00\x22 args=[] selector=2-4 expression=2-4) operator=4-5 expression=2-5)] expression=2-5)] selector=0-1 begin=1-2 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atLABEL 2-5 a\xff\x00\x0atRPAREN 5-6 )\x0aEOF 6-6 " },
    Rec { t: b"{a => }", shape: b"none", full: b"none", diag: b"\x0aE 6-7 unexpected tRCURLY", toks: b"\x0atLBRACE 0-1 {\x0atIDENTIFIER 1-2 a\x0atASSOC 3-5 =>\x0atRCURLY 6-7 }\x0aEOF 7-7 " },
    Rec { t: b"{=> a}", shape: b"(send method_name=\x22a\x22 args=[])", full: b"(send method_name=\x22a\x22 args=[] selector=4-5 expression=4-5)", diag: b"\x0aE 1-3 unexpected tASSOC", toks: b"\x0atLBRACE 0-1 {\x0atASSOC 1-3 =>\x0atIDENTIFIER 4-5 a\x0atRCURLY 5-6 }" },
    Rec { t: b"{a: 1, , b: 2}", shape: b"(int value=\x222\x22)", full: b"(int value=\x222\x22 expression=12-13)", diag: b"\x0aE 7-8 unexpected tCOMMA", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 1-3 a\x0atINTEGER 4-5 1\x0atCOMMA 5-6 ,\x0atCOMMA 7-8 ,\x0atLABEL 9-11 b\x0atINTEGER 12-13 2\x0atRCURLY 13-14 }" },
    Rec { t: b"[1, , 2]", shape: b"(int value=\x222\x22)", full: b"(int value=\x222\x22 expression=6-7)", diag: b"\x0aE 4-5 unexpected tCOMMA", toks: b"\x0atLBRACK 0-1 [\x0atINTEGER 1-2 1\x0atCOMMA 2-3 ,\x0atCOMMA 4-5 ,\x0atINTEGER 6-7 2\x0atRBRACK 7-8 ]" },
    Rec { t: b"[, 1]", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=3-4)", diag: b"\x0aE 1-2 unexpected tCOMMA", toks: b"\x0atLBRACK 0-1 [\x0atCOMMA 1-2 ,\x0atINTEGER 3-4 1\x0atRBRACK 4-5 ]" },
    Rec { t: b"m(, 1)", shape: b"(int value=\x221\x22)", full: b"(int value=\x221\x22 expression=4-5)", diag: b"\x0aE 2-3 unexpected tCOMMA", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atCOMMA 2-3 ,\x0atINTEGER 4-5 1\x0atRPAREN 5-6 )" },
    Rec { t: b"m(1, , 2)", shape: b"(int value=\x222\x22)", full: b"(int value=\x222\x22 expression=7-8)", diag: b"\x0aE 5-6 unexpected tCOMMA", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atINTEGER 2-3 1\x0atCOMMA 3-4 ,\x0atCOMMA 5-6 ,\x0atINTEGER 7-8 2\x0atRPAREN 8-9 )" },
    Rec { t: b"[1, ]", shape: b"(array elements=[(int value=\x221\x22)])", full: b"(array elements=[(int value=\x221\x22 expression=1-2)] begin=0-1 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atINTEGER 1-2 1\x0atCOMMA 2-3 ,\x0atRBRACK 4-5 ]\x0aEOF 5-5 " },
    Rec { t: b"m(1, )", shape: b"(send method_name=\x22m\x22 args=[(int value=\x221\x22)])", full: b"(send method_name=\x22m\x22 args=[(int value=\x221\x22 expression=2-3)] selector=0-1 begin=1-2 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atINTEGER 2-3 1\x0atCOMMA 3-4 ,\x0atRPAREN 5-6 )\x0aEOF 6-6 " },
    Rec { t: b"{a: 1, }", shape: b"(hash pairs=[(pair key=(sym name=\x22a\x22) value=(int value=\x221\x22))])", full: b"(hash pairs=[(pair key=(sym name=\x22a\x22 expression=1-2) value=(int value=\x221\x22 expression=4-5) operator=2-3 expression=1-5)] begin=0-1 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 1-3 a\x0atINTEGER 4-5 1\x0atCOMMA 5-6 ,\x0atRCURLY 7-8 }\x0aEOF 8-8 " },
    Rec { t: b"m(1, &a, )", shape: b"none", full: b"none", diag: b"\x0aE 7-8 unexpected tCOMMA", toks: b"\x0atIDENTIFIER 0-1 m\x0atLPAREN2 1-2 (\x0atINTEGER 2-3 1\x0atCOMMA 3-4 ,\x0atAMPER 5-6 &\x0atIDENTIFIER 6-7 a\x0atCOMMA 7-8 ,\x0atRPAREN 9-10 )\x0aEOF 10-10 " },
    Rec { t: b"|a|", shape: b"none", full: b"none", diag: b"\x0aE 0-1 unexpected tPIPE", toks: b"\x0atPIPE 0-1 |\x0atIDENTIFIER 1-2 a\x0atPIPE 2-3 |\x0aEOF 3-3 " },
    Rec { t: b"m { |a, | b| }", shape: b"(block call=(send method_name=\x22m\x22 args=[]) args=(args args=[(arg name=\x22a\x22)]))", full: b"(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) args=(args args=[(arg name=\x22a\x22 expression=5-6)] expression=4-9 begin=4-5 end=8-9) begin=2-3 end=13-14 expression=0-14)", diag: b"\x0aE 13-14 unexpected tRCURLY", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atIDENTIFIER 5-6 a\x0atCOMMA 6-7 ,\x0atPIPE 8-9 |\x0atIDENTIFIER 10-11 b\x0atPIPE 11-12 |\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"m { |a b| }", shape: b"none", full: b"none", diag: b"\x0aE 7-8 unexpected tIDENTIFIER", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atIDENTIFIER 5-6 a\x0atIDENTIFIER 7-8 b\x0atPIPE 8-9 |\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"m { |a, | }", shape: b"(block call=(send method_name=\x22m\x22 args=[]) args=(args args=[(arg name=\x22a\x22)]))", full: b"(block call=(send method_name=\x22m\x22 args=[] selector=0-1 expression=0-1) args=(args args=[(arg name=\x22a\x22 expression=5-6)] expression=4-9 begin=4-5 end=8-9) begin=2-3 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 m\x0atLCURLY 2-3 {\x0atPIPE 4-5 |\x0atIDENTIFIER 5-6 a\x0atCOMMA 6-7 ,\x0atPIPE 8-9 |\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"->(a, ) {}", shape: b"none", full: b"none", diag: b"\x0aE 6-7 unexpected tRPAREN", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-4 a\x0atCOMMA 4-5 ,\x0atRPAREN 6-7 )\x0atLAMBEG 8-9 {\x0atRCURLY 9-10 }\x0aEOF 10-10 " },
    Rec { t: b"def m(a, ) end", shape: b"none", full: b"none", diag: b"\x0aE 9-10 unexpected tRPAREN", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-5 m\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-7 a\x0atCOMMA 7-8 ,\x0atRPAREN 9-10 )\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"yield a do end", shape: b"none", full: b"none", diag: b"\x0aE 0-5 block given to yield", toks: b"\x0akYIELD 0-5 yield\x0atIDENTIFIER 6-7 a\x0akDO_BLOCK 8-10 do\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"a.b.c = 1, = 2", shape: b"(int value=\x222\x22)", full: b"(int value=\x222\x22 expression=13-14)", diag: b"\x0aE 11-12 unexpected tEQL", toks: b"\x0atIDENTIFIER 0-1 a\x0atDOT 1-2 .\x0atIDENTIFIER 2-3 b\x0atDOT 3-4 .\x0atIDENTIFIER 4-5 c\x0atEQL 6-7 =\x0atINTEGER 8-9 1\x0atCOMMA 9-10 ,\x0atEQL 11-12 =\x0atINTEGER 13-14 2\x0aEOF 14-14 " },
];
