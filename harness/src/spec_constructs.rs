// generated by tools/gen_spec.py from spec/ - do not edit
use crate::tmpl::Rec;
pub static LITERAL: &[Rec] = &[
    Rec { t: b"nil", shape: b"(nil)", full: b"(nil expression=0-3)", diag: b"", toks: b"\x0akNIL 0-3 nil\x0aEOF 3-3 " },
    Rec { t: b"true", shape: b"(true)", full: b"(true expression=0-4)", diag: b"", toks: b"\x0akTRUE 0-4 true\x0aEOF 4-4 " },
    Rec { t: b"false", shape: b"(false)", full: b"(false expression=0-5)", diag: b"", toks: b"\x0akFALSE 0-5 false\x0aEOF 5-5 " },
    Rec { t: b"self", shape: b"(self_)", full: b"(self_ expression=0-4)", diag: b"", toks: b"\x0akSELF 0-4 self\x0aEOF 4-4 " },
    Rec { t: b"__FILE__", shape: b"(file)", full: b"(file expression=0-8)", diag: b"", toks: b"\x0ak__FILE__ 0-8 __FILE__\x0aEOF 8-8 " },
    Rec { t: b"__LINE__", shape: b"(line)", full: b"(line expression=0-8)", diag: b"", toks: b"\x0ak__LINE__ 0-8 __LINE__\x0aEOF 8-8 " },
    Rec { t: b"__ENCODING__", shape: b"(encoding)", full: b"(encoding expression=0-12)", diag: b"", toks: b"\x0ak__ENCODING__ 0-12 __ENCODING__\x0aEOF 12-12 " },
    Rec { t: b"\xffD\xffd", shape: b"(int value=\x22\xff\x00\xff\x01\x22)", full: b"(int value=\x22\xff\x00\xff\x01\x22 expression=0-2)", diag: b"", toks: b"\x0atINTEGER 0-2 \xff\x00\xff\x01\x0aEOF 2-2 " },
    Rec { t: b"\xffD_\xffd\xffd\xffd", shape: b"(int value=\x22\xff\x00_\xff\x01\xff\x02\xff\x03\x22)", full: b"(int value=\x22\xff\x00_\xff\x01\xff\x02\xff\x03\x22 expression=0-5)", diag: b"", toks: b"\x0atINTEGER 0-5 \xff\x00_\xff\x01\xff\x02\xff\x03\x0aEOF 5-5 " },
    Rec { t: b"-\xffD\xffd", shape: b"(int value=\x22-\xff\x00\xff\x01\x22)", full: b"(int value=\x22-\xff\x00\xff\x01\x22 operator=0-1 expression=0-3)", diag: b"", toks: b"\x0atUMINUS_NUM 0-1 -\x0atINTEGER 1-3 \xff\x00\xff\x01\x0aEOF 3-3 " },
    Rec { t: b"+\xffD\xffd", shape: b"(int value=\x22+\xff\x00\xff\x01\x22)", full: b"(int value=\x22+\xff\x00\xff\x01\x22 expression=0-3)", diag: b"", toks: b"\x0atINTEGER 0-3 +\xff\x00\xff\x01\x0aEOF 3-3 " },
    Rec { t: b"\xffD.\xffd\xffd", shape: b"(float value=\x22\xff\x00.\xff\x01\xff\x02\x22)", full: b"(float value=\x22\xff\x00.\xff\x01\xff\x02\x22 expression=0-4)", diag: b"", toks: b"\x0atFLOAT 0-4 \xff\x00.\xff\x01\xff\x02\x0aEOF 4-4 " },
    Rec { t: b"-\xffD.\xffd", shape: b"(float value=\x22-\xff\x00.\xff\x01\x22)", full: b"(float value=\x22-\xff\x00.\xff\x01\x22 operator=0-1 expression=0-4)", diag: b"", toks: b"\x0atUMINUS_NUM 0-1 -\x0atFLOAT 1-4 \xff\x00.\xff\x01\x0aEOF 4-4 " },
    Rec { t: b"+\xffD.\xffde5", shape: b"(float value=\x22+\xff\x00.\xff\x01e5\x22)", full: b"(float value=\x22+\xff\x00.\xff\x01e5\x22 expression=0-6)", diag: b"", toks: b"\x0atFLOAT 0-6 +\xff\x00.\xff\x01e5\x0aEOF 6-6 " },
    Rec { t: b"\xffDe1\xffd", shape: b"(float value=\x22\xff\x00e1\xff\x01\x22)", full: b"(float value=\x22\xff\x00e1\xff\x01\x22 expression=0-4)", diag: b"", toks: b"\x0atFLOAT 0-4 \xff\x00e1\xff\x01\x0aEOF 4-4 " },
    Rec { t: b"\xffDe-\xffd", shape: b"(float value=\x22\xff\x00e-\xff\x01\x22)", full: b"(float value=\x22\xff\x00e-\xff\x01\x22 expression=0-4)", diag: b"", toks: b"\x0atFLOAT 0-4 \xff\x00e-\xff\x01\x0aEOF 4-4 " },
    Rec { t: b"\xffDr", shape: b"(rational value=\x22\xff\x00r\x22)", full: b"(rational value=\x22\xff\x00r\x22 expression=0-2)", diag: b"", toks: b"\x0atRATIONAL 0-2 \xff\x00r\x0aEOF 2-2 " },
    Rec { t: b"\xffD.\xffdr", shape: b"(rational value=\x22\xff\x00.\xff\x01r\x22)", full: b"(rational value=\x22\xff\x00.\xff\x01r\x22 expression=0-4)", diag: b"", toks: b"\x0atRATIONAL 0-4 \xff\x00.\xff\x01r\x0aEOF 4-4 " },
    Rec { t: b"\xffDi", shape: b"(complex value=\x22\xff\x00i\x22)", full: b"(complex value=\x22\xff\x00i\x22 expression=0-2)", diag: b"", toks: b"\x0atIMAGINARY 0-2 \xff\x00i\x0aEOF 2-2 " },
    Rec { t: b"\xffD.\xffdi", shape: b"(complex value=\x22\xff\x00.\xff\x01i\x22)", full: b"(complex value=\x22\xff\x00.\xff\x01i\x22 expression=0-4)", diag: b"", toks: b"\x0atIMAGINARY 0-4 \xff\x00.\xff\x01i\x0aEOF 4-4 " },
    Rec { t: b"\xffDri", shape: b"(complex value=\x22\xff\x00ri\x22)", full: b"(complex value=\x22\xff\x00ri\x22 expression=0-3)", diag: b"", toks: b"\x0atIMAGINARY 0-3 \xff\x00ri\x0aEOF 3-3 " },
    Rec { t: b"-\xffDi", shape: b"(complex value=\x22-\xff\x00i\x22)", full: b"(complex value=\x22-\xff\x00i\x22 operator=0-1 expression=0-3)", diag: b"", toks: b"\x0atUMINUS_NUM 0-1 -\x0atIMAGINARY 1-3 \xff\x00i\x0aEOF 3-3 " },
    Rec { t: b"-\xffDr", shape: b"(rational value=\x22-\xff\x00r\x22)", full: b"(rational value=\x22-\xff\x00r\x22 operator=0-1 expression=0-3)", diag: b"", toks: b"\x0atUMINUS_NUM 0-1 -\x0atRATIONAL 1-3 \xff\x00r\x0aEOF 3-3 " },
    Rec { t: b"0x\xffx\xffx", shape: b"(int value=\x220x\xff\x00\xff\x01\x22)", full: b"(int value=\x220x\xff\x00\xff\x01\x22 expression=0-4)", diag: b"", toks: b"\x0atINTEGER 0-4 0x\xff\x00\xff\x01\x0aEOF 4-4 " },
    Rec { t: b"0b1\xffo", shape: b"(int value=\x220b1\xff\x00\x22)", full: b"(int value=\x220b1\xff\x00\x22 expression=0-4)", diag: b"", toks: b"\x0atINTEGER 0-4 0b1\xff\x00\x0aEOF 4-4 " },
    Rec { t: b"0o7", shape: b"(int value=\x220o7\x22)", full: b"(int value=\x220o7\x22 expression=0-3)", diag: b"", toks: b"\x0atINTEGER 0-3 0o7\x0aEOF 3-3 " },
    Rec { t: b"017", shape: b"(int value=\x22017\x22)", full: b"(int value=\x22017\x22 expression=0-3)", diag: b"", toks: b"\x0atINTEGER 0-3 017\x0aEOF 3-3 " },
    Rec { t: b"0d1\xffd", shape: b"(int value=\x220d1\xff\x00\x22)", full: b"(int value=\x220d1\xff\x00\x22 expression=0-4)", diag: b"", toks: b"\x0atINTEGER 0-4 0d1\xff\x00\x0aEOF 4-4 " },
    Rec { t: b"0", shape: b"(int value=\x220\x22)", full: b"(int value=\x220\x22 expression=0-1)", diag: b"", toks: b"\x0atINTEGER 0-1 0\x0aEOF 1-1 " },
    Rec { t: b"0r", shape: b"(rational value=\x220r\x22)", full: b"(rational value=\x220r\x22 expression=0-2)", diag: b"", toks: b"\x0atRATIONAL 0-2 0r\x0aEOF 2-2 " },
    Rec { t: b"0.0", shape: b"(float value=\x220.0\x22)", full: b"(float value=\x220.0\x22 expression=0-3)", diag: b"", toks: b"\x0atFLOAT 0-3 0.0\x0aEOF 3-3 " },
    Rec { t: b"1..\xffD", shape: b"(irange left=(int value=\x221\x22) right=(int value=\x22\xff\x00\x22))", full: b"(irange left=(int value=\x221\x22 expression=0-1) right=(int value=\x22\xff\x00\x22 expression=3-4) operator=1-3 expression=0-4)", diag: b"", toks: b"\x0atINTEGER 0-1 1\x0atDOT2 1-3 ..\x0atINTEGER 3-4 \xff\x00\x0aEOF 4-4 " },
    Rec { t: b"1...\xffD", shape: b"(erange left=(int value=\x221\x22) right=(int value=\x22\xff\x00\x22))", full: b"(erange left=(int value=\x221\x22 expression=0-1) right=(int value=\x22\xff\x00\x22 expression=4-5) operator=1-4 expression=0-5)", diag: b"", toks: b"\x0atINTEGER 0-1 1\x0atDOT3 1-4 ...\x0atINTEGER 4-5 \xff\x00\x0aEOF 5-5 " },
    Rec { t: b"1..", shape: b"(irange left=(int value=\x221\x22))", full: b"(irange left=(int value=\x221\x22 expression=0-1) operator=1-3 expression=0-3)", diag: b"", toks: b"\x0atINTEGER 0-1 1\x0atDOT2 1-3 ..\x0aEOF 3-3 " },
    Rec { t: b"1...", shape: b"(erange left=(int value=\x221\x22))", full: b"(erange left=(int value=\x221\x22 expression=0-1) operator=1-4 expression=0-4)", diag: b"\x0aW 1-4 ... at EOL, should be parenthesized?", toks: b"\x0atINTEGER 0-1 1\x0atDOT3 1-4 ...\x0aEOF 4-4 " },
    Rec { t: b"..\xffD", shape: b"(irange right=(int value=\x22\xff\x00\x22))", full: b"(irange right=(int value=\x22\xff\x00\x22 expression=2-3) operator=0-2 expression=0-3)", diag: b"", toks: b"\x0atBDOT2 0-2 ..\x0atINTEGER 2-3 \xff\x00\x0aEOF 3-3 " },
    Rec { t: b"...\xffD", shape: b"(erange right=(int value=\x22\xff\x00\x22))", full: b"(erange right=(int value=\x22\xff\x00\x22 expression=3-4) operator=0-3 expression=0-4)", diag: b"", toks: b"\x0atBDOT3 0-3 ...\x0atINTEGER 3-4 \xff\x00\x0aEOF 4-4 " },
    Rec { t: b"(1..)", shape: b"(begin statements=[(irange left=(int value=\x221\x22))])", full: b"(begin statements=[(irange left=(int value=\x221\x22 expression=1-2) operator=2-4 expression=1-4)] begin=0-1 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atINTEGER 1-2 1\x0atDOT2 2-4 ..\x0atRPAREN 4-5 )\x0aEOF 5-5 " },
    Rec { t: b"(..\xffd)", shape: b"(begin statements=[(irange right=(int value=\x22\xff\x00\x22))])", full: b"(begin statements=[(irange right=(int value=\x22\xff\x00\x22 expression=3-4) operator=1-3 expression=1-4)] begin=0-1 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atBDOT2 1-3 ..\x0atINTEGER 3-4 \xff\x00\x0atRPAREN 4-5 )\x0aEOF 5-5 " },
    Rec { t: b"nil..nil", shape: b"(irange left=(nil) right=(nil))", full: b"(irange left=(nil expression=0-3) right=(nil expression=5-8) operator=3-5 expression=0-8)", diag: b"", toks: b"\x0akNIL 0-3 nil\x0atDOT2 3-5 ..\x0akNIL 5-8 nil\x0aEOF 8-8 " },
    Rec { t: b"'\xfft\xfft\xfft'", shape: b"(str value=\x22\xff\x00\xff\x01\xff\x02\x22)", full: b"(str value=\x22\xff\x00\xff\x01\xff\x02\x22 begin=0-1 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 '\x0atSTRING_CONTENT 1-4 \xff\x00\xff\x01\xff\x02\x0atSTRING_END 4-5 '\x0aEOF 5-5 " },
    Rec { t: b"''", shape: b"(str value=\x22\x22)", full: b"(str value=\x22\x22 begin=0-1 end=1-2 expression=0-2)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 '\x0atSTRING_END 1-2 '\x0aEOF 2-2 " },
    Rec { t: b"\x22\x22", shape: b"(str value=\x22\x22)", full: b"(str value=\x22\x22 begin=0-1 end=1-2 expression=0-2)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_END 1-2 \x22\x0aEOF 2-2 " },
    Rec { t: b"\x22\xfft\xfft\x22", shape: b"(str value=\x22\xff\x00\xff\x01\x22)", full: b"(str value=\x22\xff\x00\xff\x01\x22 begin=0-1 end=3-4 expression=0-4)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_CONTENT 1-3 \xff\x00\xff\x01\x0atSTRING_END 3-4 \x22\x0aEOF 4-4 " },
    Rec { t: b"\x22\xfft#{v\xffa}\xfft\x22", shape: b"(dstr parts=[(str value=\x22\xff\x00\x22) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[])]) (str value=\x22\xff\x02\x22)])", full: b"(dstr parts=[(str value=\x22\xff\x00\x22 expression=1-2) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[] selector=4-6 expression=4-6)] begin=2-4 end=6-7 expression=2-7) (str value=\x22\xff\x02\x22 expression=7-8)] begin=0-1 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_CONTENT 1-2 \xff\x00\x0atSTRING_DBEG 2-4 #{\x0atIDENTIFIER 4-6 v\xff\x01\x0atSTRING_DEND 6-7 }\x0atSTRING_CONTENT 7-8 \xff\x02\x0atSTRING_END 8-9 \x22\x0aEOF 9-9 " },
    Rec { t: b"\x22#{}\x22", shape: b"(dstr parts=[(begin statements=[])])", full: b"(dstr parts=[(begin statements=[] begin=1-3 end=3-4 expression=1-4)] begin=0-1 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_DBEG 1-3 #{\x0atSTRING_DEND 3-4 }\x0atSTRING_END 4-5 \x22\x0aEOF 5-5 " },
    Rec { t: b"\x22#{\xffd}#{v\xffa}\x22", shape: b"(dstr parts=[(begin statements=[(int value=\x22\xff\x00\x22)]) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[])])])", full: b"(dstr parts=[(begin statements=[(int value=\x22\xff\x00\x22 expression=3-4)] begin=1-3 end=4-5 expression=1-5) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[] selector=7-9 expression=7-9)] begin=5-7 end=9-10 expression=5-10)] begin=0-1 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_DBEG 1-3 #{\x0atINTEGER 3-4 \xff\x00\x0atSTRING_DEND 4-5 }\x0atSTRING_DBEG 5-7 #{\x0atIDENTIFIER 7-9 v\xff\x01\x0atSTRING_DEND 9-10 }\x0atSTRING_END 10-11 \x22\x0aEOF 11-11 " },
    Rec { t: b"\x22#@v\xffa\x22", shape: b"(dstr parts=[(ivar name=\x22@v\xff\x00\x22)])", full: b"(dstr parts=[(ivar name=\x22@v\xff\x00\x22 expression=2-5)] begin=0-1 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_DVAR 1-2 #\x0atIVAR 2-5 @v\xff\x00\x0atSTRING_END 5-6 \x22\x0aEOF 6-6 " },
    Rec { t: b"\x22\xfft#@v\xffa.#$v\xfe\x01#@@v\xfe\x01\x22", shape: b"(dstr parts=[(str value=\x22\xff\x00\x22) (ivar name=\x22@v\xff\x01\x22) (str value=\x22.\x22) (gvar name=\x22$v\xff\x01\x22) (cvar name=\x22@@v\xff\x01\x22)])", full: b"(dstr parts=[(str value=\x22\xff\x00\x22 expression=1-2) (ivar name=\x22@v\xff\x01\x22 expression=3-6) (str value=\x22.\x22 expression=6-7) (gvar name=\x22$v\xff\x01\x22 expression=8-11) (cvar name=\x22@@v\xff\x01\x22 expression=12-16)] begin=0-1 end=16-17 expression=0-17)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_CONTENT 1-2 \xff\x00\x0atSTRING_DVAR 2-3 #\x0atIVAR 3-6 @v\xff\x01\x0atSTRING_CONTENT 6-7 .\x0atSTRING_DVAR 7-8 #\x0atGVAR 8-11 $v\xff\x01\x0atSTRING_DVAR 11-12 #\x0atCVAR 12-16 @@v\xff\x01\x0atSTRING_END 16-17 \x22\x0aEOF 17-17 " },
    Rec { t: b"\x22#$1\x22", shape: b"(dstr parts=[(nth_ref name=\x221\x22)])", full: b"(dstr parts=[(nth_ref name=\x221\x22 expression=2-4)] begin=0-1 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_DVAR 1-2 #\x0atNTH_REF 2-4 $1\x0atSTRING_END 4-5 \x22\x0aEOF 5-5 " },
    Rec { t: b"\x22#$&\x22", shape: b"(dstr parts=[(back_ref name=\x22$&\x22)])", full: b"(dstr parts=[(back_ref name=\x22$&\x22 expression=2-4)] begin=0-1 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_DVAR 1-2 #\x0atBACK_REF 2-4 $&\x0atSTRING_END 4-5 \x22\x0aEOF 5-5 " },
    Rec { t: b"\x22\xfft\x22 \x22\xfft\x22", shape: b"(dstr parts=[(str value=\x22\xff\x00\x22) (str value=\x22\xff\x01\x22)])", full: b"(dstr parts=[(str value=\x22\xff\x00\x22 begin=0-1 end=2-3 expression=0-3) (str value=\x22\xff\x01\x22 begin=4-5 end=6-7 expression=4-7)] expression=0-7)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_CONTENT 1-2 \xff\x00\x0atSTRING_END 2-3 \x22\x0atSTRING_BEG 4-5 \x22\x0atSTRING_CONTENT 5-6 \xff\x01\x0atSTRING_END 6-7 \x22\x0aEOF 7-7 " },
    Rec { t: b"'\xfft' \x22\xfft#{1}\x22", shape: b"(dstr parts=[(str value=\x22\xff\x00\x22) (dstr parts=[(str value=\x22\xff\x01\x22) (begin statements=[(int value=\x221\x22)])])])", full: b"(dstr parts=[(str value=\x22\xff\x00\x22 begin=0-1 end=2-3 expression=0-3) (dstr parts=[(str value=\x22\xff\x01\x22 expression=5-6) (begin statements=[(int value=\x221\x22 expression=8-9)] begin=6-8 end=9-10 expression=6-10)] begin=4-5 end=10-11 expression=4-11)] expression=0-11)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 '\x0atSTRING_CONTENT 1-2 \xff\x00\x0atSTRING_END 2-3 '\x0atSTRING_BEG 4-5 \x22\x0atSTRING_CONTENT 5-6 \xff\x01\x0atSTRING_DBEG 6-8 #{\x0atINTEGER 8-9 1\x0atSTRING_DEND 9-10 }\x0atSTRING_END 10-11 \x22\x0aEOF 11-11 " },
    Rec { t: b"\x22\xfft#{v\xffa; x\xffa}\x22", shape: b"(dstr parts=[(str value=\x22\xff\x00\x22) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[]) (send method_name=\x22x\xff\x02\x22 args=[])])])", full: b"(dstr parts=[(str value=\x22\xff\x00\x22 expression=1-2) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[] selector=4-6 expression=4-6) (send method_name=\x22x\xff\x02\x22 args=[] selector=8-10 expression=8-10)] begin=2-4 end=10-11 expression=2-11)] begin=0-1 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_CONTENT 1-2 \xff\x00\x0atSTRING_DBEG 2-4 #{\x0atIDENTIFIER 4-6 v\xff\x01\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 x\xff\x02\x0atSTRING_DEND 10-11 }\x0atSTRING_END 11-12 \x22\x0aEOF 12-12 " },
    Rec { t: b"\x22a\x0a\xfft\x22", shape: b"(str value=\x22a\x0a\xff\x00\x22)", full: b"(str value=\x22a\x0a\xff\x00\x22 begin=0-1 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_CONTENT 1-4 a\x0a\xff\x00\x0atSTRING_END 4-5 \x22\x0aEOF 5-5 " },
    Rec { t: b"\x22a\x0a#{1}\x0ab\x22", shape: b"(dstr parts=[(str value=\x22a\x0a\x22) (begin statements=[(int value=\x221\x22)]) (str value=\x22\x0ab\x22)])", full: b"(dstr parts=[(str value=\x22a\x0a\x22 expression=1-3) (begin statements=[(int value=\x221\x22 expression=5-6)] begin=3-5 end=6-7 expression=3-7) (str value=\x22\x0ab\x22 expression=7-9)] begin=0-1 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_CONTENT 1-3 a\x0a\x0atSTRING_DBEG 3-5 #{\x0atINTEGER 5-6 1\x0atSTRING_DEND 6-7 }\x0atSTRING_CONTENT 7-9 \x0ab\x0atSTRING_END 9-10 \x22\x0aEOF 10-10 " },
    Rec { t: b"'a\x0a\xfft'", shape: b"(str value=\x22a\x0a\xff\x00\x22)", full: b"(str value=\x22a\x0a\xff\x00\x22 begin=0-1 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 '\x0atSTRING_CONTENT 1-4 a\x0a\xff\x00\x0atSTRING_END 4-5 '\x0aEOF 5-5 " },
    Rec { t: b":v\xffa\xffb", shape: b"(sym name=\x22v\xff\x00\xff\x01\x22)", full: b"(sym name=\x22v\xff\x00\xff\x01\x22 begin=0-1 expression=0-4)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atIDENTIFIER 1-4 v\xff\x00\xff\x01\x0aEOF 4-4 " },
    Rec { t: b":V\xffb", shape: b"(sym name=\x22V\xff\x00\x22)", full: b"(sym name=\x22V\xff\x00\x22 begin=0-1 expression=0-3)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atCONSTANT 1-3 V\xff\x00\x0aEOF 3-3 " },
    Rec { t: b":v\xffa?", shape: b"(sym name=\x22v\xff\x00?\x22)", full: b"(sym name=\x22v\xff\x00?\x22 begin=0-1 expression=0-4)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atFID 1-4 v\xff\x00?\x0aEOF 4-4 " },
    Rec { t: b":v\xffa!", shape: b"(sym name=\x22v\xff\x00!\x22)", full: b"(sym name=\x22v\xff\x00!\x22 begin=0-1 expression=0-4)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atFID 1-4 v\xff\x00!\x0aEOF 4-4 " },
    Rec { t: b":v\xffa=", shape: b"(sym name=\x22v\xff\x00=\x22)", full: b"(sym name=\x22v\xff\x00=\x22 begin=0-1 expression=0-4)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atIDENTIFIER 1-4 v\xff\x00=\x0aEOF 4-4 " },
    Rec { t: b":\x22\xfft\xfft\xfft\x22", shape: b"(sym name=\x22\xff\x00\xff\x01\xff\x02\x22)", full: b"(sym name=\x22\xff\x00\xff\x01\xff\x02\x22 begin=0-2 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atSYMBEG 0-2 :\x22\x0atSTRING_CONTENT 2-5 \xff\x00\xff\x01\xff\x02\x0atSTRING_END 5-6 \x22\x0aEOF 6-6 " },
    Rec { t: b":'\xfft\xfft\xfft'", shape: b"(sym name=\x22\xff\x00\xff\x01\xff\x02\x22)", full: b"(sym name=\x22\xff\x00\xff\x01\xff\x02\x22 begin=0-2 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atSYMBEG 0-2 :'\x0atSTRING_CONTENT 2-5 \xff\x00\xff\x01\xff\x02\x0atSTRING_END 5-6 '\x0aEOF 6-6 " },
    Rec { t: b":\x22\xfft#{v\xffa}\x22", shape: b"(dsym parts=[(str value=\x22\xff\x00\x22) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[])])])", full: b"(dsym parts=[(str value=\x22\xff\x00\x22 expression=2-3) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[] selector=5-7 expression=5-7)] begin=3-5 end=7-8 expression=3-8)] begin=0-2 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atSYMBEG 0-2 :\x22\x0atSTRING_CONTENT 2-3 \xff\x00\x0atSTRING_DBEG 3-5 #{\x0atIDENTIFIER 5-7 v\xff\x01\x0atSTRING_DEND 7-8 }\x0atSTRING_END 8-9 \x22\x0aEOF 9-9 " },
    Rec { t: b":\x22#{v\xffa}\x22", shape: b"(dsym parts=[(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])])])", full: b"(dsym parts=[(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=4-6 expression=4-6)] begin=2-4 end=6-7 expression=2-7)] begin=0-2 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atSYMBEG 0-2 :\x22\x0atSTRING_DBEG 2-4 #{\x0atIDENTIFIER 4-6 v\xff\x00\x0atSTRING_DEND 6-7 }\x0atSTRING_END 7-8 \x22\x0aEOF 8-8 " },
    Rec { t: b":+", shape: b"(sym name=\x22+\x22)", full: b"(sym name=\x22+\x22 begin=0-1 expression=0-2)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atPLUS 1-2 +\x0aEOF 2-2 " },
    Rec { t: b":[]", shape: b"(sym name=\x22[]\x22)", full: b"(sym name=\x22[]\x22 begin=0-1 expression=0-3)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atAREF 1-3 []\x0aEOF 3-3 " },
    Rec { t: b":[]=", shape: b"(sym name=\x22[]=\x22)", full: b"(sym name=\x22[]=\x22 begin=0-1 expression=0-4)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atASET 1-4 []=\x0aEOF 4-4 " },
    Rec { t: b":!", shape: b"(sym name=\x22!\x22)", full: b"(sym name=\x22!\x22 begin=0-1 expression=0-2)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atBANG 1-2 !\x0aEOF 2-2 " },
    Rec { t: b":!=", shape: b"(sym name=\x22!=\x22)", full: b"(sym name=\x22!=\x22 begin=0-1 expression=0-3)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atNEQ 1-3 !=\x0aEOF 3-3 " },
    Rec { t: b":-@", shape: b"(sym name=\x22-@\x22)", full: b"(sym name=\x22-@\x22 begin=0-1 expression=0-3)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atUMINUS 1-3 -@\x0aEOF 3-3 " },
    Rec { t: b":+@", shape: b"(sym name=\x22+@\x22)", full: b"(sym name=\x22+@\x22 begin=0-1 expression=0-3)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atUPLUS 1-3 +@\x0aEOF 3-3 " },
    Rec { t: b":<=>", shape: b"(sym name=\x22<=>\x22)", full: b"(sym name=\x22<=>\x22 begin=0-1 expression=0-4)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atCMP 1-4 <=>\x0aEOF 4-4 " },
    Rec { t: b":===", shape: b"(sym name=\x22===\x22)", full: b"(sym name=\x22===\x22 begin=0-1 expression=0-4)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atEQQ 1-4 ===\x0aEOF 4-4 " },
    Rec { t: b":**", shape: b"(sym name=\x22**\x22)", full: b"(sym name=\x22**\x22 begin=0-1 expression=0-3)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atPOW 1-3 **\x0aEOF 3-3 " },
    Rec { t: b":@v\xffa", shape: b"(sym name=\x22@v\xff\x00\x22)", full: b"(sym name=\x22@v\xff\x00\x22 begin=0-1 expression=0-4)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atIVAR 1-4 @v\xff\x00\x0aEOF 4-4 " },
    Rec { t: b":@@v\xffa", shape: b"(sym name=\x22@@v\xff\x00\x22)", full: b"(sym name=\x22@@v\xff\x00\x22 begin=0-1 expression=0-5)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atCVAR 1-5 @@v\xff\x00\x0aEOF 5-5 " },
    Rec { t: b":$v\xffa", shape: b"(sym name=\x22$v\xff\x00\x22)", full: b"(sym name=\x22$v\xff\x00\x22 begin=0-1 expression=0-4)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atGVAR 1-4 $v\xff\x00\x0aEOF 4-4 " },
    Rec { t: b":$1", shape: b"(sym name=\x22$1\x22)", full: b"(sym name=\x22$1\x22 begin=0-1 expression=0-3)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atGVAR 1-3 $1\x0aEOF 3-3 " },
    Rec { t: b":nil", shape: b"(sym name=\x22nil\x22)", full: b"(sym name=\x22nil\x22 begin=0-1 expression=0-4)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0akNIL 1-4 nil\x0aEOF 4-4 " },
    Rec { t: b":class", shape: b"(sym name=\x22class\x22)", full: b"(sym name=\x22class\x22 begin=0-1 expression=0-6)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0akCLASS 1-6 class\x0aEOF 6-6 " },
    Rec { t: b":if", shape: b"(sym name=\x22if\x22)", full: b"(sym name=\x22if\x22 begin=0-1 expression=0-3)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0akIF 1-3 if\x0aEOF 3-3 " },
    Rec { t: b"?\xfft", shape: b"(str value=\x22\xff\x00\x22)", full: b"(str value=\x22\xff\x00\x22 begin=0-1 expression=0-2)", diag: b"", toks: b"\x0atCHAR 0-2 \xff\x00\x0aEOF 2-2 " },
    Rec { t: b"?a", shape: b"(str value=\x22a\x22)", full: b"(str value=\x22a\x22 begin=0-1 expression=0-2)", diag: b"", toks: b"\x0atCHAR 0-2 a\x0aEOF 2-2 " },
    Rec { t: b"`\xfft\xfft\xfft`", shape: b"(xstr parts=[(str value=\x22\xff\x00\xff\x01\xff\x02\x22)])", full: b"(xstr parts=[(str value=\x22\xff\x00\xff\x01\xff\x02\x22 expression=1-4)] begin=0-1 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atXSTRING_BEG 0-1 `\x0atSTRING_CONTENT 1-4 \xff\x00\xff\x01\xff\x02\x0atSTRING_END 4-5 `\x0aEOF 5-5 " },
    Rec { t: b"`\xfft#{v\xffa}`", shape: b"(xstr parts=[(str value=\x22\xff\x00\x22) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[])])])", full: b"(xstr parts=[(str value=\x22\xff\x00\x22 expression=1-2) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[] selector=4-6 expression=4-6)] begin=2-4 end=6-7 expression=2-7)] begin=0-1 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atXSTRING_BEG 0-1 `\x0atSTRING_CONTENT 1-2 \xff\x00\x0atSTRING_DBEG 2-4 #{\x0atIDENTIFIER 4-6 v\xff\x01\x0atSTRING_DEND 6-7 }\x0atSTRING_END 7-8 `\x0aEOF 8-8 " },
    Rec { t: b"``", shape: b"(xstr parts=[])", full: b"(xstr parts=[] begin=0-1 end=1-2 expression=0-2)", diag: b"", toks: b"\x0atXSTRING_BEG 0-1 `\x0atSTRING_END 1-2 `\x0aEOF 2-2 " },
    Rec { t: b"/\xfft\xfft\xfft/", shape: b"(regexp parts=[(str value=\x22\xff\x00\xff\x01\xff\x02\x22)])", full: b"(regexp parts=[(str value=\x22\xff\x00\xff\x01\xff\x02\x22 expression=1-4)] begin=0-1 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-4 \xff\x00\xff\x01\xff\x02\x0atREGEXP_END 4-5 /\x0aEOF 5-5 " },
    Rec { t: b"/\xfft#{v\xffa}\xfft/mix", shape: b"(regexp parts=[(str value=\x22\xff\x00\x22) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[])]) (str value=\x22\xff\x02\x22)] options=(reg_opt options=\x22imx\x22))", full: b"(regexp parts=[(str value=\x22\xff\x00\x22 expression=1-2) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[] selector=4-6 expression=4-6)] begin=2-4 end=6-7 expression=2-7) (str value=\x22\xff\x02\x22 expression=7-8)] options=(reg_opt options=\x22imx\x22 expression=9-12) begin=0-1 end=8-9 expression=0-12)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-2 \xff\x00\x0atSTRING_DBEG 2-4 #{\x0atIDENTIFIER 4-6 v\xff\x01\x0atSTRING_DEND 6-7 }\x0atSTRING_CONTENT 7-8 \xff\x02\x0atREGEXP_END 8-12 /mix\x0aEOF 12-12 " },
    Rec { t: b"/\xfft/i", shape: b"(regexp parts=[(str value=\x22\xff\x00\x22)] options=(reg_opt options=\x22i\x22))", full: b"(regexp parts=[(str value=\x22\xff\x00\x22 expression=1-2)] options=(reg_opt options=\x22i\x22 expression=3-4) begin=0-1 end=2-3 expression=0-4)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-2 \xff\x00\x0atREGEXP_END 2-4 /i\x0aEOF 4-4 " },
    Rec { t: b"//", shape: b"(regexp parts=[])", full: b"(regexp parts=[] begin=0-1 end=1-2 expression=0-2)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atREGEXP_END 1-2 /\x0aEOF 2-2 " },
    Rec { t: b"/\xfft/o", shape: b"(regexp parts=[(str value=\x22\xff\x00\x22)] options=(reg_opt options=\x22o\x22))", full: b"(regexp parts=[(str value=\x22\xff\x00\x22 expression=1-2)] options=(reg_opt options=\x22o\x22 expression=3-4) begin=0-1 end=2-3 expression=0-4)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-2 \xff\x00\x0atREGEXP_END 2-4 /o\x0aEOF 4-4 " },
    Rec { t: b"/#@v\xffa/", shape: b"(regexp parts=[(ivar name=\x22@v\xff\x00\x22)])", full: b"(regexp parts=[(ivar name=\x22@v\xff\x00\x22 expression=2-5)] begin=0-1 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_DVAR 1-2 #\x0atIVAR 2-5 @v\xff\x00\x0atREGEXP_END 5-6 /\x0aEOF 6-6 " },
    Rec { t: b"[]", shape: b"(array elements=[])", full: b"(array elements=[] begin=0-1 end=1-2 expression=0-2)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atRBRACK 1-2 ]\x0aEOF 2-2 " },
    Rec { t: b"[\xffd]", shape: b"(array elements=[(int value=\x22\xff\x00\x22)])", full: b"(array elements=[(int value=\x22\xff\x00\x22 expression=1-2)] begin=0-1 end=2-3 expression=0-3)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atINTEGER 1-2 \xff\x00\x0atRBRACK 2-3 ]\x0aEOF 3-3 " },
    Rec { t: b"[\xffd,\xffs\xffd]", shape: b"(array elements=[(int value=\x22\xff\x00\x22) (int value=\x22\xff\x02\x22)])", full: b"(array elements=[(int value=\x22\xff\x00\x22 expression=1-2) (int value=\x22\xff\x02\x22 expression=4-5)] begin=0-1 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atINTEGER 1-2 \xff\x00\x0atCOMMA 2-3 ,\x0atINTEGER 4-5 \xff\x02\x0atRBRACK 5-6 ]\x0aEOF 6-6 " },
    Rec { t: b"[\xffd, v\xffa,]", shape: b"(array elements=[(int value=\x22\xff\x00\x22) (send method_name=\x22v\xff\x01\x22 args=[])])", full: b"(array elements=[(int value=\x22\xff\x00\x22 expression=1-2) (send method_name=\x22v\xff\x01\x22 args=[] selector=4-6 expression=4-6)] begin=0-1 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atINTEGER 1-2 \xff\x00\x0atCOMMA 2-3 ,\x0atIDENTIFIER 4-6 v\xff\x01\x0atCOMMA 6-7 ,\x0atRBRACK 7-8 ]\x0aEOF 8-8 " },
    Rec { t: b"[*v\xffa]", shape: b"(array elements=[(splat value=(send method_name=\x22v\xff\x00\x22 args=[]))])", full: b"(array elements=[(splat value=(send method_name=\x22v\xff\x00\x22 args=[] selector=2-4 expression=2-4) operator=1-2 expression=1-4)] begin=0-1 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atSTAR 1-2 *\x0atIDENTIFIER 2-4 v\xff\x00\x0atRBRACK 4-5 ]\x0aEOF 5-5 " },
    Rec { t: b"[\xffd, *v\xffa]", shape: b"(array elements=[(int value=\x22\xff\x00\x22) (splat value=(send method_name=\x22v\xff\x01\x22 args=[]))])", full: b"(array elements=[(int value=\x22\xff\x00\x22 expression=1-2) (splat value=(send method_name=\x22v\xff\x01\x22 args=[] selector=5-7 expression=5-7) operator=4-5 expression=4-7)] begin=0-1 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atINTEGER 1-2 \xff\x00\x0atCOMMA 2-3 ,\x0atSTAR 4-5 *\x0atIDENTIFIER 5-7 v\xff\x01\x0atRBRACK 7-8 ]\x0aEOF 8-8 " },
    Rec { t: b"[*v\xffa, \xffd]", shape: b"(array elements=[(splat value=(send method_name=\x22v\xff\x00\x22 args=[])) (int value=\x22\xff\x01\x22)])", full: b"(array elements=[(splat value=(send method_name=\x22v\xff\x00\x22 args=[] selector=2-4 expression=2-4) operator=1-2 expression=1-4) (int value=\x22\xff\x01\x22 expression=6-7)] begin=0-1 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atSTAR 1-2 *\x0atIDENTIFIER 2-4 v\xff\x00\x0atCOMMA 4-5 ,\x0atINTEGER 6-7 \xff\x01\x0atRBRACK 7-8 ]\x0aEOF 8-8 " },
    Rec { t: b"[v\xffa => \xffd]", shape: b"(array elements=[(hash pairs=[(pair key=(send method_name=\x22v\xff\x00\x22 args=[]) value=(int value=\x22\xff\x01\x22))])])", full: b"(array elements=[(hash pairs=[(pair key=(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3) value=(int value=\x22\xff\x01\x22 expression=7-8) operator=4-6 expression=1-8)] expression=1-8)] begin=0-1 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atIDENTIFIER 1-3 v\xff\x00\x0atASSOC 4-6 =>\x0atINTEGER 7-8 \xff\x01\x0atRBRACK 8-9 ]\x0aEOF 9-9 " },
    Rec { t: b"[\xffd, v\xffa: x\xffa]", shape: b"(array elements=[(int value=\x22\xff\x00\x22) (hash pairs=[(pair key=(sym name=\x22v\xff\x01\x22) value=(send method_name=\x22x\xff\x02\x22 args=[]))])])", full: b"(array elements=[(int value=\x22\xff\x00\x22 expression=1-2) (hash pairs=[(pair key=(sym name=\x22v\xff\x01\x22 expression=4-6) value=(send method_name=\x22x\xff\x02\x22 args=[] selector=8-10 expression=8-10) operator=6-7 expression=4-10)] expression=4-10)] begin=0-1 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atINTEGER 1-2 \xff\x00\x0atCOMMA 2-3 ,\x0atLABEL 4-7 v\xff\x01\x0atIDENTIFIER 8-10 x\xff\x02\x0atRBRACK 10-11 ]\x0aEOF 11-11 " },
    Rec { t: b"[**v\xffa]", shape: b"(array elements=[(hash pairs=[(kwsplat value=(send method_name=\x22v\xff\x00\x22 args=[]))])])", full: b"(array elements=[(hash pairs=[(kwsplat value=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) operator=1-3 expression=1-5)] expression=1-5)] begin=0-1 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atDSTAR 1-3 **\x0atIDENTIFIER 3-5 v\xff\x00\x0atRBRACK 5-6 ]\x0aEOF 6-6 " },
    Rec { t: b"[\xffd, **v\xffa]", shape: b"(array elements=[(int value=\x22\xff\x00\x22) (hash pairs=[(kwsplat value=(send method_name=\x22v\xff\x01\x22 args=[]))])])", full: b"(array elements=[(int value=\x22\xff\x00\x22 expression=1-2) (hash pairs=[(kwsplat value=(send method_name=\x22v\xff\x01\x22 args=[] selector=6-8 expression=6-8) operator=4-6 expression=4-8)] expression=4-8)] begin=0-1 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atINTEGER 1-2 \xff\x00\x0atCOMMA 2-3 ,\x0atDSTAR 4-6 **\x0atIDENTIFIER 6-8 v\xff\x01\x0atRBRACK 8-9 ]\x0aEOF 9-9 " },
    Rec { t: b"[\x0a\xffd,\x0a\xffd\x0a]", shape: b"(array elements=[(int value=\x22\xff\x00\x22) (int value=\x22\xff\x01\x22)])", full: b"(array elements=[(int value=\x22\xff\x00\x22 expression=2-3) (int value=\x22\xff\x01\x22 expression=5-6)] begin=0-1 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atINTEGER 2-3 \xff\x00\x0atCOMMA 3-4 ,\x0atINTEGER 5-6 \xff\x01\x0atNL 6-7 \x0a\x0atRBRACK 7-8 ]\x0aEOF 8-8 " },
    Rec { t: b"{}", shape: b"(hash pairs=[])", full: b"(hash pairs=[] begin=0-1 end=1-2 expression=0-2)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atRCURLY 1-2 }\x0aEOF 2-2 " },
    Rec { t: b"{ v\xffa => \xffd }", shape: b"(hash pairs=[(pair key=(send method_name=\x22v\xff\x00\x22 args=[]) value=(int value=\x22\xff\x01\x22))])", full: b"(hash pairs=[(pair key=(send method_name=\x22v\xff\x00\x22 args=[] selector=2-4 expression=2-4) value=(int value=\x22\xff\x01\x22 expression=8-9) operator=5-7 expression=2-9)] begin=0-1 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atIDENTIFIER 2-4 v\xff\x00\x0atASSOC 5-7 =>\x0atINTEGER 8-9 \xff\x01\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"{ v\xffa: \xffd }", shape: b"(hash pairs=[(pair key=(sym name=\x22v\xff\x00\x22) value=(int value=\x22\xff\x01\x22))])", full: b"(hash pairs=[(pair key=(sym name=\x22v\xff\x00\x22 expression=2-4) value=(int value=\x22\xff\x01\x22 expression=6-7) operator=4-5 expression=2-7)] begin=0-1 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 2-5 v\xff\x00\x0atINTEGER 6-7 \xff\x01\x0atRCURLY 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"{ \x22\xfft\x22: \xffd }", shape: b"(hash pairs=[(pair key=(sym name=\x22\xff\x00\x22) value=(int value=\x22\xff\x01\x22))])", full: b"(hash pairs=[(pair key=(sym name=\x22\xff\x00\x22 begin=2-3 end=4-5 expression=2-5) value=(int value=\x22\xff\x01\x22 expression=7-8) operator=5-6 expression=2-8)] begin=0-1 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atSTRING_BEG 2-3 \x22\x0atSTRING_CONTENT 3-4 \xff\x00\x0atLABEL_END 4-6 \x22:\x0atINTEGER 7-8 \xff\x01\x0atRCURLY 9-10 }\x0aEOF 10-10 " },
    Rec { t: b"{ \x22\xfft#{v\xffa}\x22: \xffd }", shape: b"(hash pairs=[(pair key=(dsym parts=[(str value=\x22\xff\x00\x22) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[])])]) value=(int value=\x22\xff\x02\x22))])", full: b"(hash pairs=[(pair key=(dsym parts=[(str value=\x22\xff\x00\x22 expression=3-4) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[] selector=6-8 expression=6-8)] begin=4-6 end=8-9 expression=4-9)] begin=2-3 end=9-10 expression=2-10) value=(int value=\x22\xff\x02\x22 expression=12-13) operator=10-11 expression=2-13)] begin=0-1 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atSTRING_BEG 2-3 \x22\x0atSTRING_CONTENT 3-4 \xff\x00\x0atSTRING_DBEG 4-6 #{\x0atIDENTIFIER 6-8 v\xff\x01\x0atSTRING_DEND 8-9 }\x0atLABEL_END 9-11 \x22:\x0atINTEGER 12-13 \xff\x02\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"{ '\xfft': \xffd }", shape: b"(hash pairs=[(pair key=(sym name=\x22\xff\x00\x22) value=(int value=\x22\xff\x01\x22))])", full: b"(hash pairs=[(pair key=(sym name=\x22\xff\x00\x22 begin=2-3 end=4-5 expression=2-5) value=(int value=\x22\xff\x01\x22 expression=7-8) operator=5-6 expression=2-8)] begin=0-1 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atSTRING_BEG 2-3 '\x0atSTRING_CONTENT 3-4 \xff\x00\x0atLABEL_END 4-6 ':\x0atINTEGER 7-8 \xff\x01\x0atRCURLY 9-10 }\x0aEOF 10-10 " },
    Rec { t: b"{ :v\xffa => \xffd, x\xffa: \xffd }", shape: b"(hash pairs=[(pair key=(sym name=\x22v\xff\x00\x22) value=(int value=\x22\xff\x01\x22)) (pair key=(sym name=\x22x\xff\x02\x22) value=(int value=\x22\xff\x03\x22))])", full: b"(hash pairs=[(pair key=(sym name=\x22v\xff\x00\x22 begin=2-3 expression=2-5) value=(int value=\x22\xff\x01\x22 expression=9-10) operator=6-8 expression=2-10) (pair key=(sym name=\x22x\xff\x02\x22 expression=12-14) value=(int value=\x22\xff\x03\x22 expression=16-17) operator=14-15 expression=12-17)] begin=0-1 end=18-19 expression=0-19)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atSYMBEG 2-3 :\x0atIDENTIFIER 3-5 v\xff\x00\x0atASSOC 6-8 =>\x0atINTEGER 9-10 \xff\x01\x0atCOMMA 10-11 ,\x0atLABEL 12-15 x\xff\x02\x0atINTEGER 16-17 \xff\x03\x0atRCURLY 18-19 }\x0aEOF 19-19 " },
    Rec { t: b"{ v\xffa: \xffd, }", shape: b"(hash pairs=[(pair key=(sym name=\x22v\xff\x00\x22) value=(int value=\x22\xff\x01\x22))])", full: b"(hash pairs=[(pair key=(sym name=\x22v\xff\x00\x22 expression=2-4) value=(int value=\x22\xff\x01\x22 expression=6-7) operator=4-5 expression=2-7)] begin=0-1 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 2-5 v\xff\x00\x0atINTEGER 6-7 \xff\x01\x0atCOMMA 7-8 ,\x0atRCURLY 9-10 }\x0aEOF 10-10 " },
    Rec { t: b"{ **v\xffa }", shape: b"(hash pairs=[(kwsplat value=(send method_name=\x22v\xff\x00\x22 args=[]))])", full: b"(hash pairs=[(kwsplat value=(send method_name=\x22v\xff\x00\x22 args=[] selector=4-6 expression=4-6) operator=2-4 expression=2-6)] begin=0-1 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atDSTAR 2-4 **\x0atIDENTIFIER 4-6 v\xff\x00\x0atRCURLY 7-8 }\x0aEOF 8-8 " },
    Rec { t: b"{ v\xffa: \xffd, **x\xffa }", shape: b"(hash pairs=[(pair key=(sym name=\x22v\xff\x00\x22) value=(int value=\x22\xff\x01\x22)) (kwsplat value=(send method_name=\x22x\xff\x02\x22 args=[]))])", full: b"(hash pairs=[(pair key=(sym name=\x22v\xff\x00\x22 expression=2-4) value=(int value=\x22\xff\x01\x22 expression=6-7) operator=4-5 expression=2-7) (kwsplat value=(send method_name=\x22x\xff\x02\x22 args=[] selector=11-13 expression=11-13) operator=9-11 expression=9-13)] begin=0-1 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 2-5 v\xff\x00\x0atINTEGER 6-7 \xff\x01\x0atCOMMA 7-8 ,\x0atDSTAR 9-11 **\x0atIDENTIFIER 11-13 x\xff\x02\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"{ x\xffa: }", shape: b"(hash pairs=[(pair key=(sym name=\x22x\xff\x00\x22) value=(send method_name=\x22x\xff\x00\x22 args=[]))])", full: b"(hash pairs=[(pair key=(sym name=\x22x\xff\x00\x22 expression=2-4) value=(send method_name=\x22x\xff\x00\x22 args=[] selector=2-4 expression=2-4) operator=4-5 expression=2-5)] begin=0-1 end=6-7 expression=0-7)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 2-5 x\xff\x00\x0atRCURLY 6-7 }\x0aEOF 7-7 " },
    Rec { t: b"{ x\xffa:, z\xffa: }", shape: b"(hash pairs=[(pair key=(sym name=\x22x\xff\x00\x22) value=(send method_name=\x22x\xff\x00\x22 args=[])) (pair key=(sym name=\x22z\xff\x01\x22) value=(send method_name=\x22z\xff\x01\x22 args=[]))])", full: b"(hash pairs=[(pair key=(sym name=\x22x\xff\x00\x22 expression=2-4) value=(send method_name=\x22x\xff\x00\x22 args=[] selector=2-4 expression=2-4) operator=4-5 expression=2-5) (pair key=(sym name=\x22z\xff\x01\x22 expression=7-9) value=(send method_name=\x22z\xff\x01\x22 args=[] selector=7-9 expression=7-9) operator=9-10 expression=7-10)] begin=0-1 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 2-5 x\xff\x00\x0atCOMMA 5-6 ,\x0atLABEL 7-10 z\xff\x01\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"{ V\xffb: }", shape: b"(hash pairs=[(pair key=(sym name=\x22V\xff\x00\x22) value=(const name=\x22V\xff\x00\x22))])", full: b"(hash pairs=[(pair key=(sym name=\x22V\xff\x00\x22 expression=2-4) value=(const name=\x22V\xff\x00\x22 name=2-4 expression=2-4) operator=4-5 expression=2-5)] begin=0-1 end=6-7 expression=0-7)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 2-5 V\xff\x00\x0atRCURLY 6-7 }\x0aEOF 7-7 " },
    Rec { t: b"{ if: \xffd, class: \xffd, nil: \xffd }", shape: b"(hash pairs=[(pair key=(sym name=\x22if\x22) value=(int value=\x22\xff\x00\x22)) (pair key=(sym name=\x22class\x22) value=(int value=\x22\xff\x01\x22)) (pair key=(sym name=\x22nil\x22) value=(int value=\x22\xff\x02\x22))])", full: b"(hash pairs=[(pair key=(sym name=\x22if\x22 expression=2-4) value=(int value=\x22\xff\x00\x22 expression=6-7) operator=4-5 expression=2-7) (pair key=(sym name=\x22class\x22 expression=9-14) value=(int value=\x22\xff\x01\x22 expression=16-17) operator=14-15 expression=9-17) (pair key=(sym name=\x22nil\x22 expression=19-22) value=(int value=\x22\xff\x02\x22 expression=24-25) operator=22-23 expression=19-25)] begin=0-1 end=26-27 expression=0-27)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 2-5 if\x0atINTEGER 6-7 \xff\x00\x0atCOMMA 7-8 ,\x0atLABEL 9-15 class\x0atINTEGER 16-17 \xff\x01\x0atCOMMA 17-18 ,\x0atLABEL 19-23 nil\x0atINTEGER 24-25 \xff\x02\x0atRCURLY 26-27 }\x0aEOF 27-27 " },
    Rec { t: b"{ x\xffa?: \xffd, z\xffa!: \xffd }", shape: b"(hash pairs=[(pair key=(sym name=\x22x\xff\x00?\x22) value=(int value=\x22\xff\x01\x22)) (pair key=(sym name=\x22z\xff\x02!\x22) value=(int value=\x22\xff\x03\x22))])", full: b"(hash pairs=[(pair key=(sym name=\x22x\xff\x00?\x22 expression=2-5) value=(int value=\x22\xff\x01\x22 expression=7-8) operator=5-6 expression=2-8) (pair key=(sym name=\x22z\xff\x02!\x22 expression=10-13) value=(int value=\x22\xff\x03\x22 expression=15-16) operator=13-14 expression=10-16)] begin=0-1 end=17-18 expression=0-18)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 2-6 x\xff\x00?\x0atINTEGER 7-8 \xff\x01\x0atCOMMA 8-9 ,\x0atLABEL 10-14 z\xff\x02!\x0atINTEGER 15-16 \xff\x03\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"{ \xffd => \xffd, \x22\xfft\x22 => '\xfft', [\xffd] => {} }", shape: b"(hash pairs=[(pair key=(int value=\x22\xff\x00\x22) value=(int value=\x22\xff\x01\x22)) (pair key=(str value=\x22\xff\x02\x22) value=(str value=\x22\xff\x03\x22)) (pair key=(array elements=[(int value=\x22\xff\x04\x22)]) value=(hash pairs=[]))])", full: b"(hash pairs=[(pair key=(int value=\x22\xff\x00\x22 expression=2-3) value=(int value=\x22\xff\x01\x22 expression=7-8) operator=4-6 expression=2-8) (pair key=(str value=\x22\xff\x02\x22 begin=10-11 end=12-13 expression=10-13) value=(str value=\x22\xff\x03\x22 begin=17-18 end=19-20 expression=17-20) operator=14-16 expression=10-20) (pair key=(array elements=[(int value=\x22\xff\x04\x22 expression=23-24)] begin=22-23 end=24-25 expression=22-25) value=(hash pairs=[] begin=29-30 end=30-31 expression=29-31) operator=26-28 expression=22-31)] begin=0-1 end=32-33 expression=0-33)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atINTEGER 2-3 \xff\x00\x0atASSOC 4-6 =>\x0atINTEGER 7-8 \xff\x01\x0atCOMMA 8-9 ,\x0atSTRING_BEG 10-11 \x22\x0atSTRING_CONTENT 11-12 \xff\x02\x0atSTRING_END 12-13 \x22\x0atASSOC 14-16 =>\x0atSTRING_BEG 17-18 '\x0atSTRING_CONTENT 18-19 \xff\x03\x0atSTRING_END 19-20 '\x0atCOMMA 20-21 ,\x0atLBRACK 22-23 [\x0atINTEGER 23-24 \xff\x04\x0atRBRACK 24-25 ]\x0atASSOC 26-28 =>\x0atLBRACE 29-30 {\x0atRCURLY 30-31 }\x0atRCURLY 32-33 }\x0aEOF 33-33 " },
    Rec { t: b"{\x0av\xffa: \xffd,\x0ax\xffa: \xffd\x0a}", shape: b"(hash pairs=[(pair key=(sym name=\x22v\xff\x00\x22) value=(int value=\x22\xff\x01\x22)) (pair key=(sym name=\x22x\xff\x02\x22) value=(int value=\x22\xff\x03\x22))])", full: b"(hash pairs=[(pair key=(sym name=\x22v\xff\x00\x22 expression=2-4) value=(int value=\x22\xff\x01\x22 expression=6-7) operator=4-5 expression=2-7) (pair key=(sym name=\x22x\xff\x02\x22 expression=9-11) value=(int value=\x22\xff\x03\x22 expression=13-14) operator=11-12 expression=9-14)] begin=0-1 end=15-16 expression=0-16)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 2-5 v\xff\x00\x0atINTEGER 6-7 \xff\x01\x0atCOMMA 7-8 ,\x0atLABEL 9-12 x\xff\x02\x0atINTEGER 13-14 \xff\x03\x0atNL 14-15 \x0a\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"%w[\xfft\xfft \xfft\xfft]", shape: b"(array elements=[(str value=\x22\xff\x00\xff\x01\x22) (str value=\x22\xff\x02\xff\x03\x22)])", full: b"(array elements=[(str value=\x22\xff\x00\xff\x01\x22 expression=3-5) (str value=\x22\xff\x02\xff\x03\x22 expression=6-8)] begin=0-3 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atQWORDS_BEG 0-3 %w[\x0atSPACE 3-3 \x0atSTRING_CONTENT 3-5 \xff\x00\xff\x01\x0atSPACE 5-6  \x0atSTRING_CONTENT 6-8 \xff\x02\xff\x03\x0atSPACE 8-8 \x0atSTRING_END 8-9 ]\x0aEOF 9-9 " },
    Rec { t: b"%w[]", shape: b"(array elements=[])", full: b"(array elements=[] begin=0-3 end=3-4 expression=0-4)", diag: b"", toks: b"\x0atQWORDS_BEG 0-3 %w[\x0atSPACE 3-3 \x0atSTRING_END 3-4 ]\x0aEOF 4-4 " },
    Rec { t: b"%w[ \xfft  \xfft ]", shape: b"(array elements=[(str value=\x22\xff\x00\x22) (str value=\x22\xff\x01\x22)])", full: b"(array elements=[(str value=\x22\xff\x00\x22 expression=4-5) (str value=\x22\xff\x01\x22 expression=7-8)] begin=0-3 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atQWORDS_BEG 0-3 %w[\x0atSPACE 3-4  \x0atSTRING_CONTENT 4-5 \xff\x00\x0atSPACE 5-7   \x0atSTRING_CONTENT 7-8 \xff\x01\x0atSPACE 8-9  \x0atSTRING_END 9-10 ]\x0aEOF 10-10 " },
    Rec { t: b"%W[\xfft\xfft \xfft#{v\xffa}\xfft #{x\xffa}]", shape: b"(array elements=[(str value=\x22\xff\x00\xff\x01\x22) (dstr parts=[(str value=\x22\xff\x02\x22) (begin statements=[(send method_name=\x22v\xff\x03\x22 args=[])]) (str value=\x22\xff\x04\x22)]) (dstr parts=[(begin statements=[(send method_name=\x22x\xff\x05\x22 args=[])])])])", full: b"(array elements=[(str value=\x22\xff\x00\xff\x01\x22 expression=3-5) (dstr parts=[(str value=\x22\xff\x02\x22 expression=6-7) (begin statements=[(send method_name=\x22v\xff\x03\x22 args=[] selector=9-11 expression=9-11)] begin=7-9 end=11-12 expression=7-12) (str value=\x22\xff\x04\x22 expression=12-13)] expression=6-13) (dstr parts=[(begin statements=[(send method_name=\x22x\xff\x05\x22 args=[] selector=16-18 expression=16-18)] begin=14-16 end=18-19 expression=14-19)] expression=14-19)] begin=0-3 end=19-20 expression=0-20)", diag: b"", toks: b"\x0atWORDS_BEG 0-3 %W[\x0atSPACE 3-3 \x0atSTRING_CONTENT 3-5 \xff\x00\xff\x01\x0atSPACE 5-6  \x0atSTRING_CONTENT 6-7 \xff\x02\x0atSTRING_DBEG 7-9 #{\x0atIDENTIFIER 9-11 v\xff\x03\x0atSTRING_DEND 11-12 }\x0atSTRING_CONTENT 12-13 \xff\x04\x0atSPACE 13-14  \x0atSTRING_DBEG 14-16 #{\x0atIDENTIFIER 16-18 x\xff\x05\x0atSTRING_DEND 18-19 }\x0atSPACE 19-19 \x0atSTRING_END 19-20 ]\x0aEOF 20-20 " },
    Rec { t: b"%W[]", shape: b"(array elements=[])", full: b"(array elements=[] begin=0-3 end=3-4 expression=0-4)", diag: b"", toks: b"\x0atWORDS_BEG 0-3 %W[\x0atSPACE 3-3 \x0atSTRING_END 3-4 ]\x0aEOF 4-4 " },
    Rec { t: b"%i[\xfft\xfft \xfft]", shape: b"(array elements=[(sym name=\x22\xff\x00\xff\x01\x22) (sym name=\x22\xff\x02\x22)])", full: b"(array elements=[(sym name=\x22\xff\x00\xff\x01\x22 expression=3-5) (sym name=\x22\xff\x02\x22 expression=6-7)] begin=0-3 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atQSYMBOLS_BEG 0-3 %i[\x0atSPACE 3-3 \x0atSTRING_CONTENT 3-5 \xff\x00\xff\x01\x0atSPACE 5-6  \x0atSTRING_CONTENT 6-7 \xff\x02\x0atSPACE 7-7 \x0atSTRING_END 7-8 ]\x0aEOF 8-8 " },
    Rec { t: b"%i[]", shape: b"(array elements=[])", full: b"(array elements=[] begin=0-3 end=3-4 expression=0-4)", diag: b"", toks: b"\x0atQSYMBOLS_BEG 0-3 %i[\x0atSPACE 3-3 \x0atSTRING_END 3-4 ]\x0aEOF 4-4 " },
    Rec { t: b"%I[\xfft\xfft \xfft#{v\xffa}]", shape: b"(array elements=[(sym name=\x22\xff\x00\xff\x01\x22) (dsym parts=[(str value=\x22\xff\x02\x22) (begin statements=[(send method_name=\x22v\xff\x03\x22 args=[])])])])", full: b"(array elements=[(sym name=\x22\xff\x00\xff\x01\x22 expression=3-5) (dsym parts=[(str value=\x22\xff\x02\x22 expression=6-7) (begin statements=[(send method_name=\x22v\xff\x03\x22 args=[] selector=9-11 expression=9-11)] begin=7-9 end=11-12 expression=7-12)] expression=6-12)] begin=0-3 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atSYMBOLS_BEG 0-3 %I[\x0atSPACE 3-3 \x0atSTRING_CONTENT 3-5 \xff\x00\xff\x01\x0atSPACE 5-6  \x0atSTRING_CONTENT 6-7 \xff\x02\x0atSTRING_DBEG 7-9 #{\x0atIDENTIFIER 9-11 v\xff\x03\x0atSTRING_DEND 11-12 }\x0atSPACE 12-12 \x0atSTRING_END 12-13 ]\x0aEOF 13-13 " },
    Rec { t: b"%I[]", shape: b"(array elements=[])", full: b"(array elements=[] begin=0-3 end=3-4 expression=0-4)", diag: b"", toks: b"\x0atSYMBOLS_BEG 0-3 %I[\x0atSPACE 3-3 \x0atSTRING_END 3-4 ]\x0aEOF 4-4 " },
    Rec { t: b"%q(\xfft\xfft)", shape: b"(str value=\x22\xff\x00\xff\x01\x22)", full: b"(str value=\x22\xff\x00\xff\x01\x22 begin=0-3 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atSTRING_BEG 0-3 %q(\x0atSTRING_CONTENT 3-5 \xff\x00\xff\x01\x0atSTRING_END 5-6 )\x0aEOF 6-6 " },
    Rec { t: b"%Q(\xfft\xfft#{v\xffa})", shape: b"(dstr parts=[(str value=\x22\xff\x00\xff\x01\x22) (begin statements=[(send method_name=\x22v\xff\x02\x22 args=[])])])", full: b"(dstr parts=[(str value=\x22\xff\x00\xff\x01\x22 expression=3-5) (begin statements=[(send method_name=\x22v\xff\x02\x22 args=[] selector=7-9 expression=7-9)] begin=5-7 end=9-10 expression=5-10)] begin=0-3 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atSTRING_BEG 0-3 %Q(\x0atSTRING_CONTENT 3-5 \xff\x00\xff\x01\x0atSTRING_DBEG 5-7 #{\x0atIDENTIFIER 7-9 v\xff\x02\x0atSTRING_DEND 9-10 }\x0atSTRING_END 10-11 )\x0aEOF 11-11 " },
    Rec { t: b"%(\xfft\xfft\xfft)", shape: b"(str value=\x22\xff\x00\xff\x01\xff\x02\x22)", full: b"(str value=\x22\xff\x00\xff\x01\xff\x02\x22 begin=0-2 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atSTRING_BEG 0-2 %(\x0atSTRING_CONTENT 2-5 \xff\x00\xff\x01\xff\x02\x0atSTRING_END 5-6 )\x0aEOF 6-6 " },
    Rec { t: b"%q[a[\xfft]b]", shape: b"(str value=\x22a[\xff\x00]b\x22)", full: b"(str value=\x22a[\xff\x00]b\x22 begin=0-3 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atSTRING_BEG 0-3 %q[\x0atSTRING_CONTENT 3-8 a[\xff\x00]b\x0atSTRING_END 8-9 ]\x0aEOF 9-9 " },
    Rec { t: b"%s(\xfft\xfft)", shape: b"(sym name=\x22\xff\x00\xff\x01\x22)", full: b"(sym name=\x22\xff\x00\xff\x01\x22 begin=0-3 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atSYMBEG 0-3 %s(\x0atSTRING_CONTENT 3-5 \xff\x00\xff\x01\x0atSTRING_END 5-6 )\x0aEOF 6-6 " },
    Rec { t: b"%x(\xfft\xfft)", shape: b"(xstr parts=[(str value=\x22\xff\x00\xff\x01\x22)])", full: b"(xstr parts=[(str value=\x22\xff\x00\xff\x01\x22 expression=3-5)] begin=0-3 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atXSTRING_BEG 0-3 %x(\x0atSTRING_CONTENT 3-5 \xff\x00\xff\x01\x0atSTRING_END 5-6 )\x0aEOF 6-6 " },
    Rec { t: b"%r{\xfft\xfft}i", shape: b"(regexp parts=[(str value=\x22\xff\x00\xff\x01\x22)] options=(reg_opt options=\x22i\x22))", full: b"(regexp parts=[(str value=\x22\xff\x00\xff\x01\x22 expression=3-5)] options=(reg_opt options=\x22i\x22 expression=6-7) begin=0-3 end=5-6 expression=0-7)", diag: b"", toks: b"\x0atREGEXP_BEG 0-3 %r{\x0atSTRING_CONTENT 3-5 \xff\x00\xff\x01\x0atREGEXP_END 5-7 }i\x0aEOF 7-7 " },
    Rec { t: b"%r[\xfft#{v\xffa}]", shape: b"(regexp parts=[(str value=\x22\xff\x00\x22) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[])])])", full: b"(regexp parts=[(str value=\x22\xff\x00\x22 expression=3-4) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[] selector=6-8 expression=6-8)] begin=4-6 end=8-9 expression=4-9)] begin=0-3 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atREGEXP_BEG 0-3 %r[\x0atSTRING_CONTENT 3-4 \xff\x00\x0atSTRING_DBEG 4-6 #{\x0atIDENTIFIER 6-8 v\xff\x01\x0atSTRING_DEND 8-9 }\x0atREGEXP_END 9-10 ]\x0aEOF 10-10 " },
];
pub static VAR: &[Rec] = &[
    Rec { t: b"v\xffa", shape: b"(send method_name=\x22v\xff\x00\x22 args=[])", full: b"(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0aEOF 2-2 " },
    Rec { t: b"v\xffa?", shape: b"(send method_name=\x22v\xff\x00?\x22 args=[])", full: b"(send method_name=\x22v\xff\x00?\x22 args=[] selector=0-3 expression=0-3)", diag: b"", toks: b"\x0atFID 0-3 v\xff\x00?\x0aEOF 3-3 " },
    Rec { t: b"v\xffa!", shape: b"(send method_name=\x22v\xff\x00!\x22 args=[])", full: b"(send method_name=\x22v\xff\x00!\x22 args=[] selector=0-3 expression=0-3)", diag: b"", toks: b"\x0atFID 0-3 v\xff\x00!\x0aEOF 3-3 " },
    Rec { t: b"V\xffb", shape: b"(const name=\x22V\xff\x00\x22)", full: b"(const name=\x22V\xff\x00\x22 name=0-2 expression=0-2)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0aEOF 2-2 " },
    Rec { t: b"v\xffa = \xffd; v\xfe\x00", shape: b"(begin statements=[(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22)) (lvar name=\x22v\xff\x00\x22)])", full: b"(begin statements=[(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (lvar name=\x22v\xff\x00\x22 expression=8-10)] expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x01\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 v\xff\x00\x0aEOF 10-10 " },
    Rec { t: b"@v\xffa\xffb", shape: b"(ivar name=\x22@v\xff\x00\xff\x01\x22)", full: b"(ivar name=\x22@v\xff\x00\xff\x01\x22 expression=0-4)", diag: b"", toks: b"\x0atIVAR 0-4 @v\xff\x00\xff\x01\x0aEOF 4-4 " },
    Rec { t: b"@@v\xffa\xffb", shape: b"(cvar name=\x22@@v\xff\x00\xff\x01\x22)", full: b"(cvar name=\x22@@v\xff\x00\xff\x01\x22 expression=0-5)", diag: b"", toks: b"\x0atCVAR 0-5 @@v\xff\x00\xff\x01\x0aEOF 5-5 " },
    Rec { t: b"$v\xffa\xffb", shape: b"(gvar name=\x22$v\xff\x00\xff\x01\x22)", full: b"(gvar name=\x22$v\xff\x00\xff\x01\x22 expression=0-4)", diag: b"", toks: b"\x0atGVAR 0-4 $v\xff\x00\xff\x01\x0aEOF 4-4 " },
    Rec { t: b"$\xffD", shape: b"(nth_ref name=\x22\xff\x00\x22)", full: b"(nth_ref name=\x22\xff\x00\x22 expression=0-2)", diag: b"", toks: b"\x0atNTH_REF 0-2 $\xff\x00\x0aEOF 2-2 " },
    Rec { t: b"$1\xffd", shape: b"(nth_ref name=\x221\xff\x00\x22)", full: b"(nth_ref name=\x221\xff\x00\x22 expression=0-3)", diag: b"", toks: b"\x0atNTH_REF 0-3 $1\xff\x00\x0aEOF 3-3 " },
    Rec { t: b"$~", shape: b"(gvar name=\x22$~\x22)", full: b"(gvar name=\x22$~\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $~\x0aEOF 2-2 " },
    Rec { t: b"$*", shape: b"(gvar name=\x22$*\x22)", full: b"(gvar name=\x22$*\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $*\x0aEOF 2-2 " },
    Rec { t: b"$$", shape: b"(gvar name=\x22$$\x22)", full: b"(gvar name=\x22$$\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $$\x0aEOF 2-2 " },
    Rec { t: b"$?", shape: b"(gvar name=\x22$?\x22)", full: b"(gvar name=\x22$?\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $?\x0aEOF 2-2 " },
    Rec { t: b"$!", shape: b"(gvar name=\x22$!\x22)", full: b"(gvar name=\x22$!\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $!\x0aEOF 2-2 " },
    Rec { t: b"$@", shape: b"(gvar name=\x22$@\x22)", full: b"(gvar name=\x22$@\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $@\x0aEOF 2-2 " },
    Rec { t: b"$/", shape: b"(gvar name=\x22$/\x22)", full: b"(gvar name=\x22$/\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $/\x0aEOF 2-2 " },
    Rec { t: b"$\x5c", shape: b"(gvar name=\x22$\x5c\x22)", full: b"(gvar name=\x22$\x5c\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $\x5c\x0aEOF 2-2 " },
    Rec { t: b"$;", shape: b"(gvar name=\x22$;\x22)", full: b"(gvar name=\x22$;\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $;\x0aEOF 2-2 " },
    Rec { t: b"$,", shape: b"(gvar name=\x22$,\x22)", full: b"(gvar name=\x22$,\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $,\x0aEOF 2-2 " },
    Rec { t: b"$.", shape: b"(gvar name=\x22$.\x22)", full: b"(gvar name=\x22$.\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $.\x0aEOF 2-2 " },
    Rec { t: b"$=", shape: b"(gvar name=\x22$=\x22)", full: b"(gvar name=\x22$=\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $=\x0aEOF 2-2 " },
    Rec { t: b"$_", shape: b"(gvar name=\x22$_\x22)", full: b"(gvar name=\x22$_\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $_\x0aEOF 2-2 " },
    Rec { t: b"$<", shape: b"(gvar name=\x22$<\x22)", full: b"(gvar name=\x22$<\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $<\x0aEOF 2-2 " },
    Rec { t: b"$>", shape: b"(gvar name=\x22$>\x22)", full: b"(gvar name=\x22$>\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $>\x0aEOF 2-2 " },
    Rec { t: b"$\x22", shape: b"(gvar name=\x22$\x22\x22)", full: b"(gvar name=\x22$\x22\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $\x22\x0aEOF 2-2 " },
    Rec { t: b"$&", shape: b"(back_ref name=\x22$&\x22)", full: b"(back_ref name=\x22$&\x22 expression=0-2)", diag: b"", toks: b"\x0atBACK_REF 0-2 $&\x0aEOF 2-2 " },
    Rec { t: b"$`", shape: b"(back_ref name=\x22$`\x22)", full: b"(back_ref name=\x22$`\x22 expression=0-2)", diag: b"", toks: b"\x0atBACK_REF 0-2 $`\x0aEOF 2-2 " },
    Rec { t: b"$'", shape: b"(back_ref name=\x22$'\x22)", full: b"(back_ref name=\x22$'\x22 expression=0-2)", diag: b"", toks: b"\x0atBACK_REF 0-2 $'\x0aEOF 2-2 " },
    Rec { t: b"$+", shape: b"(back_ref name=\x22$+\x22)", full: b"(back_ref name=\x22$+\x22 expression=0-2)", diag: b"", toks: b"\x0atBACK_REF 0-2 $+\x0aEOF 2-2 " },
    Rec { t: b"$:", shape: b"(gvar name=\x22$:\x22)", full: b"(gvar name=\x22$:\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $:\x0aEOF 2-2 " },
    Rec { t: b"$0", shape: b"(gvar name=\x22$0\x22)", full: b"(gvar name=\x22$0\x22 expression=0-2)", diag: b"", toks: b"\x0atGVAR 0-2 $0\x0aEOF 2-2 " },
    Rec { t: b"$-w", shape: b"(gvar name=\x22$-w\x22)", full: b"(gvar name=\x22$-w\x22 expression=0-3)", diag: b"", toks: b"\x0atGVAR 0-3 $-w\x0aEOF 3-3 " },
    Rec { t: b"$stdout", shape: b"(gvar name=\x22$stdout\x22)", full: b"(gvar name=\x22$stdout\x22 expression=0-7)", diag: b"", toks: b"\x0atGVAR 0-7 $stdout\x0aEOF 7-7 " },
    Rec { t: b"V\xffb::W\xffb", shape: b"(const scope=(const name=\x22V\xff\x00\x22) name=\x22W\xff\x01\x22)", full: b"(const scope=(const name=\x22V\xff\x00\x22 name=0-2 expression=0-2) name=\x22W\xff\x01\x22 double_colon=2-4 name=4-6 expression=0-6)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atCOLON2 2-4 ::\x0atCONSTANT 4-6 W\xff\x01\x0aEOF 6-6 " },
    Rec { t: b"::V\xffb", shape: b"(const scope=(cbase) name=\x22V\xff\x00\x22)", full: b"(const scope=(cbase expression=0-2) name=\x22V\xff\x00\x22 double_colon=0-2 name=2-4 expression=0-4)", diag: b"", toks: b"\x0atCOLON3 0-2 ::\x0atCONSTANT 2-4 V\xff\x00\x0aEOF 4-4 " },
    Rec { t: b"::V\xffb::W\xffb", shape: b"(const scope=(const scope=(cbase) name=\x22V\xff\x00\x22) name=\x22W\xff\x01\x22)", full: b"(const scope=(const scope=(cbase expression=0-2) name=\x22V\xff\x00\x22 double_colon=0-2 name=2-4 expression=0-4) name=\x22W\xff\x01\x22 double_colon=4-6 name=6-8 expression=0-8)", diag: b"", toks: b"\x0atCOLON3 0-2 ::\x0atCONSTANT 2-4 V\xff\x00\x0atCOLON2 4-6 ::\x0atCONSTANT 6-8 W\xff\x01\x0aEOF 8-8 " },
    Rec { t: b"v\xffa::W\xffb", shape: b"(const scope=(send method_name=\x22v\xff\x00\x22 args=[]) name=\x22W\xff\x01\x22)", full: b"(const scope=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) name=\x22W\xff\x01\x22 double_colon=2-4 name=4-6 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atCONSTANT 4-6 W\xff\x01\x0aEOF 6-6 " },
    Rec { t: b"@v\xffa::W\xffb", shape: b"(const scope=(ivar name=\x22@v\xff\x00\x22) name=\x22W\xff\x01\x22)", full: b"(const scope=(ivar name=\x22@v\xff\x00\x22 expression=0-3) name=\x22W\xff\x01\x22 double_colon=3-5 name=5-7 expression=0-7)", diag: b"", toks: b"\x0atIVAR 0-3 @v\xff\x00\x0atCOLON2 3-5 ::\x0atCONSTANT 5-7 W\xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa::w\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22w\xff\x01\x22 args=[])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22w\xff\x01\x22 args=[] dot=2-4 selector=4-6 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atIDENTIFIER 4-6 w\xff\x01\x0aEOF 6-6 " },
    Rec { t: b"v\xffa::w\xffa = 1", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22w\xff\x01=\x22 args=[(int value=\x221\x22)])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22w\xff\x01=\x22 args=[(int value=\x221\x22 expression=9-10)] dot=2-4 selector=4-6 operator=7-8 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atIDENTIFIER 4-6 w\xff\x01\x0atEQL 7-8 =\x0atINTEGER 9-10 1\x0aEOF 10-10 " },
    Rec { t: b"BEGIN { v\xffa }", shape: b"(preexe body=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(preexe body=(send method_name=\x22v\xff\x00\x22 args=[] selector=8-10 expression=8-10) keyword=0-5 begin=6-7 end=11-12 expression=0-12)", diag: b"", toks: b"\x0aklBEGIN 0-5 BEGIN\x0atLCURLY 6-7 {\x0atIDENTIFIER 8-10 v\xff\x00\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"END { v\xffa }", shape: b"(postexe body=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(postexe body=(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) keyword=0-3 begin=4-5 end=9-10 expression=0-10)", diag: b"", toks: b"\x0aklEND 0-3 END\x0atLCURLY 4-5 {\x0atIDENTIFIER 6-8 v\xff\x00\x0atRCURLY 9-10 }\x0aEOF 10-10 " },
    Rec { t: b"defined? v\xffa", shape: b"(defined value=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(defined value=(send method_name=\x22v\xff\x00\x22 args=[] selector=9-11 expression=9-11) keyword=0-8 expression=0-11)", diag: b"", toks: b"\x0akDEFINED 0-8 defined?\x0atIDENTIFIER 9-11 v\xff\x00\x0aEOF 11-11 " },
    Rec { t: b"defined?(v\xffa)", shape: b"(defined value=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(defined value=(send method_name=\x22v\xff\x00\x22 args=[] selector=9-11 expression=9-11) keyword=0-8 begin=8-9 end=11-12 expression=0-12)", diag: b"", toks: b"\x0akDEFINED 0-8 defined?\x0atLPAREN2 8-9 (\x0atIDENTIFIER 9-11 v\xff\x00\x0atRPAREN 11-12 )\x0aEOF 12-12 " },
    Rec { t: b"defined? @v\xffa", shape: b"(defined value=(ivar name=\x22@v\xff\x00\x22))", full: b"(defined value=(ivar name=\x22@v\xff\x00\x22 expression=9-12) keyword=0-8 expression=0-12)", diag: b"", toks: b"\x0akDEFINED 0-8 defined?\x0atIVAR 9-12 @v\xff\x00\x0aEOF 12-12 " },
    Rec { t: b"defined?(V\xffb::W\xffb)", shape: b"(defined value=(const scope=(const name=\x22V\xff\x00\x22) name=\x22W\xff\x01\x22))", full: b"(defined value=(const scope=(const name=\x22V\xff\x00\x22 name=9-11 expression=9-11) name=\x22W\xff\x01\x22 double_colon=11-13 name=13-15 expression=9-15) keyword=0-8 begin=8-9 end=15-16 expression=0-16)", diag: b"", toks: b"\x0akDEFINED 0-8 defined?\x0atLPAREN2 8-9 (\x0atCONSTANT 9-11 V\xff\x00\x0atCOLON2 11-13 ::\x0atCONSTANT 13-15 W\xff\x01\x0atRPAREN 15-16 )\x0aEOF 16-16 " },
    Rec { t: b"defined? v\xffa.x\xffa", shape: b"(defined value=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]))", full: b"(defined value=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=9-11 expression=9-11) method_name=\x22x\xff\x01\x22 args=[] dot=11-12 selector=12-14 expression=9-14) keyword=0-8 expression=0-14)", diag: b"", toks: b"\x0akDEFINED 0-8 defined?\x0atIDENTIFIER 9-11 v\xff\x00\x0atDOT 11-12 .\x0atIDENTIFIER 12-14 x\xff\x01\x0aEOF 14-14 " },
];
pub static ASGN: &[Rec] = &[
    Rec { t: b"v\xffa = \xffd", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x01\x0aEOF 6-6 " },
    Rec { t: b"v\xffa = \xffd; v\xfe\x00", shape: b"(begin statements=[(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22)) (lvar name=\x22v\xff\x00\x22)])", full: b"(begin statements=[(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (lvar name=\x22v\xff\x00\x22 expression=8-10)] expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x01\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 v\xff\x00\x0aEOF 10-10 " },
    Rec { t: b"@v\xffa = \xffd", shape: b"(ivasgn name=\x22@v\xff\x00\x22 value=(int value=\x22\xff\x01\x22))", full: b"(ivasgn name=\x22@v\xff\x00\x22 value=(int value=\x22\xff\x01\x22 expression=6-7) name=0-3 operator=4-5 expression=0-7)", diag: b"", toks: b"\x0atIVAR 0-3 @v\xff\x00\x0atEQL 4-5 =\x0atINTEGER 6-7 \xff\x01\x0aEOF 7-7 " },
    Rec { t: b"@@v\xffa = \xffd", shape: b"(cvasgn name=\x22@@v\xff\x00\x22 value=(int value=\x22\xff\x01\x22))", full: b"(cvasgn name=\x22@@v\xff\x00\x22 value=(int value=\x22\xff\x01\x22 expression=7-8) name=0-4 operator=5-6 expression=0-8)", diag: b"", toks: b"\x0atCVAR 0-4 @@v\xff\x00\x0atEQL 5-6 =\x0atINTEGER 7-8 \xff\x01\x0aEOF 8-8 " },
    Rec { t: b"$v\xffa = \xffd", shape: b"(gvasgn name=\x22$v\xff\x00\x22 value=(int value=\x22\xff\x01\x22))", full: b"(gvasgn name=\x22$v\xff\x00\x22 value=(int value=\x22\xff\x01\x22 expression=6-7) name=0-3 operator=4-5 expression=0-7)", diag: b"", toks: b"\x0atGVAR 0-3 $v\xff\x00\x0atEQL 4-5 =\x0atINTEGER 6-7 \xff\x01\x0aEOF 7-7 " },
    Rec { t: b"V\xffb = \xffd", shape: b"(casgn name=\x22V\xff\x00\x22 value=(int value=\x22\xff\x01\x22))", full: b"(casgn name=\x22V\xff\x00\x22 value=(int value=\x22\xff\x01\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x01\x0aEOF 6-6 " },
    Rec { t: b"::V\xffb = \xffd", shape: b"(casgn scope=(cbase) name=\x22V\xff\x00\x22 value=(int value=\x22\xff\x01\x22))", full: b"(casgn scope=(cbase expression=0-2) name=\x22V\xff\x00\x22 value=(int value=\x22\xff\x01\x22 expression=7-8) double_colon=0-2 name=2-4 operator=5-6 expression=0-8)", diag: b"", toks: b"\x0atCOLON3 0-2 ::\x0atCONSTANT 2-4 V\xff\x00\x0atEQL 5-6 =\x0atINTEGER 7-8 \xff\x01\x0aEOF 8-8 " },
    Rec { t: b"v\xffa::W\xffb = \xffd", shape: b"(casgn scope=(send method_name=\x22v\xff\x00\x22 args=[]) name=\x22W\xff\x01\x22 value=(int value=\x22\xff\x02\x22))", full: b"(casgn scope=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) name=\x22W\xff\x01\x22 value=(int value=\x22\xff\x02\x22 expression=9-10) double_colon=2-4 name=4-6 operator=7-8 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atCONSTANT 4-6 W\xff\x01\x0atEQL 7-8 =\x0atINTEGER 9-10 \xff\x02\x0aEOF 10-10 " },
    Rec { t: b"V\xffb::W\xffb = \xffd", shape: b"(casgn scope=(const name=\x22V\xff\x00\x22) name=\x22W\xff\x01\x22 value=(int value=\x22\xff\x02\x22))", full: b"(casgn scope=(const name=\x22V\xff\x00\x22 name=0-2 expression=0-2) name=\x22W\xff\x01\x22 value=(int value=\x22\xff\x02\x22 expression=9-10) double_colon=2-4 name=4-6 operator=7-8 expression=0-10)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atCOLON2 2-4 ::\x0atCONSTANT 4-6 W\xff\x01\x0atEQL 7-8 =\x0atINTEGER 9-10 \xff\x02\x0aEOF 10-10 " },
    Rec { t: b"v\xffa.x\xffa = \xffd", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01=\x22 args=[(int value=\x22\xff\x02\x22)])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01=\x22 args=[(int value=\x22\xff\x02\x22 expression=8-9)] dot=2-3 selector=3-5 operator=6-7 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atEQL 6-7 =\x0atINTEGER 8-9 \xff\x02\x0aEOF 9-9 " },
    Rec { t: b"v\xffa&.x\xffa = \xffd", shape: b"(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01=\x22 args=[(int value=\x22\xff\x02\x22)])", full: b"(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01=\x22 args=[(int value=\x22\xff\x02\x22 expression=9-10)] dot=2-4 selector=4-6 operator=7-8 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atANDDOT 2-4 &.\x0atIDENTIFIER 4-6 x\xff\x01\x0atEQL 7-8 =\x0atINTEGER 9-10 \xff\x02\x0aEOF 10-10 " },
    Rec { t: b"v\xffa::x\xffa = \xffd", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01=\x22 args=[(int value=\x22\xff\x02\x22)])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01=\x22 args=[(int value=\x22\xff\x02\x22 expression=9-10)] dot=2-4 selector=4-6 operator=7-8 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atIDENTIFIER 4-6 x\xff\x01\x0atEQL 7-8 =\x0atINTEGER 9-10 \xff\x02\x0aEOF 10-10 " },
    Rec { t: b"v\xffa.X\xffb = \xffd", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22X\xff\x01=\x22 args=[(int value=\x22\xff\x02\x22)])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22X\xff\x01=\x22 args=[(int value=\x22\xff\x02\x22 expression=8-9)] dot=2-3 selector=3-5 operator=6-7 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atCONSTANT 3-5 X\xff\x01\x0atEQL 6-7 =\x0atINTEGER 8-9 \xff\x02\x0aEOF 9-9 " },
    Rec { t: b"v\xffa[\xffd] = \xffd", shape: b"(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(int value=\x22\xff\x01\x22)] value=(int value=\x22\xff\x02\x22))", full: b"(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(int value=\x22\xff\x01\x22 expression=3-4)] value=(int value=\x22\xff\x02\x22 expression=8-9) begin=2-3 end=4-5 operator=6-7 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atINTEGER 3-4 \xff\x01\x0atRBRACK 4-5 ]\x0atEQL 6-7 =\x0atINTEGER 8-9 \xff\x02\x0aEOF 9-9 " },
    Rec { t: b"v\xffa[] = \xffd", shape: b"(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[] value=(int value=\x22\xff\x01\x22))", full: b"(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[] value=(int value=\x22\xff\x01\x22 expression=7-8) begin=2-3 end=3-4 operator=5-6 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atRBRACK 3-4 ]\x0atEQL 5-6 =\x0atINTEGER 7-8 \xff\x01\x0aEOF 8-8 " },
    Rec { t: b"v\xffa[\xffd, x\xffa] = \xffd", shape: b"(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(int value=\x22\xff\x01\x22) (send method_name=\x22x\xff\x02\x22 args=[])] value=(int value=\x22\xff\x03\x22))", full: b"(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(int value=\x22\xff\x01\x22 expression=3-4) (send method_name=\x22x\xff\x02\x22 args=[] selector=6-8 expression=6-8)] value=(int value=\x22\xff\x03\x22 expression=12-13) begin=2-3 end=8-9 operator=10-11 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atINTEGER 3-4 \xff\x01\x0atCOMMA 4-5 ,\x0atIDENTIFIER 6-8 x\xff\x02\x0atRBRACK 8-9 ]\x0atEQL 10-11 =\x0atINTEGER 12-13 \xff\x03\x0aEOF 13-13 " },
    Rec { t: b"v\xffa[*x\xffa] = \xffd", shape: b"(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[]))] value=(int value=\x22\xff\x02\x22))", full: b"(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6) operator=3-4 expression=3-6)] value=(int value=\x22\xff\x02\x22 expression=10-11) begin=2-3 end=6-7 operator=8-9 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atSTAR 3-4 *\x0atIDENTIFIER 4-6 x\xff\x01\x0atRBRACK 6-7 ]\x0atEQL 8-9 =\x0atINTEGER 10-11 \xff\x02\x0aEOF 11-11 " },
    Rec { t: b"v\xffa[\xffd] = \xffd, \xffd", shape: b"(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(int value=\x22\xff\x01\x22)] value=(array elements=[(int value=\x22\xff\x02\x22) (int value=\x22\xff\x03\x22)]))", full: b"(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(int value=\x22\xff\x01\x22 expression=3-4)] value=(array elements=[(int value=\x22\xff\x02\x22 expression=8-9) (int value=\x22\xff\x03\x22 expression=11-12)] expression=8-12) begin=2-3 end=4-5 operator=6-7 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atINTEGER 3-4 \xff\x01\x0atRBRACK 4-5 ]\x0atEQL 6-7 =\x0atINTEGER 8-9 \xff\x02\x0atCOMMA 9-10 ,\x0atINTEGER 11-12 \xff\x03\x0aEOF 12-12 " },
    Rec { t: b"v\xffa = x\xffa = \xffd", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(lvasgn name=\x22x\xff\x01\x22 value=(int value=\x22\xff\x02\x22)))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(lvasgn name=\x22x\xff\x01\x22 value=(int value=\x22\xff\x02\x22 expression=10-11) name=5-7 operator=8-9 expression=5-11) name=0-2 operator=3-4 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atIDENTIFIER 5-7 x\xff\x01\x0atEQL 8-9 =\x0atINTEGER 10-11 \xff\x02\x0aEOF 11-11 " },
    Rec { t: b"v\xffa = x\xffa z\xffa", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[])]))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[] selector=8-10 expression=8-10)] selector=5-7 expression=5-10) name=0-2 operator=3-4 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atIDENTIFIER 5-7 x\xff\x01\x0atIDENTIFIER 8-10 z\xff\x02\x0aEOF 10-10 " },
    Rec { t: b"v\xffa = x\xffa z\xffa, \xffd", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[]) (int value=\x22\xff\x03\x22)]))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[] selector=8-10 expression=8-10) (int value=\x22\xff\x03\x22 expression=12-13)] selector=5-7 expression=5-13) name=0-2 operator=3-4 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atIDENTIFIER 5-7 x\xff\x01\x0atIDENTIFIER 8-10 z\xff\x02\x0atCOMMA 10-11 ,\x0atINTEGER 12-13 \xff\x03\x0aEOF 13-13 " },
    Rec { t: b"v\xffa = *x\xffa", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(array elements=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[]))]))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(array elements=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8) operator=5-6 expression=5-8)] expression=5-8) name=0-2 operator=3-4 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atSTAR 5-6 *\x0atIDENTIFIER 6-8 x\xff\x01\x0aEOF 8-8 " },
    Rec { t: b"v\xffa = \xffd, \xffd", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(array elements=[(int value=\x22\xff\x01\x22) (int value=\x22\xff\x02\x22)]))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(array elements=[(int value=\x22\xff\x01\x22 expression=5-6) (int value=\x22\xff\x02\x22 expression=8-9)] expression=5-9) name=0-2 operator=3-4 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x01\x0atCOMMA 6-7 ,\x0atINTEGER 8-9 \xff\x02\x0aEOF 9-9 " },
    Rec { t: b"v\xffa = \xffd, *x\xffa", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(array elements=[(int value=\x22\xff\x01\x22) (splat value=(send method_name=\x22x\xff\x02\x22 args=[]))]))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(array elements=[(int value=\x22\xff\x01\x22 expression=5-6) (splat value=(send method_name=\x22x\xff\x02\x22 args=[] selector=9-11 expression=9-11) operator=8-9 expression=8-11)] expression=5-11) name=0-2 operator=3-4 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x01\x0atCOMMA 6-7 ,\x0atSTAR 8-9 *\x0atIDENTIFIER 9-11 x\xff\x02\x0aEOF 11-11 " },
    Rec { t: b"v\xffa = *x\xffa, \xffd", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(array elements=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[])) (int value=\x22\xff\x02\x22)]))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(array elements=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8) operator=5-6 expression=5-8) (int value=\x22\xff\x02\x22 expression=10-11)] expression=5-11) name=0-2 operator=3-4 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atSTAR 5-6 *\x0atIDENTIFIER 6-8 x\xff\x01\x0atCOMMA 8-9 ,\x0atINTEGER 10-11 \xff\x02\x0aEOF 11-11 " },
    Rec { t: b"v\xffa.x\xffa = \xffd, \xffd", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01=\x22 args=[(array elements=[(int value=\x22\xff\x02\x22) (int value=\x22\xff\x03\x22)])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01=\x22 args=[(array elements=[(int value=\x22\xff\x02\x22 expression=8-9) (int value=\x22\xff\x03\x22 expression=11-12)] expression=8-12)] dot=2-3 selector=3-5 operator=6-7 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atEQL 6-7 =\x0atINTEGER 8-9 \xff\x02\x0atCOMMA 9-10 ,\x0atINTEGER 11-12 \xff\x03\x0aEOF 12-12 " },
    Rec { t: b"v\xffa.x\xffa = z\xffa q\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01=\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[(send method_name=\x22q\xff\x03\x22 args=[])])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01=\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[(send method_name=\x22q\xff\x03\x22 args=[] selector=11-13 expression=11-13)] selector=8-10 expression=8-13)] dot=2-3 selector=3-5 operator=6-7 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atEQL 6-7 =\x0atIDENTIFIER 8-10 z\xff\x02\x0atIDENTIFIER 11-13 q\xff\x03\x0aEOF 13-13 " },
    Rec { t: b"V\xffb = \xffd, \xffd", shape: b"(casgn name=\x22V\xff\x00\x22 value=(array elements=[(int value=\x22\xff\x01\x22) (int value=\x22\xff\x02\x22)]))", full: b"(casgn name=\x22V\xff\x00\x22 value=(array elements=[(int value=\x22\xff\x01\x22 expression=5-6) (int value=\x22\xff\x02\x22 expression=8-9)] expression=5-9) name=0-2 operator=3-4 expression=0-9)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x01\x0atCOMMA 6-7 ,\x0atINTEGER 8-9 \xff\x02\x0aEOF 9-9 " },
    Rec { t: b"@v\xffa = x\xffa z\xffa", shape: b"(ivasgn name=\x22@v\xff\x00\x22 value=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[])]))", full: b"(ivasgn name=\x22@v\xff\x00\x22 value=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[] selector=9-11 expression=9-11)] selector=6-8 expression=6-11) name=0-3 operator=4-5 expression=0-11)", diag: b"", toks: b"\x0atIVAR 0-3 @v\xff\x00\x0atEQL 4-5 =\x0atIDENTIFIER 6-8 x\xff\x01\x0atIDENTIFIER 9-11 z\xff\x02\x0aEOF 11-11 " },
    Rec { t: b"v\xffa = (\xffd)", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(begin statements=[(int value=\x22\xff\x01\x22)]))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(begin statements=[(int value=\x22\xff\x01\x22 expression=6-7)] begin=5-6 end=7-8 expression=5-8) name=0-2 operator=3-4 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atLPAREN 5-6 (\x0atINTEGER 6-7 \xff\x01\x0atRPAREN 7-8 )\x0aEOF 8-8 " },
    Rec { t: b"v\xffa = begin; \xffd; end", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(kw_begin statements=[(int value=\x22\xff\x01\x22)]))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(kw_begin statements=[(int value=\x22\xff\x01\x22 expression=12-13)] begin=5-10 end=15-18 expression=5-18) name=0-2 operator=3-4 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0akBEGIN 5-10 begin\x0atSEMI 10-11 ;\x0atINTEGER 12-13 \xff\x01\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"v\xffa = if x\xffa then \xffd else \xffd end", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(if cond=(send method_name=\x22x\xff\x01\x22 args=[]) if_true=(int value=\x22\xff\x02\x22) if_false=(int value=\x22\xff\x03\x22)))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(if cond=(send method_name=\x22x\xff\x01\x22 args=[] selector=8-10 expression=8-10) if_true=(int value=\x22\xff\x02\x22 expression=16-17) if_false=(int value=\x22\xff\x03\x22 expression=23-24) keyword=5-7 begin=11-15 else=18-22 end=25-28 expression=5-28) name=0-2 operator=3-4 expression=0-28)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0akIF 5-7 if\x0atIDENTIFIER 8-10 x\xff\x01\x0akTHEN 11-15 then\x0atINTEGER 16-17 \xff\x02\x0akELSE 18-22 else\x0atINTEGER 23-24 \xff\x03\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"v\xffa = \xffd rescue x\xffa", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(rescue body=(int value=\x22\xff\x01\x22) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x02\x22 args=[]))]))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(rescue body=(int value=\x22\xff\x01\x22 expression=5-6) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x02\x22 args=[] selector=14-16 expression=14-16) keyword=7-13 expression=7-16)] expression=5-16) name=0-2 operator=3-4 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x01\x0akRESCUE_MOD 7-13 rescue\x0atIDENTIFIER 14-16 x\xff\x02\x0aEOF 16-16 " },
    Rec { t: b"v\xffa = x\xffa z\xffa rescue \xffd", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[])]) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x03\x22))]))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[] selector=8-10 expression=8-10)] selector=5-7 expression=5-10) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x03\x22 expression=18-19) keyword=11-17 expression=11-19)] expression=5-19) name=0-2 operator=3-4 expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atIDENTIFIER 5-7 x\xff\x01\x0atIDENTIFIER 8-10 z\xff\x02\x0akRESCUE_MOD 11-17 rescue\x0atINTEGER 18-19 \xff\x03\x0aEOF 19-19 " },
    Rec { t: b"v\xffa = raise x\xffa rescue \xffd", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(rescue body=(send method_name=\x22raise\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])]) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x02\x22))]))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(rescue body=(send method_name=\x22raise\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13)] selector=5-10 expression=5-13) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x02\x22 expression=21-22) keyword=14-20 expression=14-22)] expression=5-22) name=0-2 operator=3-4 expression=0-22)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atIDENTIFIER 5-10 raise\x0atIDENTIFIER 11-13 x\xff\x01\x0akRESCUE_MOD 14-20 rescue\x0atINTEGER 21-22 \xff\x02\x0aEOF 22-22 " },
    Rec { t: b"v\xffa += \xffd", shape: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22) operator=\x22+\x22 value=(int value=\x22\xff\x01\x22))", full: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) operator=\x22+\x22 value=(int value=\x22\xff\x01\x22 expression=6-7) operator=3-5 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atOP_ASGN 3-5 +=\x0atINTEGER 6-7 \xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa -= \xffd", shape: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22) operator=\x22-\x22 value=(int value=\x22\xff\x01\x22))", full: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) operator=\x22-\x22 value=(int value=\x22\xff\x01\x22 expression=6-7) operator=3-5 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atOP_ASGN 3-5 -=\x0atINTEGER 6-7 \xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa *= \xffd", shape: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22) operator=\x22*\x22 value=(int value=\x22\xff\x01\x22))", full: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) operator=\x22*\x22 value=(int value=\x22\xff\x01\x22 expression=6-7) operator=3-5 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atOP_ASGN 3-5 *=\x0atINTEGER 6-7 \xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa /= \xffd", shape: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22) operator=\x22/\x22 value=(int value=\x22\xff\x01\x22))", full: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) operator=\x22/\x22 value=(int value=\x22\xff\x01\x22 expression=6-7) operator=3-5 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atOP_ASGN 3-5 /=\x0atINTEGER 6-7 \xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa **= \xffd", shape: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22) operator=\x22**\x22 value=(int value=\x22\xff\x01\x22))", full: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) operator=\x22**\x22 value=(int value=\x22\xff\x01\x22 expression=7-8) operator=3-6 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atOP_ASGN 3-6 **=\x0atINTEGER 7-8 \xff\x01\x0aEOF 8-8 " },
    Rec { t: b"v\xffa %= \xffd", shape: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22) operator=\x22%\x22 value=(int value=\x22\xff\x01\x22))", full: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) operator=\x22%\x22 value=(int value=\x22\xff\x01\x22 expression=6-7) operator=3-5 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atOP_ASGN 3-5 %=\x0atINTEGER 6-7 \xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa |= \xffd", shape: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22) operator=\x22|\x22 value=(int value=\x22\xff\x01\x22))", full: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) operator=\x22|\x22 value=(int value=\x22\xff\x01\x22 expression=6-7) operator=3-5 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atOP_ASGN 3-5 |=\x0atINTEGER 6-7 \xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa &= \xffd", shape: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22) operator=\x22&\x22 value=(int value=\x22\xff\x01\x22))", full: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) operator=\x22&\x22 value=(int value=\x22\xff\x01\x22 expression=6-7) operator=3-5 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atOP_ASGN 3-5 &=\x0atINTEGER 6-7 \xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa ^= \xffd", shape: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22) operator=\x22^\x22 value=(int value=\x22\xff\x01\x22))", full: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) operator=\x22^\x22 value=(int value=\x22\xff\x01\x22 expression=6-7) operator=3-5 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atOP_ASGN 3-5 ^=\x0atINTEGER 6-7 \xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa <<= \xffd", shape: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22) operator=\x22<<\x22 value=(int value=\x22\xff\x01\x22))", full: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) operator=\x22<<\x22 value=(int value=\x22\xff\x01\x22 expression=7-8) operator=3-6 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atOP_ASGN 3-6 <<=\x0atINTEGER 7-8 \xff\x01\x0aEOF 8-8 " },
    Rec { t: b"v\xffa >>= \xffd", shape: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22) operator=\x22>>\x22 value=(int value=\x22\xff\x01\x22))", full: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) operator=\x22>>\x22 value=(int value=\x22\xff\x01\x22 expression=7-8) operator=3-6 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atOP_ASGN 3-6 >>=\x0atINTEGER 7-8 \xff\x01\x0aEOF 8-8 " },
    Rec { t: b"v\xffa ||= \xffd", shape: b"(or_asgn recv=(lvasgn name=\x22v\xff\x00\x22) value=(int value=\x22\xff\x01\x22))", full: b"(or_asgn recv=(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) value=(int value=\x22\xff\x01\x22 expression=7-8) operator=3-6 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atOP_ASGN 3-6 ||=\x0atINTEGER 7-8 \xff\x01\x0aEOF 8-8 " },
    Rec { t: b"v\xffa &&= \xffd", shape: b"(and_asgn recv=(lvasgn name=\x22v\xff\x00\x22) value=(int value=\x22\xff\x01\x22))", full: b"(and_asgn recv=(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) value=(int value=\x22\xff\x01\x22 expression=7-8) operator=3-6 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atOP_ASGN 3-6 &&=\x0atINTEGER 7-8 \xff\x01\x0aEOF 8-8 " },
    Rec { t: b"@v\xffa += \xffd", shape: b"(op_asgn recv=(ivasgn name=\x22@v\xff\x00\x22) operator=\x22+\x22 value=(int value=\x22\xff\x01\x22))", full: b"(op_asgn recv=(ivasgn name=\x22@v\xff\x00\x22 name=0-3 expression=0-3) operator=\x22+\x22 value=(int value=\x22\xff\x01\x22 expression=7-8) operator=4-6 expression=0-8)", diag: b"", toks: b"\x0atIVAR 0-3 @v\xff\x00\x0atOP_ASGN 4-6 +=\x0atINTEGER 7-8 \xff\x01\x0aEOF 8-8 " },
    Rec { t: b"@v\xffa ||= \xffd", shape: b"(or_asgn recv=(ivasgn name=\x22@v\xff\x00\x22) value=(int value=\x22\xff\x01\x22))", full: b"(or_asgn recv=(ivasgn name=\x22@v\xff\x00\x22 name=0-3 expression=0-3) value=(int value=\x22\xff\x01\x22 expression=8-9) operator=4-7 expression=0-9)", diag: b"", toks: b"\x0atIVAR 0-3 @v\xff\x00\x0atOP_ASGN 4-7 ||=\x0atINTEGER 8-9 \xff\x01\x0aEOF 9-9 " },
    Rec { t: b"@v\xffa &&= \xffd", shape: b"(and_asgn recv=(ivasgn name=\x22@v\xff\x00\x22) value=(int value=\x22\xff\x01\x22))", full: b"(and_asgn recv=(ivasgn name=\x22@v\xff\x00\x22 name=0-3 expression=0-3) value=(int value=\x22\xff\x01\x22 expression=8-9) operator=4-7 expression=0-9)", diag: b"", toks: b"\x0atIVAR 0-3 @v\xff\x00\x0atOP_ASGN 4-7 &&=\x0atINTEGER 8-9 \xff\x01\x0aEOF 9-9 " },
    Rec { t: b"@@v\xffa += \xffd", shape: b"(op_asgn recv=(cvasgn name=\x22@@v\xff\x00\x22) operator=\x22+\x22 value=(int value=\x22\xff\x01\x22))", full: b"(op_asgn recv=(cvasgn name=\x22@@v\xff\x00\x22 name=0-4 expression=0-4) operator=\x22+\x22 value=(int value=\x22\xff\x01\x22 expression=8-9) operator=5-7 expression=0-9)", diag: b"", toks: b"\x0atCVAR 0-4 @@v\xff\x00\x0atOP_ASGN 5-7 +=\x0atINTEGER 8-9 \xff\x01\x0aEOF 9-9 " },
    Rec { t: b"@@v\xffa ||= \xffd", shape: b"(or_asgn recv=(cvasgn name=\x22@@v\xff\x00\x22) value=(int value=\x22\xff\x01\x22))", full: b"(or_asgn recv=(cvasgn name=\x22@@v\xff\x00\x22 name=0-4 expression=0-4) value=(int value=\x22\xff\x01\x22 expression=9-10) operator=5-8 expression=0-10)", diag: b"", toks: b"\x0atCVAR 0-4 @@v\xff\x00\x0atOP_ASGN 5-8 ||=\x0atINTEGER 9-10 \xff\x01\x0aEOF 10-10 " },
    Rec { t: b"$v\xffa += \xffd", shape: b"(op_asgn recv=(gvasgn name=\x22$v\xff\x00\x22) operator=\x22+\x22 value=(int value=\x22\xff\x01\x22))", full: b"(op_asgn recv=(gvasgn name=\x22$v\xff\x00\x22 name=0-3 expression=0-3) operator=\x22+\x22 value=(int value=\x22\xff\x01\x22 expression=7-8) operator=4-6 expression=0-8)", diag: b"", toks: b"\x0atGVAR 0-3 $v\xff\x00\x0atOP_ASGN 4-6 +=\x0atINTEGER 7-8 \xff\x01\x0aEOF 8-8 " },
    Rec { t: b"$v\xffa ||= \xffd", shape: b"(or_asgn recv=(gvasgn name=\x22$v\xff\x00\x22) value=(int value=\x22\xff\x01\x22))", full: b"(or_asgn recv=(gvasgn name=\x22$v\xff\x00\x22 name=0-3 expression=0-3) value=(int value=\x22\xff\x01\x22 expression=8-9) operator=4-7 expression=0-9)", diag: b"", toks: b"\x0atGVAR 0-3 $v\xff\x00\x0atOP_ASGN 4-7 ||=\x0atINTEGER 8-9 \xff\x01\x0aEOF 9-9 " },
    Rec { t: b"V\xffb += \xffd", shape: b"(op_asgn recv=(casgn name=\x22V\xff\x00\x22) operator=\x22+\x22 value=(int value=\x22\xff\x01\x22))", full: b"(op_asgn recv=(casgn name=\x22V\xff\x00\x22 name=0-2 expression=0-2) operator=\x22+\x22 value=(int value=\x22\xff\x01\x22 expression=6-7) operator=3-5 expression=0-7)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atOP_ASGN 3-5 +=\x0atINTEGER 6-7 \xff\x01\x0aEOF 7-7 " },
    Rec { t: b"V\xffb ||= \xffd", shape: b"(or_asgn recv=(casgn name=\x22V\xff\x00\x22) value=(int value=\x22\xff\x01\x22))", full: b"(or_asgn recv=(casgn name=\x22V\xff\x00\x22 name=0-2 expression=0-2) value=(int value=\x22\xff\x01\x22 expression=7-8) operator=3-6 expression=0-8)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atOP_ASGN 3-6 ||=\x0atINTEGER 7-8 \xff\x01\x0aEOF 8-8 " },
    Rec { t: b"V\xffb &&= \xffd", shape: b"(and_asgn recv=(casgn name=\x22V\xff\x00\x22) value=(int value=\x22\xff\x01\x22))", full: b"(and_asgn recv=(casgn name=\x22V\xff\x00\x22 name=0-2 expression=0-2) value=(int value=\x22\xff\x01\x22 expression=7-8) operator=3-6 expression=0-8)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atOP_ASGN 3-6 &&=\x0atINTEGER 7-8 \xff\x01\x0aEOF 8-8 " },
    Rec { t: b"::V\xffb += \xffd", shape: b"(op_asgn recv=(casgn scope=(cbase) name=\x22V\xff\x00\x22) operator=\x22+\x22 value=(int value=\x22\xff\x01\x22))", full: b"(op_asgn recv=(casgn scope=(cbase expression=0-2) name=\x22V\xff\x00\x22 double_colon=0-2 name=2-4 expression=0-4) operator=\x22+\x22 value=(int value=\x22\xff\x01\x22 expression=8-9) operator=5-7 expression=0-9)", diag: b"", toks: b"\x0atCOLON3 0-2 ::\x0atCONSTANT 2-4 V\xff\x00\x0atOP_ASGN 5-7 +=\x0atINTEGER 8-9 \xff\x01\x0aEOF 9-9 " },
    Rec { t: b"::V\xffb ||= \xffd", shape: b"(or_asgn recv=(casgn scope=(cbase) name=\x22V\xff\x00\x22) value=(int value=\x22\xff\x01\x22))", full: b"(or_asgn recv=(casgn scope=(cbase expression=0-2) name=\x22V\xff\x00\x22 double_colon=0-2 name=2-4 expression=0-4) value=(int value=\x22\xff\x01\x22 expression=9-10) operator=5-8 expression=0-10)", diag: b"", toks: b"\x0atCOLON3 0-2 ::\x0atCONSTANT 2-4 V\xff\x00\x0atOP_ASGN 5-8 ||=\x0atINTEGER 9-10 \xff\x01\x0aEOF 10-10 " },
    Rec { t: b"V\xffb::W\xffb += \xffd", shape: b"(op_asgn recv=(casgn scope=(const name=\x22V\xff\x00\x22) name=\x22W\xff\x01\x22) operator=\x22+\x22 value=(int value=\x22\xff\x02\x22))", full: b"(op_asgn recv=(casgn scope=(const name=\x22V\xff\x00\x22 name=0-2 expression=0-2) name=\x22W\xff\x01\x22 double_colon=2-4 name=4-6 expression=0-6) operator=\x22+\x22 value=(int value=\x22\xff\x02\x22 expression=10-11) operator=7-9 expression=0-11)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atCOLON2 2-4 ::\x0atCONSTANT 4-6 W\xff\x01\x0atOP_ASGN 7-9 +=\x0atINTEGER 10-11 \xff\x02\x0aEOF 11-11 " },
    Rec { t: b"V\xffb::W\xffb ||= \xffd", shape: b"(or_asgn recv=(casgn scope=(const name=\x22V\xff\x00\x22) name=\x22W\xff\x01\x22) value=(int value=\x22\xff\x02\x22))", full: b"(or_asgn recv=(casgn scope=(const name=\x22V\xff\x00\x22 name=0-2 expression=0-2) name=\x22W\xff\x01\x22 double_colon=2-4 name=4-6 expression=0-6) value=(int value=\x22\xff\x02\x22 expression=11-12) operator=7-10 expression=0-12)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atCOLON2 2-4 ::\x0atCONSTANT 4-6 W\xff\x01\x0atOP_ASGN 7-10 ||=\x0atINTEGER 11-12 \xff\x02\x0aEOF 12-12 " },
    Rec { t: b"v\xffa.x\xffa += \xffd", shape: b"(op_asgn recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) operator=\x22+\x22 value=(int value=\x22\xff\x02\x22))", full: b"(op_asgn recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-3 selector=3-5 expression=0-5) operator=\x22+\x22 value=(int value=\x22\xff\x02\x22 expression=9-10) operator=6-8 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atOP_ASGN 6-8 +=\x0atINTEGER 9-10 \xff\x02\x0aEOF 10-10 " },
    Rec { t: b"v\xffa.x\xffa ||= \xffd", shape: b"(or_asgn recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) value=(int value=\x22\xff\x02\x22))", full: b"(or_asgn recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-3 selector=3-5 expression=0-5) value=(int value=\x22\xff\x02\x22 expression=10-11) operator=6-9 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atOP_ASGN 6-9 ||=\x0atINTEGER 10-11 \xff\x02\x0aEOF 11-11 " },
    Rec { t: b"v\xffa.x\xffa &&= \xffd", shape: b"(and_asgn recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) value=(int value=\x22\xff\x02\x22))", full: b"(and_asgn recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-3 selector=3-5 expression=0-5) value=(int value=\x22\xff\x02\x22 expression=10-11) operator=6-9 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atOP_ASGN 6-9 &&=\x0atINTEGER 10-11 \xff\x02\x0aEOF 11-11 " },
    Rec { t: b"v\xffa&.x\xffa += \xffd", shape: b"(op_asgn recv=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) operator=\x22+\x22 value=(int value=\x22\xff\x02\x22))", full: b"(op_asgn recv=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-4 selector=4-6 expression=0-6) operator=\x22+\x22 value=(int value=\x22\xff\x02\x22 expression=10-11) operator=7-9 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atANDDOT 2-4 &.\x0atIDENTIFIER 4-6 x\xff\x01\x0atOP_ASGN 7-9 +=\x0atINTEGER 10-11 \xff\x02\x0aEOF 11-11 " },
    Rec { t: b"v\xffa&.x\xffa ||= \xffd", shape: b"(or_asgn recv=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) value=(int value=\x22\xff\x02\x22))", full: b"(or_asgn recv=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-4 selector=4-6 expression=0-6) value=(int value=\x22\xff\x02\x22 expression=11-12) operator=7-10 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atANDDOT 2-4 &.\x0atIDENTIFIER 4-6 x\xff\x01\x0atOP_ASGN 7-10 ||=\x0atINTEGER 11-12 \xff\x02\x0aEOF 12-12 " },
    Rec { t: b"v\xffa::x\xffa += \xffd", shape: b"(op_asgn recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) operator=\x22+\x22 value=(int value=\x22\xff\x02\x22))", full: b"(op_asgn recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-4 selector=4-6 expression=0-6) operator=\x22+\x22 value=(int value=\x22\xff\x02\x22 expression=10-11) operator=7-9 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atIDENTIFIER 4-6 x\xff\x01\x0atOP_ASGN 7-9 +=\x0atINTEGER 10-11 \xff\x02\x0aEOF 11-11 " },
    Rec { t: b"v\xffa.X\xffb += \xffd", shape: b"(op_asgn recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22X\xff\x01\x22 args=[]) operator=\x22+\x22 value=(int value=\x22\xff\x02\x22))", full: b"(op_asgn recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22X\xff\x01\x22 args=[] dot=2-3 selector=3-5 expression=0-5) operator=\x22+\x22 value=(int value=\x22\xff\x02\x22 expression=9-10) operator=6-8 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atCONSTANT 3-5 X\xff\x01\x0atOP_ASGN 6-8 +=\x0atINTEGER 9-10 \xff\x02\x0aEOF 10-10 " },
    Rec { t: b"v\xffa[\xffd] += \xffd", shape: b"(op_asgn recv=(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(int value=\x22\xff\x01\x22)]) operator=\x22+\x22 value=(int value=\x22\xff\x02\x22))", full: b"(op_asgn recv=(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(int value=\x22\xff\x01\x22 expression=3-4)] begin=2-3 end=4-5 expression=0-5) operator=\x22+\x22 value=(int value=\x22\xff\x02\x22 expression=9-10) operator=6-8 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atINTEGER 3-4 \xff\x01\x0atRBRACK 4-5 ]\x0atOP_ASGN 6-8 +=\x0atINTEGER 9-10 \xff\x02\x0aEOF 10-10 " },
    Rec { t: b"v\xffa[\xffd] ||= \xffd", shape: b"(or_asgn recv=(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(int value=\x22\xff\x01\x22)]) value=(int value=\x22\xff\x02\x22))", full: b"(or_asgn recv=(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(int value=\x22\xff\x01\x22 expression=3-4)] begin=2-3 end=4-5 expression=0-5) value=(int value=\x22\xff\x02\x22 expression=10-11) operator=6-9 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atINTEGER 3-4 \xff\x01\x0atRBRACK 4-5 ]\x0atOP_ASGN 6-9 ||=\x0atINTEGER 10-11 \xff\x02\x0aEOF 11-11 " },
    Rec { t: b"v\xffa[\xffd, x\xffa] &&= \xffd", shape: b"(and_asgn recv=(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(int value=\x22\xff\x01\x22) (send method_name=\x22x\xff\x02\x22 args=[])]) value=(int value=\x22\xff\x03\x22))", full: b"(and_asgn recv=(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(int value=\x22\xff\x01\x22 expression=3-4) (send method_name=\x22x\xff\x02\x22 args=[] selector=6-8 expression=6-8)] begin=2-3 end=8-9 expression=0-9) value=(int value=\x22\xff\x03\x22 expression=14-15) operator=10-13 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atINTEGER 3-4 \xff\x01\x0atCOMMA 4-5 ,\x0atIDENTIFIER 6-8 x\xff\x02\x0atRBRACK 8-9 ]\x0atOP_ASGN 10-13 &&=\x0atINTEGER 14-15 \xff\x03\x0aEOF 15-15 " },
    Rec { t: b"v\xffa[] += \xffd", shape: b"(op_asgn recv=(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[]) operator=\x22+\x22 value=(int value=\x22\xff\x01\x22))", full: b"(op_asgn recv=(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[] begin=2-3 end=3-4 expression=0-4) operator=\x22+\x22 value=(int value=\x22\xff\x01\x22 expression=8-9) operator=5-7 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atRBRACK 3-4 ]\x0atOP_ASGN 5-7 +=\x0atINTEGER 8-9 \xff\x01\x0aEOF 9-9 " },
    Rec { t: b"v\xffa += x\xffa z\xffa", shape: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22) operator=\x22+\x22 value=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[])]))", full: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) operator=\x22+\x22 value=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[] selector=9-11 expression=9-11)] selector=6-8 expression=6-11) operator=3-5 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atOP_ASGN 3-5 +=\x0atIDENTIFIER 6-8 x\xff\x01\x0atIDENTIFIER 9-11 z\xff\x02\x0aEOF 11-11 " },
    Rec { t: b"v\xffa.x\xffa += z\xffa q\xffa", shape: b"(op_asgn recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) operator=\x22+\x22 value=(send method_name=\x22z\xff\x02\x22 args=[(send method_name=\x22q\xff\x03\x22 args=[])]))", full: b"(op_asgn recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-3 selector=3-5 expression=0-5) operator=\x22+\x22 value=(send method_name=\x22z\xff\x02\x22 args=[(send method_name=\x22q\xff\x03\x22 args=[] selector=12-14 expression=12-14)] selector=9-11 expression=9-14) operator=6-8 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atOP_ASGN 6-8 +=\x0atIDENTIFIER 9-11 z\xff\x02\x0atIDENTIFIER 12-14 q\xff\x03\x0aEOF 14-14 " },
    Rec { t: b"v\xffa[\xffd] += z\xffa q\xffa", shape: b"(op_asgn recv=(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(int value=\x22\xff\x01\x22)]) operator=\x22+\x22 value=(send method_name=\x22z\xff\x02\x22 args=[(send method_name=\x22q\xff\x03\x22 args=[])]))", full: b"(op_asgn recv=(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(int value=\x22\xff\x01\x22 expression=3-4)] begin=2-3 end=4-5 expression=0-5) operator=\x22+\x22 value=(send method_name=\x22z\xff\x02\x22 args=[(send method_name=\x22q\xff\x03\x22 args=[] selector=12-14 expression=12-14)] selector=9-11 expression=9-14) operator=6-8 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atINTEGER 3-4 \xff\x01\x0atRBRACK 4-5 ]\x0atOP_ASGN 6-8 +=\x0atIDENTIFIER 9-11 z\xff\x02\x0atIDENTIFIER 12-14 q\xff\x03\x0aEOF 14-14 " },
    Rec { t: b"V\xffb += x\xffa z\xffa", shape: b"(op_asgn recv=(casgn name=\x22V\xff\x00\x22) operator=\x22+\x22 value=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[])]))", full: b"(op_asgn recv=(casgn name=\x22V\xff\x00\x22 name=0-2 expression=0-2) operator=\x22+\x22 value=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[] selector=9-11 expression=9-11)] selector=6-8 expression=6-11) operator=3-5 expression=0-11)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atOP_ASGN 3-5 +=\x0atIDENTIFIER 6-8 x\xff\x01\x0atIDENTIFIER 9-11 z\xff\x02\x0aEOF 11-11 " },
    Rec { t: b"v\xffa += \xffd rescue x\xffa", shape: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22) operator=\x22+\x22 value=(rescue body=(int value=\x22\xff\x01\x22) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x02\x22 args=[]))]))", full: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) operator=\x22+\x22 value=(rescue body=(int value=\x22\xff\x01\x22 expression=6-7) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x02\x22 args=[] selector=15-17 expression=15-17) keyword=8-14 expression=8-17)] expression=6-17) operator=3-5 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atOP_ASGN 3-5 +=\x0atINTEGER 6-7 \xff\x01\x0akRESCUE_MOD 8-14 rescue\x0atIDENTIFIER 15-17 x\xff\x02\x0aEOF 17-17 " },
    Rec { t: b"v\xffa.x\xffa += \xffd rescue z\xffa", shape: b"(op_asgn recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) operator=\x22+\x22 value=(rescue body=(int value=\x22\xff\x02\x22) rescue_bodies=[(rescue_body body=(send method_name=\x22z\xff\x03\x22 args=[]))]))", full: b"(op_asgn recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-3 selector=3-5 expression=0-5) operator=\x22+\x22 value=(rescue body=(int value=\x22\xff\x02\x22 expression=9-10) rescue_bodies=[(rescue_body body=(send method_name=\x22z\xff\x03\x22 args=[] selector=18-20 expression=18-20) keyword=11-17 expression=11-20)] expression=9-20) operator=6-8 expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atOP_ASGN 6-8 +=\x0atINTEGER 9-10 \xff\x02\x0akRESCUE_MOD 11-17 rescue\x0atIDENTIFIER 18-20 z\xff\x03\x0aEOF 20-20 " },
    Rec { t: b"v\xffa[\xffd] += \xffd rescue z\xffa", shape: b"(op_asgn recv=(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(int value=\x22\xff\x01\x22)]) operator=\x22+\x22 value=(rescue body=(int value=\x22\xff\x02\x22) rescue_bodies=[(rescue_body body=(send method_name=\x22z\xff\x03\x22 args=[]))]))", full: b"(op_asgn recv=(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(int value=\x22\xff\x01\x22 expression=3-4)] begin=2-3 end=4-5 expression=0-5) operator=\x22+\x22 value=(rescue body=(int value=\x22\xff\x02\x22 expression=9-10) rescue_bodies=[(rescue_body body=(send method_name=\x22z\xff\x03\x22 args=[] selector=18-20 expression=18-20) keyword=11-17 expression=11-20)] expression=9-20) operator=6-8 expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atINTEGER 3-4 \xff\x01\x0atRBRACK 4-5 ]\x0atOP_ASGN 6-8 +=\x0atINTEGER 9-10 \xff\x02\x0akRESCUE_MOD 11-17 rescue\x0atIDENTIFIER 18-20 z\xff\x03\x0aEOF 20-20 " },
    Rec { t: b"v\xffa += x\xffa z\xffa rescue \xffd", shape: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22) operator=\x22+\x22 value=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[])]) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x03\x22))]))", full: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) operator=\x22+\x22 value=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[] selector=9-11 expression=9-11)] selector=6-8 expression=6-11) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x03\x22 expression=19-20) keyword=12-18 expression=12-20)] expression=6-20) operator=3-5 expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atOP_ASGN 3-5 +=\x0atIDENTIFIER 6-8 x\xff\x01\x0atIDENTIFIER 9-11 z\xff\x02\x0akRESCUE_MOD 12-18 rescue\x0atINTEGER 19-20 \xff\x03\x0aEOF 20-20 " },
];
pub static MASGN: &[Rec] = &[
    Rec { t: b"v\xffa, x\xffa = \xffd, \xffd", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (lvasgn name=\x22x\xff\x01\x22)]) rhs=(array elements=[(int value=\x22\xff\x02\x22) (int value=\x22\xff\x03\x22)]))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) (lvasgn name=\x22x\xff\x01\x22 name=4-6 expression=4-6)] expression=0-6) rhs=(array elements=[(int value=\x22\xff\x02\x22 expression=9-10) (int value=\x22\xff\x03\x22 expression=12-13)] expression=9-13) operator=7-8 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOMMA 2-3 ,\x0atIDENTIFIER 4-6 x\xff\x01\x0atEQL 7-8 =\x0atINTEGER 9-10 \xff\x02\x0atCOMMA 10-11 ,\x0atINTEGER 12-13 \xff\x03\x0aEOF 13-13 " },
    Rec { t: b"v\xffa, x\xffa = z\xffa", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (lvasgn name=\x22x\xff\x01\x22)]) rhs=(send method_name=\x22z\xff\x02\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) (lvasgn name=\x22x\xff\x01\x22 name=4-6 expression=4-6)] expression=0-6) rhs=(send method_name=\x22z\xff\x02\x22 args=[] selector=9-11 expression=9-11) operator=7-8 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOMMA 2-3 ,\x0atIDENTIFIER 4-6 x\xff\x01\x0atEQL 7-8 =\x0atIDENTIFIER 9-11 z\xff\x02\x0aEOF 11-11 " },
    Rec { t: b"v\xffa, x\xffa = *z\xffa", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (lvasgn name=\x22x\xff\x01\x22)]) rhs=(array elements=[(splat value=(send method_name=\x22z\xff\x02\x22 args=[]))]))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) (lvasgn name=\x22x\xff\x01\x22 name=4-6 expression=4-6)] expression=0-6) rhs=(array elements=[(splat value=(send method_name=\x22z\xff\x02\x22 args=[] selector=10-12 expression=10-12) operator=9-10 expression=9-12)] expression=9-12) operator=7-8 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOMMA 2-3 ,\x0atIDENTIFIER 4-6 x\xff\x01\x0atEQL 7-8 =\x0atSTAR 9-10 *\x0atIDENTIFIER 10-12 z\xff\x02\x0aEOF 12-12 " },
    Rec { t: b"v\xffa, = z\xffa", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22)]) rhs=(send method_name=\x22z\xff\x01\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2)] expression=0-2) rhs=(send method_name=\x22z\xff\x01\x22 args=[] selector=6-8 expression=6-8) operator=4-5 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOMMA 2-3 ,\x0atEQL 4-5 =\x0atIDENTIFIER 6-8 z\xff\x01\x0aEOF 8-8 " },
    Rec { t: b"(v\xffa, x\xffa) = z\xffa", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (lvasgn name=\x22x\xff\x01\x22)]) rhs=(send method_name=\x22z\xff\x02\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=1-3 expression=1-3) (lvasgn name=\x22x\xff\x01\x22 name=5-7 expression=5-7)] begin=0-1 end=7-8 expression=0-8) rhs=(send method_name=\x22z\xff\x02\x22 args=[] selector=11-13 expression=11-13) operator=9-10 expression=0-13)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atIDENTIFIER 1-3 v\xff\x00\x0atCOMMA 3-4 ,\x0atIDENTIFIER 5-7 x\xff\x01\x0atRPAREN 7-8 )\x0atEQL 9-10 =\x0atIDENTIFIER 11-13 z\xff\x02\x0aEOF 13-13 " },
    Rec { t: b"(v\xffa, x\xffa), z\xffa = \xffd", shape: b"(masgn lhs=(mlhs items=[(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (lvasgn name=\x22x\xff\x01\x22)]) (lvasgn name=\x22z\xff\x02\x22)]) rhs=(int value=\x22\xff\x03\x22))", full: b"(masgn lhs=(mlhs items=[(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=1-3 expression=1-3) (lvasgn name=\x22x\xff\x01\x22 name=5-7 expression=5-7)] begin=0-1 end=7-8 expression=0-8) (lvasgn name=\x22z\xff\x02\x22 name=10-12 expression=10-12)] expression=0-12) rhs=(int value=\x22\xff\x03\x22 expression=15-16) operator=13-14 expression=0-16)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atIDENTIFIER 1-3 v\xff\x00\x0atCOMMA 3-4 ,\x0atIDENTIFIER 5-7 x\xff\x01\x0atRPAREN 7-8 )\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 z\xff\x02\x0atEQL 13-14 =\x0atINTEGER 15-16 \xff\x03\x0aEOF 16-16 " },
    Rec { t: b"((v\xffa)) = \xffd", shape: b"(begin statements=[(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])])])", full: b"(begin statements=[(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=2-4 expression=2-4)] begin=1-2 end=4-5 expression=1-5)] begin=0-1 end=5-6 expression=0-6)", diag: b"\x0aE 7-8 unexpected tEQL", toks: b"\x0atLPAREN 0-1 (\x0atLPAREN 1-2 (\x0atIDENTIFIER 2-4 v\xff\x00\x0atRPAREN 4-5 )\x0atRPAREN 5-6 )\x0atEQL 7-8 =" },
    Rec { t: b"(v\xffa, (x\xffa, z\xffa)), q\xffa = \xffd", shape: b"(masgn lhs=(mlhs items=[(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (mlhs items=[(lvasgn name=\x22x\xff\x01\x22) (lvasgn name=\x22z\xff\x02\x22)])]) (lvasgn name=\x22q\xff\x03\x22)]) rhs=(int value=\x22\xff\x04\x22))", full: b"(masgn lhs=(mlhs items=[(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=1-3 expression=1-3) (mlhs items=[(lvasgn name=\x22x\xff\x01\x22 name=6-8 expression=6-8) (lvasgn name=\x22z\xff\x02\x22 name=10-12 expression=10-12)] begin=5-6 end=12-13 expression=5-13)] begin=0-1 end=13-14 expression=0-14) (lvasgn name=\x22q\xff\x03\x22 name=16-18 expression=16-18)] expression=0-18) rhs=(int value=\x22\xff\x04\x22 expression=21-22) operator=19-20 expression=0-22)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atIDENTIFIER 1-3 v\xff\x00\x0atCOMMA 3-4 ,\x0atLPAREN 5-6 (\x0atIDENTIFIER 6-8 x\xff\x01\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 z\xff\x02\x0atRPAREN 12-13 )\x0atRPAREN 13-14 )\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-18 q\xff\x03\x0atEQL 19-20 =\x0atINTEGER 21-22 \xff\x04\x0aEOF 22-22 " },
    Rec { t: b"*v\xffa = x\xffa", shape: b"(masgn lhs=(mlhs items=[(splat value=(lvasgn name=\x22v\xff\x00\x22))]) rhs=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(splat value=(lvasgn name=\x22v\xff\x00\x22 name=1-3 expression=1-3) operator=0-1 expression=0-3)] expression=0-3) rhs=(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8) operator=4-5 expression=0-8)", diag: b"", toks: b"\x0atSTAR 0-1 *\x0atIDENTIFIER 1-3 v\xff\x00\x0atEQL 4-5 =\x0atIDENTIFIER 6-8 x\xff\x01\x0aEOF 8-8 " },
    Rec { t: b"*v\xffa, x\xffa = z\xffa", shape: b"(masgn lhs=(mlhs items=[(splat value=(lvasgn name=\x22v\xff\x00\x22)) (lvasgn name=\x22x\xff\x01\x22)]) rhs=(send method_name=\x22z\xff\x02\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(splat value=(lvasgn name=\x22v\xff\x00\x22 name=1-3 expression=1-3) operator=0-1 expression=0-3) (lvasgn name=\x22x\xff\x01\x22 name=5-7 expression=5-7)] expression=0-7) rhs=(send method_name=\x22z\xff\x02\x22 args=[] selector=10-12 expression=10-12) operator=8-9 expression=0-12)", diag: b"", toks: b"\x0atSTAR 0-1 *\x0atIDENTIFIER 1-3 v\xff\x00\x0atCOMMA 3-4 ,\x0atIDENTIFIER 5-7 x\xff\x01\x0atEQL 8-9 =\x0atIDENTIFIER 10-12 z\xff\x02\x0aEOF 12-12 " },
    Rec { t: b"v\xffa, *x\xffa = z\xffa", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (splat value=(lvasgn name=\x22x\xff\x01\x22))]) rhs=(send method_name=\x22z\xff\x02\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) (splat value=(lvasgn name=\x22x\xff\x01\x22 name=5-7 expression=5-7) operator=4-5 expression=4-7)] expression=0-7) rhs=(send method_name=\x22z\xff\x02\x22 args=[] selector=10-12 expression=10-12) operator=8-9 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOMMA 2-3 ,\x0atSTAR 4-5 *\x0atIDENTIFIER 5-7 x\xff\x01\x0atEQL 8-9 =\x0atIDENTIFIER 10-12 z\xff\x02\x0aEOF 12-12 " },
    Rec { t: b"v\xffa, *x\xffa, z\xffa = q\xffa", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (splat value=(lvasgn name=\x22x\xff\x01\x22)) (lvasgn name=\x22z\xff\x02\x22)]) rhs=(send method_name=\x22q\xff\x03\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) (splat value=(lvasgn name=\x22x\xff\x01\x22 name=5-7 expression=5-7) operator=4-5 expression=4-7) (lvasgn name=\x22z\xff\x02\x22 name=9-11 expression=9-11)] expression=0-11) rhs=(send method_name=\x22q\xff\x03\x22 args=[] selector=14-16 expression=14-16) operator=12-13 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOMMA 2-3 ,\x0atSTAR 4-5 *\x0atIDENTIFIER 5-7 x\xff\x01\x0atCOMMA 7-8 ,\x0atIDENTIFIER 9-11 z\xff\x02\x0atEQL 12-13 =\x0atIDENTIFIER 14-16 q\xff\x03\x0aEOF 16-16 " },
    Rec { t: b"*, v\xffa = x\xffa", shape: b"(masgn lhs=(mlhs items=[(splat) (lvasgn name=\x22v\xff\x00\x22)]) rhs=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(splat operator=0-1 expression=0-1) (lvasgn name=\x22v\xff\x00\x22 name=3-5 expression=3-5)] expression=0-5) rhs=(send method_name=\x22x\xff\x01\x22 args=[] selector=8-10 expression=8-10) operator=6-7 expression=0-10)", diag: b"", toks: b"\x0atSTAR 0-1 *\x0atCOMMA 1-2 ,\x0atIDENTIFIER 3-5 v\xff\x00\x0atEQL 6-7 =\x0atIDENTIFIER 8-10 x\xff\x01\x0aEOF 10-10 " },
    Rec { t: b"v\xffa, * = x\xffa", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (splat)]) rhs=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) (splat operator=4-5 expression=4-5)] expression=0-5) rhs=(send method_name=\x22x\xff\x01\x22 args=[] selector=8-10 expression=8-10) operator=6-7 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOMMA 2-3 ,\x0atSTAR 4-5 *\x0atEQL 6-7 =\x0atIDENTIFIER 8-10 x\xff\x01\x0aEOF 10-10 " },
    Rec { t: b"v\xffa, *, x\xffa = z\xffa", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (splat) (lvasgn name=\x22x\xff\x01\x22)]) rhs=(send method_name=\x22z\xff\x02\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) (splat operator=4-5 expression=4-5) (lvasgn name=\x22x\xff\x01\x22 name=7-9 expression=7-9)] expression=0-9) rhs=(send method_name=\x22z\xff\x02\x22 args=[] selector=12-14 expression=12-14) operator=10-11 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOMMA 2-3 ,\x0atSTAR 4-5 *\x0atCOMMA 5-6 ,\x0atIDENTIFIER 7-9 x\xff\x01\x0atEQL 10-11 =\x0atIDENTIFIER 12-14 z\xff\x02\x0aEOF 14-14 " },
    Rec { t: b"* = v\xffa", shape: b"(masgn lhs=(mlhs items=[(splat)]) rhs=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(splat operator=0-1 expression=0-1)] expression=0-1) rhs=(send method_name=\x22v\xff\x00\x22 args=[] selector=4-6 expression=4-6) operator=2-3 expression=0-6)", diag: b"", toks: b"\x0atSTAR 0-1 *\x0atEQL 2-3 =\x0atIDENTIFIER 4-6 v\xff\x00\x0aEOF 6-6 " },
    Rec { t: b"@v\xffa, @@x\xffa = \xffd, \xffd", shape: b"(masgn lhs=(mlhs items=[(ivasgn name=\x22@v\xff\x00\x22) (cvasgn name=\x22@@x\xff\x01\x22)]) rhs=(array elements=[(int value=\x22\xff\x02\x22) (int value=\x22\xff\x03\x22)]))", full: b"(masgn lhs=(mlhs items=[(ivasgn name=\x22@v\xff\x00\x22 name=0-3 expression=0-3) (cvasgn name=\x22@@x\xff\x01\x22 name=5-9 expression=5-9)] expression=0-9) rhs=(array elements=[(int value=\x22\xff\x02\x22 expression=12-13) (int value=\x22\xff\x03\x22 expression=15-16)] expression=12-16) operator=10-11 expression=0-16)", diag: b"", toks: b"\x0atIVAR 0-3 @v\xff\x00\x0atCOMMA 3-4 ,\x0atCVAR 5-9 @@x\xff\x01\x0atEQL 10-11 =\x0atINTEGER 12-13 \xff\x02\x0atCOMMA 13-14 ,\x0atINTEGER 15-16 \xff\x03\x0aEOF 16-16 " },
    Rec { t: b"$v\xffa, V\xffb = \xffd, \xffd", shape: b"(masgn lhs=(mlhs items=[(gvasgn name=\x22$v\xff\x00\x22) (casgn name=\x22V\xff\x01\x22)]) rhs=(array elements=[(int value=\x22\xff\x02\x22) (int value=\x22\xff\x03\x22)]))", full: b"(masgn lhs=(mlhs items=[(gvasgn name=\x22$v\xff\x00\x22 name=0-3 expression=0-3) (casgn name=\x22V\xff\x01\x22 name=5-7 expression=5-7)] expression=0-7) rhs=(array elements=[(int value=\x22\xff\x02\x22 expression=10-11) (int value=\x22\xff\x03\x22 expression=13-14)] expression=10-14) operator=8-9 expression=0-14)", diag: b"", toks: b"\x0atGVAR 0-3 $v\xff\x00\x0atCOMMA 3-4 ,\x0atCONSTANT 5-7 V\xff\x01\x0atEQL 8-9 =\x0atINTEGER 10-11 \xff\x02\x0atCOMMA 11-12 ,\x0atINTEGER 13-14 \xff\x03\x0aEOF 14-14 " },
    Rec { t: b"v\xffa.x\xffa, z\xffa[\xffd] = \xffd, \xffd", shape: b"(masgn lhs=(mlhs items=[(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01=\x22 args=[]) (index_asgn recv=(send method_name=\x22z\xff\x02\x22 args=[]) indexes=[(int value=\x22\xff\x03\x22)])]) rhs=(array elements=[(int value=\x22\xff\x04\x22) (int value=\x22\xff\x05\x22)]))", full: b"(masgn lhs=(mlhs items=[(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01=\x22 args=[] dot=2-3 selector=3-5 expression=0-5) (index_asgn recv=(send method_name=\x22z\xff\x02\x22 args=[] selector=7-9 expression=7-9) indexes=[(int value=\x22\xff\x03\x22 expression=10-11)] begin=9-10 end=11-12 expression=7-12)] expression=0-12) rhs=(array elements=[(int value=\x22\xff\x04\x22 expression=15-16) (int value=\x22\xff\x05\x22 expression=18-19)] expression=15-19) operator=13-14 expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atCOMMA 5-6 ,\x0atIDENTIFIER 7-9 z\xff\x02\x0atLBRACK2 9-10 [\x0atINTEGER 10-11 \xff\x03\x0atRBRACK 11-12 ]\x0atEQL 13-14 =\x0atINTEGER 15-16 \xff\x04\x0atCOMMA 16-17 ,\x0atINTEGER 18-19 \xff\x05\x0aEOF 19-19 " },
    Rec { t: b"v\xffa&.x\xffa, z\xffa = \xffd, \xffd", shape: b"(lvasgn name=\x22z\xff\x02\x22 value=(array elements=[(int value=\x22\xff\x03\x22) (int value=\x22\xff\x04\x22)]))", full: b"(lvasgn name=\x22z\xff\x02\x22 value=(array elements=[(int value=\x22\xff\x03\x22 expression=13-14) (int value=\x22\xff\x04\x22 expression=16-17)] expression=13-17) name=8-10 operator=11-12 expression=8-17)", diag: b"\x0aE 2-4 &. inside multiple assignment destination", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atANDDOT 2-4 &.\x0atIDENTIFIER 4-6 x\xff\x01\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-10 z\xff\x02\x0atEQL 11-12 =\x0atINTEGER 13-14 \xff\x03\x0atCOMMA 14-15 ,\x0atINTEGER 16-17 \xff\x04\x0aEOF 17-17 " },
    Rec { t: b"::V\xffb, W\xffb::X\xffb = \xffd, \xffd", shape: b"(masgn lhs=(mlhs items=[(casgn scope=(cbase) name=\x22V\xff\x00\x22) (casgn scope=(const name=\x22W\xff\x01\x22) name=\x22X\xff\x02\x22)]) rhs=(array elements=[(int value=\x22\xff\x03\x22) (int value=\x22\xff\x04\x22)]))", full: b"(masgn lhs=(mlhs items=[(casgn scope=(cbase expression=0-2) name=\x22V\xff\x00\x22 double_colon=0-2 name=2-4 expression=0-4) (casgn scope=(const name=\x22W\xff\x01\x22 name=6-8 expression=6-8) name=\x22X\xff\x02\x22 double_colon=8-10 name=10-12 expression=6-12)] expression=0-12) rhs=(array elements=[(int value=\x22\xff\x03\x22 expression=15-16) (int value=\x22\xff\x04\x22 expression=18-19)] expression=15-19) operator=13-14 expression=0-19)", diag: b"", toks: b"\x0atCOLON3 0-2 ::\x0atCONSTANT 2-4 V\xff\x00\x0atCOMMA 4-5 ,\x0atCONSTANT 6-8 W\xff\x01\x0atCOLON2 8-10 ::\x0atCONSTANT 10-12 X\xff\x02\x0atEQL 13-14 =\x0atINTEGER 15-16 \xff\x03\x0atCOMMA 16-17 ,\x0atINTEGER 18-19 \xff\x04\x0aEOF 19-19 " },
    Rec { t: b"v\xffa::x\xffa, z\xffa = \xffd", shape: b"(masgn lhs=(mlhs items=[(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01=\x22 args=[]) (lvasgn name=\x22z\xff\x02\x22)]) rhs=(int value=\x22\xff\x03\x22))", full: b"(masgn lhs=(mlhs items=[(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01=\x22 args=[] dot=2-4 selector=4-6 expression=0-6) (lvasgn name=\x22z\xff\x02\x22 name=8-10 expression=8-10)] expression=0-10) rhs=(int value=\x22\xff\x03\x22 expression=13-14) operator=11-12 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atIDENTIFIER 4-6 x\xff\x01\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-10 z\xff\x02\x0atEQL 11-12 =\x0atINTEGER 13-14 \xff\x03\x0aEOF 14-14 " },
    Rec { t: b"*v\xffa.x\xffa, z\xffa = \xffd", shape: b"(masgn lhs=(mlhs items=[(splat value=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01=\x22 args=[])) (lvasgn name=\x22z\xff\x02\x22)]) rhs=(int value=\x22\xff\x03\x22))", full: b"(masgn lhs=(mlhs items=[(splat value=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3) method_name=\x22x\xff\x01=\x22 args=[] dot=3-4 selector=4-6 expression=1-6) operator=0-1 expression=0-6) (lvasgn name=\x22z\xff\x02\x22 name=8-10 expression=8-10)] expression=0-10) rhs=(int value=\x22\xff\x03\x22 expression=13-14) operator=11-12 expression=0-14)", diag: b"", toks: b"\x0atSTAR 0-1 *\x0atIDENTIFIER 1-3 v\xff\x00\x0atDOT 3-4 .\x0atIDENTIFIER 4-6 x\xff\x01\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-10 z\xff\x02\x0atEQL 11-12 =\x0atINTEGER 13-14 \xff\x03\x0aEOF 14-14 " },
    Rec { t: b"*v\xffa[\xffd], z\xffa = \xffd", shape: b"(masgn lhs=(mlhs items=[(splat value=(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(int value=\x22\xff\x01\x22)])) (lvasgn name=\x22z\xff\x02\x22)]) rhs=(int value=\x22\xff\x03\x22))", full: b"(masgn lhs=(mlhs items=[(splat value=(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3) indexes=[(int value=\x22\xff\x01\x22 expression=4-5)] begin=3-4 end=5-6 expression=1-6) operator=0-1 expression=0-6) (lvasgn name=\x22z\xff\x02\x22 name=8-10 expression=8-10)] expression=0-10) rhs=(int value=\x22\xff\x03\x22 expression=13-14) operator=11-12 expression=0-14)", diag: b"", toks: b"\x0atSTAR 0-1 *\x0atIDENTIFIER 1-3 v\xff\x00\x0atLBRACK2 3-4 [\x0atINTEGER 4-5 \xff\x01\x0atRBRACK 5-6 ]\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-10 z\xff\x02\x0atEQL 11-12 =\x0atINTEGER 13-14 \xff\x03\x0aEOF 14-14 " },
    Rec { t: b"*@v\xffa, z\xffa = \xffd", shape: b"(masgn lhs=(mlhs items=[(splat value=(ivasgn name=\x22@v\xff\x00\x22)) (lvasgn name=\x22z\xff\x01\x22)]) rhs=(int value=\x22\xff\x02\x22))", full: b"(masgn lhs=(mlhs items=[(splat value=(ivasgn name=\x22@v\xff\x00\x22 name=1-4 expression=1-4) operator=0-1 expression=0-4) (lvasgn name=\x22z\xff\x01\x22 name=6-8 expression=6-8)] expression=0-8) rhs=(int value=\x22\xff\x02\x22 expression=11-12) operator=9-10 expression=0-12)", diag: b"", toks: b"\x0atSTAR 0-1 *\x0atIVAR 1-4 @v\xff\x00\x0atCOMMA 4-5 ,\x0atIDENTIFIER 6-8 z\xff\x01\x0atEQL 9-10 =\x0atINTEGER 11-12 \xff\x02\x0aEOF 12-12 " },
    Rec { t: b"v\xffa, x\xffa = z\xffa = \xffd, \xffd", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (lvasgn name=\x22x\xff\x01\x22)]) rhs=(array elements=[(lvasgn name=\x22z\xff\x02\x22 value=(int value=\x22\xff\x03\x22)) (int value=\x22\xff\x04\x22)]))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) (lvasgn name=\x22x\xff\x01\x22 name=4-6 expression=4-6)] expression=0-6) rhs=(array elements=[(lvasgn name=\x22z\xff\x02\x22 value=(int value=\x22\xff\x03\x22 expression=14-15) name=9-11 operator=12-13 expression=9-15) (int value=\x22\xff\x04\x22 expression=17-18)] expression=9-18) operator=7-8 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOMMA 2-3 ,\x0atIDENTIFIER 4-6 x\xff\x01\x0atEQL 7-8 =\x0atIDENTIFIER 9-11 z\xff\x02\x0atEQL 12-13 =\x0atINTEGER 14-15 \xff\x03\x0atCOMMA 15-16 ,\x0atINTEGER 17-18 \xff\x04\x0aEOF 18-18 " },
    Rec { t: b"v\xffa = x\xffa, z\xffa = \xffd, \xffd", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(array elements=[(send method_name=\x22x\xff\x01\x22 args=[]) (lvasgn name=\x22z\xff\x02\x22 value=(int value=\x22\xff\x03\x22)) (int value=\x22\xff\x04\x22)]))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(array elements=[(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7) (lvasgn name=\x22z\xff\x02\x22 value=(int value=\x22\xff\x03\x22 expression=14-15) name=9-11 operator=12-13 expression=9-15) (int value=\x22\xff\x04\x22 expression=17-18)] expression=5-18) name=0-2 operator=3-4 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atIDENTIFIER 5-7 x\xff\x01\x0atCOMMA 7-8 ,\x0atIDENTIFIER 9-11 z\xff\x02\x0atEQL 12-13 =\x0atINTEGER 14-15 \xff\x03\x0atCOMMA 15-16 ,\x0atINTEGER 17-18 \xff\x04\x0aEOF 18-18 " },
    Rec { t: b"v\xffa, x\xffa = z\xffa q\xffa", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (lvasgn name=\x22x\xff\x01\x22)]) rhs=(send method_name=\x22z\xff\x02\x22 args=[(send method_name=\x22q\xff\x03\x22 args=[])]))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) (lvasgn name=\x22x\xff\x01\x22 name=4-6 expression=4-6)] expression=0-6) rhs=(send method_name=\x22z\xff\x02\x22 args=[(send method_name=\x22q\xff\x03\x22 args=[] selector=12-14 expression=12-14)] selector=9-11 expression=9-14) operator=7-8 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOMMA 2-3 ,\x0atIDENTIFIER 4-6 x\xff\x01\x0atEQL 7-8 =\x0atIDENTIFIER 9-11 z\xff\x02\x0atIDENTIFIER 12-14 q\xff\x03\x0aEOF 14-14 " },
    Rec { t: b"v\xffa, x\xffa = \xffd, *z\xffa", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (lvasgn name=\x22x\xff\x01\x22)]) rhs=(array elements=[(int value=\x22\xff\x02\x22) (splat value=(send method_name=\x22z\xff\x03\x22 args=[]))]))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) (lvasgn name=\x22x\xff\x01\x22 name=4-6 expression=4-6)] expression=0-6) rhs=(array elements=[(int value=\x22\xff\x02\x22 expression=9-10) (splat value=(send method_name=\x22z\xff\x03\x22 args=[] selector=13-15 expression=13-15) operator=12-13 expression=12-15)] expression=9-15) operator=7-8 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOMMA 2-3 ,\x0atIDENTIFIER 4-6 x\xff\x01\x0atEQL 7-8 =\x0atINTEGER 9-10 \xff\x02\x0atCOMMA 10-11 ,\x0atSTAR 12-13 *\x0atIDENTIFIER 13-15 z\xff\x03\x0aEOF 15-15 " },
    Rec { t: b"v\xffa, x\xffa = \xffd rescue z\xffa", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (lvasgn name=\x22x\xff\x01\x22)]) rhs=(rescue body=(int value=\x22\xff\x02\x22) rescue_bodies=[(rescue_body body=(send method_name=\x22z\xff\x03\x22 args=[]))]))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) (lvasgn name=\x22x\xff\x01\x22 name=4-6 expression=4-6)] expression=0-6) rhs=(rescue body=(int value=\x22\xff\x02\x22 expression=9-10) rescue_bodies=[(rescue_body body=(send method_name=\x22z\xff\x03\x22 args=[] selector=18-20 expression=18-20) keyword=11-17 expression=11-20)] expression=9-20) operator=7-8 expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOMMA 2-3 ,\x0atIDENTIFIER 4-6 x\xff\x01\x0atEQL 7-8 =\x0atINTEGER 9-10 \xff\x02\x0akRESCUE_MOD 11-17 rescue\x0atIDENTIFIER 18-20 z\xff\x03\x0aEOF 20-20 " },
    Rec { t: b"v\xffa = (x\xffa, z\xffa = \xffd, \xffd)", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(begin statements=[(masgn lhs=(mlhs items=[(lvasgn name=\x22x\xff\x01\x22) (lvasgn name=\x22z\xff\x02\x22)]) rhs=(array elements=[(int value=\x22\xff\x03\x22) (int value=\x22\xff\x04\x22)]))]))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(begin statements=[(masgn lhs=(mlhs items=[(lvasgn name=\x22x\xff\x01\x22 name=6-8 expression=6-8) (lvasgn name=\x22z\xff\x02\x22 name=10-12 expression=10-12)] expression=6-12) rhs=(array elements=[(int value=\x22\xff\x03\x22 expression=15-16) (int value=\x22\xff\x04\x22 expression=18-19)] expression=15-19) operator=13-14 expression=6-19)] begin=5-6 end=19-20 expression=5-20) name=0-2 operator=3-4 expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atLPAREN 5-6 (\x0atIDENTIFIER 6-8 x\xff\x01\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 z\xff\x02\x0atEQL 13-14 =\x0atINTEGER 15-16 \xff\x03\x0atCOMMA 16-17 ,\x0atINTEGER 18-19 \xff\x04\x0atRPAREN 19-20 )\x0aEOF 20-20 " },
    Rec { t: b"v\xffa, (*x\xffa, z\xffa) = \xffd", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (mlhs items=[(splat value=(lvasgn name=\x22x\xff\x01\x22)) (lvasgn name=\x22z\xff\x02\x22)])]) rhs=(int value=\x22\xff\x03\x22))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) (mlhs items=[(splat value=(lvasgn name=\x22x\xff\x01\x22 name=6-8 expression=6-8) operator=5-6 expression=5-8) (lvasgn name=\x22z\xff\x02\x22 name=10-12 expression=10-12)] begin=4-5 end=12-13 expression=4-13)] expression=0-13) rhs=(int value=\x22\xff\x03\x22 expression=16-17) operator=14-15 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOMMA 2-3 ,\x0atLPAREN 4-5 (\x0atSTAR 5-6 *\x0atIDENTIFIER 6-8 x\xff\x01\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 z\xff\x02\x0atRPAREN 12-13 )\x0atEQL 14-15 =\x0atINTEGER 16-17 \xff\x03\x0aEOF 17-17 " },
    Rec { t: b"v\xffa, (x\xffa, *) = \xffd", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (mlhs items=[(lvasgn name=\x22x\xff\x01\x22) (splat)])]) rhs=(int value=\x22\xff\x02\x22))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) (mlhs items=[(lvasgn name=\x22x\xff\x01\x22 name=5-7 expression=5-7) (splat operator=9-10 expression=9-10)] begin=4-5 end=10-11 expression=4-11)] expression=0-11) rhs=(int value=\x22\xff\x02\x22 expression=14-15) operator=12-13 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOMMA 2-3 ,\x0atLPAREN 4-5 (\x0atIDENTIFIER 5-7 x\xff\x01\x0atCOMMA 7-8 ,\x0atSTAR 9-10 *\x0atRPAREN 10-11 )\x0atEQL 12-13 =\x0atINTEGER 14-15 \xff\x02\x0aEOF 15-15 " },
    Rec { t: b"v\xffa, x\xffa = z\xffa do q\xffa end", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (lvasgn name=\x22x\xff\x01\x22)]) rhs=(block call=(send method_name=\x22z\xff\x02\x22 args=[]) body=(send method_name=\x22q\xff\x03\x22 args=[])))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) (lvasgn name=\x22x\xff\x01\x22 name=4-6 expression=4-6)] expression=0-6) rhs=(block call=(send method_name=\x22z\xff\x02\x22 args=[] selector=9-11 expression=9-11) body=(send method_name=\x22q\xff\x03\x22 args=[] selector=15-17 expression=15-17) begin=12-14 end=18-21 expression=9-21) operator=7-8 expression=0-21)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOMMA 2-3 ,\x0atIDENTIFIER 4-6 x\xff\x01\x0atEQL 7-8 =\x0atIDENTIFIER 9-11 z\xff\x02\x0akDO 12-14 do\x0atIDENTIFIER 15-17 q\xff\x03\x0akEND 18-21 end\x0aEOF 21-21 " },
];
pub static OPS: &[Rec] = &[
    Rec { t: b"v\xffa + x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22+\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22+\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7)] selector=3-4 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atPLUS 3-4 +\x0atIDENTIFIER 5-7 x\xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa - x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22-\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22-\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7)] selector=3-4 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atMINUS 3-4 -\x0atIDENTIFIER 5-7 x\xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa * x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22*\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22*\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7)] selector=3-4 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atSTAR2 3-4 *\x0atIDENTIFIER 5-7 x\xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa / x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22/\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22/\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7)] selector=3-4 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDIVIDE 3-4 /\x0atIDENTIFIER 5-7 x\xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa % x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22%\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22%\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7)] selector=3-4 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atPERCENT 3-4 %\x0atIDENTIFIER 5-7 x\xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa ** x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22**\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22**\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8)] selector=3-5 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atPOW 3-5 **\x0atIDENTIFIER 6-8 x\xff\x01\x0aEOF 8-8 " },
    Rec { t: b"v\xffa | x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22|\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22|\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7)] selector=3-4 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atPIPE 3-4 |\x0atIDENTIFIER 5-7 x\xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa & x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22&\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22&\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7)] selector=3-4 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atAMPER2 3-4 &\x0atIDENTIFIER 5-7 x\xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa ^ x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22^\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22^\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7)] selector=3-4 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCARET 3-4 ^\x0atIDENTIFIER 5-7 x\xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa << x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22<<\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22<<\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8)] selector=3-5 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLSHFT 3-5 <<\x0atIDENTIFIER 6-8 x\xff\x01\x0aEOF 8-8 " },
    Rec { t: b"v\xffa >> x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22>>\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22>>\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8)] selector=3-5 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atRSHFT 3-5 >>\x0atIDENTIFIER 6-8 x\xff\x01\x0aEOF 8-8 " },
    Rec { t: b"v\xffa < x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22<\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22<\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7)] selector=3-4 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLT 3-4 <\x0atIDENTIFIER 5-7 x\xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa <= x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22<=\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22<=\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8)] selector=3-5 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLEQ 3-5 <=\x0atIDENTIFIER 6-8 x\xff\x01\x0aEOF 8-8 " },
    Rec { t: b"v\xffa > x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22>\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22>\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7)] selector=3-4 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atGT 3-4 >\x0atIDENTIFIER 5-7 x\xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa >= x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22>=\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22>=\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8)] selector=3-5 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atGEQ 3-5 >=\x0atIDENTIFIER 6-8 x\xff\x01\x0aEOF 8-8 " },
    Rec { t: b"v\xffa <=> x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22<=>\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22<=>\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9)] selector=3-6 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCMP 3-6 <=>\x0atIDENTIFIER 7-9 x\xff\x01\x0aEOF 9-9 " },
    Rec { t: b"v\xffa == x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22==\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22==\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8)] selector=3-5 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQ 3-5 ==\x0atIDENTIFIER 6-8 x\xff\x01\x0aEOF 8-8 " },
    Rec { t: b"v\xffa != x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22!=\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22!=\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8)] selector=3-5 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atNEQ 3-5 !=\x0atIDENTIFIER 6-8 x\xff\x01\x0aEOF 8-8 " },
    Rec { t: b"v\xffa === x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22===\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22===\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9)] selector=3-6 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQQ 3-6 ===\x0atIDENTIFIER 7-9 x\xff\x01\x0aEOF 9-9 " },
    Rec { t: b"v\xffa =~ x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22=~\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22=~\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8)] selector=3-5 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atMATCH 3-5 =~\x0atIDENTIFIER 6-8 x\xff\x01\x0aEOF 8-8 " },
    Rec { t: b"v\xffa !~ x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22!~\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22!~\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8)] selector=3-5 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atNMATCH 3-5 !~\x0atIDENTIFIER 6-8 x\xff\x01\x0aEOF 8-8 " },
    Rec { t: b"v\xffa && x\xffa", shape: b"(and lhs=(send method_name=\x22v\xff\x00\x22 args=[]) rhs=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(and lhs=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) rhs=(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8) operator=3-5 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atANDOP 3-5 &&\x0atIDENTIFIER 6-8 x\xff\x01\x0aEOF 8-8 " },
    Rec { t: b"v\xffa || x\xffa", shape: b"(or lhs=(send method_name=\x22v\xff\x00\x22 args=[]) rhs=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(or lhs=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) rhs=(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8) operator=3-5 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atOROP 3-5 ||\x0atIDENTIFIER 6-8 x\xff\x01\x0aEOF 8-8 " },
    Rec { t: b"v\xffa and x\xffa", shape: b"(and lhs=(send method_name=\x22v\xff\x00\x22 args=[]) rhs=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(and lhs=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) rhs=(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9) operator=3-6 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akAND 3-6 and\x0atIDENTIFIER 7-9 x\xff\x01\x0aEOF 9-9 " },
    Rec { t: b"v\xffa or x\xffa", shape: b"(or lhs=(send method_name=\x22v\xff\x00\x22 args=[]) rhs=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(or lhs=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) rhs=(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8) operator=3-5 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akOR 3-5 or\x0atIDENTIFIER 6-8 x\xff\x01\x0aEOF 8-8 " },
    Rec { t: b"not v\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22!\x22 args=[])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=4-6 expression=4-6) method_name=\x22!\x22 args=[] selector=0-3 expression=0-6)", diag: b"", toks: b"\x0akNOT 0-3 not\x0atIDENTIFIER 4-6 v\xff\x00\x0aEOF 6-6 " },
    Rec { t: b"not(v\xffa)", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22!\x22 args=[])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=4-6 expression=4-6) method_name=\x22!\x22 args=[] selector=0-3 begin=3-4 end=6-7 expression=0-7)", diag: b"", toks: b"\x0akNOT 0-3 not\x0atLPAREN2 3-4 (\x0atIDENTIFIER 4-6 v\xff\x00\x0atRPAREN 6-7 )\x0aEOF 7-7 " },
    Rec { t: b"not()", shape: b"(send recv=(begin statements=[]) method_name=\x22!\x22 args=[])", full: b"(send recv=(begin statements=[] begin=3-4 end=4-5 expression=3-5) method_name=\x22!\x22 args=[] selector=0-3 expression=0-5)", diag: b"", toks: b"\x0akNOT 0-3 not\x0atLPAREN2 3-4 (\x0atRPAREN 4-5 )\x0aEOF 5-5 " },
    Rec { t: b"!v\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22!\x22 args=[])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3) method_name=\x22!\x22 args=[] selector=0-1 expression=0-3)", diag: b"", toks: b"\x0atBANG 0-1 !\x0atIDENTIFIER 1-3 v\xff\x00\x0aEOF 3-3 " },
    Rec { t: b"!(v\xffa)", shape: b"(send recv=(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])]) method_name=\x22!\x22 args=[])", full: b"(send recv=(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=2-4 expression=2-4)] begin=1-2 end=4-5 expression=1-5) method_name=\x22!\x22 args=[] selector=0-1 expression=0-5)", diag: b"", toks: b"\x0atBANG 0-1 !\x0atLPAREN 1-2 (\x0atIDENTIFIER 2-4 v\xff\x00\x0atRPAREN 4-5 )\x0aEOF 5-5 " },
    Rec { t: b"!v\xffa x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])]) method_name=\x22!\x22 args=[])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6)] selector=1-3 expression=1-6) method_name=\x22!\x22 args=[] selector=0-1 expression=0-6)", diag: b"", toks: b"\x0atBANG 0-1 !\x0atIDENTIFIER 1-3 v\xff\x00\x0atIDENTIFIER 4-6 x\xff\x01\x0aEOF 6-6 " },
    Rec { t: b"-v\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22-@\x22 args=[])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3) method_name=\x22-@\x22 args=[] selector=0-1 expression=0-3)", diag: b"", toks: b"\x0atUMINUS 0-1 -\x0atIDENTIFIER 1-3 v\xff\x00\x0aEOF 3-3 " },
    Rec { t: b"+v\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22+@\x22 args=[])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3) method_name=\x22+@\x22 args=[] selector=0-1 expression=0-3)", diag: b"", toks: b"\x0atUPLUS 0-1 +\x0atIDENTIFIER 1-3 v\xff\x00\x0aEOF 3-3 " },
    Rec { t: b"~v\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22~\x22 args=[])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3) method_name=\x22~\x22 args=[] selector=0-1 expression=0-3)", diag: b"", toks: b"\x0atTILDE 0-1 ~\x0atIDENTIFIER 1-3 v\xff\x00\x0aEOF 3-3 " },
    Rec { t: b"-v\xffa.x\xffa", shape: b"(send recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) method_name=\x22-@\x22 args=[])", full: b"(send recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3) method_name=\x22x\xff\x01\x22 args=[] dot=3-4 selector=4-6 expression=1-6) method_name=\x22-@\x22 args=[] selector=0-1 expression=0-6)", diag: b"", toks: b"\x0atUMINUS 0-1 -\x0atIDENTIFIER 1-3 v\xff\x00\x0atDOT 3-4 .\x0atIDENTIFIER 4-6 x\xff\x01\x0aEOF 6-6 " },
    Rec { t: b"-\xffD.x\xffa", shape: b"(send recv=(int value=\x22-\xff\x00\x22) method_name=\x22x\xff\x01\x22 args=[])", full: b"(send recv=(int value=\x22-\xff\x00\x22 operator=0-1 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-3 selector=3-5 expression=0-5)", diag: b"", toks: b"\x0atUMINUS_NUM 0-1 -\x0atINTEGER 1-2 \xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0aEOF 5-5 " },
    Rec { t: b"-\xffD ** x\xffa", shape: b"(send recv=(send recv=(int value=\x22\xff\x00\x22) method_name=\x22**\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])]) method_name=\x22-@\x22 args=[])", full: b"(send recv=(send recv=(int value=\x22\xff\x00\x22 expression=1-2) method_name=\x22**\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8)] selector=3-5 expression=1-8) method_name=\x22-@\x22 args=[] selector=0-1 expression=0-8)", diag: b"", toks: b"\x0atUMINUS_NUM 0-1 -\x0atINTEGER 1-2 \xff\x00\x0atPOW 3-5 **\x0atIDENTIFIER 6-8 x\xff\x01\x0aEOF 8-8 " },
    Rec { t: b"-\xffD.\xffd ** \xffd", shape: b"(send recv=(send recv=(float value=\x22\xff\x00.\xff\x01\x22) method_name=\x22**\x22 args=[(int value=\x22\xff\x02\x22)]) method_name=\x22-@\x22 args=[])", full: b"(send recv=(send recv=(float value=\x22\xff\x00.\xff\x01\x22 expression=1-4) method_name=\x22**\x22 args=[(int value=\x22\xff\x02\x22 expression=8-9)] selector=5-7 expression=1-9) method_name=\x22-@\x22 args=[] selector=0-1 expression=0-9)", diag: b"", toks: b"\x0atUMINUS_NUM 0-1 -\x0atFLOAT 1-4 \xff\x00.\xff\x01\x0atPOW 5-7 **\x0atINTEGER 8-9 \xff\x02\x0aEOF 9-9 " },
    Rec { t: b"-v\xffa ** x\xffa", shape: b"(send recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22**\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])]) method_name=\x22-@\x22 args=[])", full: b"(send recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3) method_name=\x22**\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9)] selector=4-6 expression=1-9) method_name=\x22-@\x22 args=[] selector=0-1 expression=0-9)", diag: b"", toks: b"\x0atUMINUS 0-1 -\x0atIDENTIFIER 1-3 v\xff\x00\x0atPOW 4-6 **\x0atIDENTIFIER 7-9 x\xff\x01\x0aEOF 9-9 " },
    Rec { t: b"!v\xffa == x\xffa", shape: b"(send recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22!\x22 args=[]) method_name=\x22==\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3) method_name=\x22!\x22 args=[] selector=0-1 expression=0-3) method_name=\x22==\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9)] selector=4-6 expression=0-9)", diag: b"", toks: b"\x0atBANG 0-1 !\x0atIDENTIFIER 1-3 v\xff\x00\x0atEQ 4-6 ==\x0atIDENTIFIER 7-9 x\xff\x01\x0aEOF 9-9 " },
    Rec { t: b"v\xffa..x\xffa", shape: b"(irange left=(send method_name=\x22v\xff\x00\x22 args=[]) right=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(irange left=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) right=(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6) operator=2-4 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT2 2-4 ..\x0atIDENTIFIER 4-6 x\xff\x01\x0aEOF 6-6 " },
    Rec { t: b"v\xffa...x\xffa", shape: b"(erange left=(send method_name=\x22v\xff\x00\x22 args=[]) right=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(erange left=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) right=(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7) operator=2-5 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT3 2-5 ...\x0atIDENTIFIER 5-7 x\xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa ? x\xffa : z\xffa", shape: b"(if_ternary cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]) if_false=(send method_name=\x22z\xff\x02\x22 args=[]))", full: b"(if_ternary cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7) if_false=(send method_name=\x22z\xff\x02\x22 args=[] selector=10-12 expression=10-12) question=3-4 colon=8-9 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEH 3-4 ?\x0atIDENTIFIER 5-7 x\xff\x01\x0atCOLON 8-9 :\x0atIDENTIFIER 10-12 z\xff\x02\x0aEOF 12-12 " },
    Rec { t: b"v\xffa ?\xffd:x\xffa", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(str value=\x22\xff\x01\x22)])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(str value=\x22\xff\x01\x22 begin=3-4 expression=3-5)] selector=0-2 expression=0-5)", diag: b"\x0aE 5-6 unexpected tCOLON", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCHAR 3-5 \xff\x01\x0atCOLON 5-6 :" },
    Rec { t: b"v\xffa ? x\xffa ? \xffd : \xffd : z\xffa", shape: b"(if_ternary cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(if_ternary cond=(send method_name=\x22x\xff\x01\x22 args=[]) if_true=(int value=\x22\xff\x02\x22) if_false=(int value=\x22\xff\x03\x22)) if_false=(send method_name=\x22z\xff\x04\x22 args=[]))", full: b"(if_ternary cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) if_true=(if_ternary cond=(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7) if_true=(int value=\x22\xff\x02\x22 expression=10-11) if_false=(int value=\x22\xff\x03\x22 expression=14-15) question=8-9 colon=12-13 expression=5-15) if_false=(send method_name=\x22z\xff\x04\x22 args=[] selector=18-20 expression=18-20) question=3-4 colon=16-17 expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEH 3-4 ?\x0atIDENTIFIER 5-7 x\xff\x01\x0atEH 8-9 ?\x0atINTEGER 10-11 \xff\x02\x0atCOLON 12-13 :\x0atINTEGER 14-15 \xff\x03\x0atCOLON 16-17 :\x0atIDENTIFIER 18-20 z\xff\x04\x0aEOF 20-20 " },
    Rec { t: b"v\xffa ? \xffd : x\xffa ? \xffd : \xffd", shape: b"(if_ternary cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(int value=\x22\xff\x01\x22) if_false=(if_ternary cond=(send method_name=\x22x\xff\x02\x22 args=[]) if_true=(int value=\x22\xff\x03\x22) if_false=(int value=\x22\xff\x04\x22)))", full: b"(if_ternary cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) if_true=(int value=\x22\xff\x01\x22 expression=5-6) if_false=(if_ternary cond=(send method_name=\x22x\xff\x02\x22 args=[] selector=9-11 expression=9-11) if_true=(int value=\x22\xff\x03\x22 expression=14-15) if_false=(int value=\x22\xff\x04\x22 expression=18-19) question=12-13 colon=16-17 expression=9-19) question=3-4 colon=7-8 expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEH 3-4 ?\x0atINTEGER 5-6 \xff\x01\x0atCOLON 7-8 :\x0atIDENTIFIER 9-11 x\xff\x02\x0atEH 12-13 ?\x0atINTEGER 14-15 \xff\x03\x0atCOLON 16-17 :\x0atINTEGER 18-19 \xff\x04\x0aEOF 19-19 " },
    Rec { t: b"v\xffa ? [\xffd] : {}", shape: b"(if_ternary cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(array elements=[(int value=\x22\xff\x01\x22)]) if_false=(hash pairs=[]))", full: b"(if_ternary cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) if_true=(array elements=[(int value=\x22\xff\x01\x22 expression=6-7)] begin=5-6 end=7-8 expression=5-8) if_false=(hash pairs=[] begin=11-12 end=12-13 expression=11-13) question=3-4 colon=9-10 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEH 3-4 ?\x0atLBRACK 5-6 [\x0atINTEGER 6-7 \xff\x01\x0atRBRACK 7-8 ]\x0atCOLON 9-10 :\x0atLBRACE 11-12 {\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"v\xffa ? x\xffa :z\xffa", shape: b"(sym name=\x22z\xff\x02\x22)", full: b"(sym name=\x22z\xff\x02\x22 begin=8-9 expression=8-11)", diag: b"\x0aE 8-9 unexpected tSYMBEG", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEH 3-4 ?\x0atIDENTIFIER 5-7 x\xff\x01\x0atSYMBEG 8-9 :\x0atIDENTIFIER 9-11 z\xff\x02\x0aEOF 11-11 " },
    Rec { t: b"v\xffa + x\xffa * z\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22+\x22 args=[(send recv=(send method_name=\x22x\xff\x01\x22 args=[]) method_name=\x22*\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[])])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22+\x22 args=[(send recv=(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7) method_name=\x22*\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[] selector=10-12 expression=10-12)] selector=8-9 expression=5-12)] selector=3-4 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atPLUS 3-4 +\x0atIDENTIFIER 5-7 x\xff\x01\x0atSTAR2 8-9 *\x0atIDENTIFIER 10-12 z\xff\x02\x0aEOF 12-12 " },
    Rec { t: b"(v\xffa + x\xffa) * z\xffa", shape: b"(send recv=(begin statements=[(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22+\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])]) method_name=\x22*\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[])])", full: b"(send recv=(begin statements=[(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3) method_name=\x22+\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8)] selector=4-5 expression=1-8)] begin=0-1 end=8-9 expression=0-9) method_name=\x22*\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[] selector=12-14 expression=12-14)] selector=10-11 expression=0-14)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atIDENTIFIER 1-3 v\xff\x00\x0atPLUS 4-5 +\x0atIDENTIFIER 6-8 x\xff\x01\x0atRPAREN 8-9 )\x0atSTAR2 10-11 *\x0atIDENTIFIER 12-14 z\xff\x02\x0aEOF 14-14 " },
    Rec { t: b"v\xffa || x\xffa && z\xffa", shape: b"(or lhs=(send method_name=\x22v\xff\x00\x22 args=[]) rhs=(and lhs=(send method_name=\x22x\xff\x01\x22 args=[]) rhs=(send method_name=\x22z\xff\x02\x22 args=[])))", full: b"(or lhs=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) rhs=(and lhs=(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8) rhs=(send method_name=\x22z\xff\x02\x22 args=[] selector=12-14 expression=12-14) operator=9-11 expression=6-14) operator=3-5 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atOROP 3-5 ||\x0atIDENTIFIER 6-8 x\xff\x01\x0atANDOP 9-11 &&\x0atIDENTIFIER 12-14 z\xff\x02\x0aEOF 14-14 " },
    Rec { t: b"v\xffa or x\xffa and not z\xffa", shape: b"(and lhs=(or lhs=(send method_name=\x22v\xff\x00\x22 args=[]) rhs=(send method_name=\x22x\xff\x01\x22 args=[])) rhs=(send recv=(send method_name=\x22z\xff\x02\x22 args=[]) method_name=\x22!\x22 args=[]))", full: b"(and lhs=(or lhs=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) rhs=(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8) operator=3-5 expression=0-8) rhs=(send recv=(send method_name=\x22z\xff\x02\x22 args=[] selector=17-19 expression=17-19) method_name=\x22!\x22 args=[] selector=13-16 expression=13-19) operator=9-12 expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akOR 3-5 or\x0atIDENTIFIER 6-8 x\xff\x01\x0akAND 9-12 and\x0akNOT 13-16 not\x0atIDENTIFIER 17-19 z\xff\x02\x0aEOF 19-19 " },
    Rec { t: b"v\xffa = x\xffa or z\xffa", shape: b"(or lhs=(lvasgn name=\x22v\xff\x00\x22 value=(send method_name=\x22x\xff\x01\x22 args=[])) rhs=(send method_name=\x22z\xff\x02\x22 args=[]))", full: b"(or lhs=(lvasgn name=\x22v\xff\x00\x22 value=(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7) name=0-2 operator=3-4 expression=0-7) rhs=(send method_name=\x22z\xff\x02\x22 args=[] selector=11-13 expression=11-13) operator=8-10 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atIDENTIFIER 5-7 x\xff\x01\x0akOR 8-10 or\x0atIDENTIFIER 11-13 z\xff\x02\x0aEOF 13-13 " },
    Rec { t: b"v\xffa = x\xffa || z\xffa", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(or lhs=(send method_name=\x22x\xff\x01\x22 args=[]) rhs=(send method_name=\x22z\xff\x02\x22 args=[])))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(or lhs=(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7) rhs=(send method_name=\x22z\xff\x02\x22 args=[] selector=11-13 expression=11-13) operator=8-10 expression=5-13) name=0-2 operator=3-4 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atIDENTIFIER 5-7 x\xff\x01\x0atOROP 8-10 ||\x0atIDENTIFIER 11-13 z\xff\x02\x0aEOF 13-13 " },
    Rec { t: b"v\xffa = not(x\xffa)", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(send recv=(send method_name=\x22x\xff\x01\x22 args=[]) method_name=\x22!\x22 args=[]))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(send recv=(send method_name=\x22x\xff\x01\x22 args=[] selector=9-11 expression=9-11) method_name=\x22!\x22 args=[] selector=5-8 begin=8-9 end=11-12 expression=5-12) name=0-2 operator=3-4 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0akNOT 5-8 not\x0atLPAREN2 8-9 (\x0atIDENTIFIER 9-11 x\xff\x01\x0atRPAREN 11-12 )\x0aEOF 12-12 " },
    Rec { t: b"v\xffa =~ /\xfft/", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22=~\x22 args=[(regexp parts=[(str value=\x22\xff\x01\x22)])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22=~\x22 args=[(regexp parts=[(str value=\x22\xff\x01\x22 expression=7-8)] begin=6-7 end=8-9 expression=6-9)] selector=3-5 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atMATCH 3-5 =~\x0atREGEXP_BEG 6-7 /\x0atSTRING_CONTENT 7-8 \xff\x01\x0atREGEXP_END 8-9 /\x0aEOF 9-9 " },
    Rec { t: b"/\xfft/ =~ v\xffa", shape: b"(send recv=(regexp parts=[(str value=\x22\xff\x00\x22)]) method_name=\x22=~\x22 args=[(send method_name=\x22v\xff\x01\x22 args=[])])", full: b"(send recv=(regexp parts=[(str value=\x22\xff\x00\x22 expression=1-2)] begin=0-1 end=2-3 expression=0-3) method_name=\x22=~\x22 args=[(send method_name=\x22v\xff\x01\x22 args=[] selector=7-9 expression=7-9)] selector=4-6 expression=0-9)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-2 \xff\x00\x0atREGEXP_END 2-3 /\x0atMATCH 4-6 =~\x0atIDENTIFIER 7-9 v\xff\x01\x0aEOF 9-9 " },
    Rec { t: b"/(?<k\xffa>\xfft)/ =~ v\xffa; k\xfe\x00", shape: b"(begin statements=[(send recv=(regexp parts=[(str value=\x22(?<k\xff\x00>\xff\x01)\x22)]) method_name=\x22=~\x22 args=[(send method_name=\x22v\xff\x02\x22 args=[])]) (send method_name=\x22k\xff\x00\x22 args=[])])", full: b"(begin statements=[(send recv=(regexp parts=[(str value=\x22(?<k\xff\x00>\xff\x01)\x22 expression=1-9)] begin=0-1 end=9-10 expression=0-10) method_name=\x22=~\x22 args=[(send method_name=\x22v\xff\x02\x22 args=[] selector=14-16 expression=14-16)] selector=11-13 expression=0-16) (send method_name=\x22k\xff\x00\x22 args=[] selector=18-20 expression=18-20)] expression=0-20)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-9 (?<k\xff\x00>\xff\x01)\x0atREGEXP_END 9-10 /\x0atMATCH 11-13 =~\x0atIDENTIFIER 14-16 v\xff\x02\x0atSEMI 16-17 ;\x0atIDENTIFIER 18-20 k\xff\x00\x0aEOF 20-20 " },
    Rec { t: b"v\xffa !~ /\xfft/", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22!~\x22 args=[(regexp parts=[(str value=\x22\xff\x01\x22)])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22!~\x22 args=[(regexp parts=[(str value=\x22\xff\x01\x22 expression=7-8)] begin=6-7 end=8-9 expression=6-9)] selector=3-5 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atNMATCH 3-5 !~\x0atREGEXP_BEG 6-7 /\x0atSTRING_CONTENT 7-8 \xff\x01\x0atREGEXP_END 8-9 /\x0aEOF 9-9 " },
    Rec { t: b"(v\xffa)", shape: b"(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])])", full: b"(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3)] begin=0-1 end=3-4 expression=0-4)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atIDENTIFIER 1-3 v\xff\x00\x0atRPAREN 3-4 )\x0aEOF 4-4 " },
    Rec { t: b"(v\xffa; x\xffa)", shape: b"(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[]) (send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3) (send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7)] begin=0-1 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atIDENTIFIER 1-3 v\xff\x00\x0atSEMI 3-4 ;\x0atIDENTIFIER 5-7 x\xff\x01\x0atRPAREN 7-8 )\x0aEOF 8-8 " },
    Rec { t: b"(v\xffa\x0ax\xffa\x0a)", shape: b"(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[]) (send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3) (send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6)] begin=0-1 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atIDENTIFIER 1-3 v\xff\x00\x0atNL 3-4 \x0a\x0atIDENTIFIER 4-6 x\xff\x01\x0atNL 6-7 \x0a\x0atRPAREN 7-8 )\x0aEOF 8-8 " },
    Rec { t: b"()", shape: b"(begin statements=[])", full: b"(begin statements=[] begin=0-1 end=1-2 expression=0-2)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atRPAREN 1-2 )\x0aEOF 2-2 " },
    Rec { t: b"(\x0a)", shape: b"(begin statements=[])", full: b"(begin statements=[] begin=0-1 end=2-3 expression=0-3)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atRPAREN 2-3 )\x0aEOF 3-3 " },
    Rec { t: b"((v\xffa))", shape: b"(begin statements=[(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])])])", full: b"(begin statements=[(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=2-4 expression=2-4)] begin=1-2 end=4-5 expression=1-5)] begin=0-1 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atLPAREN 1-2 (\x0atIDENTIFIER 2-4 v\xff\x00\x0atRPAREN 4-5 )\x0atRPAREN 5-6 )\x0aEOF 6-6 " },
    Rec { t: b"[(v\xffa)]", shape: b"(array elements=[(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])])])", full: b"(array elements=[(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=2-4 expression=2-4)] begin=1-2 end=4-5 expression=1-5)] begin=0-1 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atLPAREN 1-2 (\x0atIDENTIFIER 2-4 v\xff\x00\x0atRPAREN 4-5 )\x0atRBRACK 5-6 ]\x0aEOF 6-6 " },
    Rec { t: b"v\xffa.!", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22!\x22 args=[])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22!\x22 args=[] dot=2-3 selector=3-4 expression=0-4)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atBANG 3-4 !\x0aEOF 4-4 " },
    Rec { t: b"v\xffa.+ x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22+\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22+\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7)] dot=2-3 selector=3-4 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atPLUS 3-4 +\x0atIDENTIFIER 5-7 x\xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa.+(x\xffa)", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22+\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22+\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7)] dot=2-3 selector=3-4 begin=4-5 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atPLUS 3-4 +\x0atLPAREN2 4-5 (\x0atIDENTIFIER 5-7 x\xff\x01\x0atRPAREN 7-8 )\x0aEOF 8-8 " },
    Rec { t: b"not v\xffa == x\xffa", shape: b"(send recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22==\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])]) method_name=\x22!\x22 args=[])", full: b"(send recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=4-6 expression=4-6) method_name=\x22==\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12)] selector=7-9 expression=4-12) method_name=\x22!\x22 args=[] selector=0-3 expression=0-12)", diag: b"", toks: b"\x0akNOT 0-3 not\x0atIDENTIFIER 4-6 v\xff\x00\x0atEQ 7-9 ==\x0atIDENTIFIER 10-12 x\xff\x01\x0aEOF 12-12 " },
    Rec { t: b"v\xffa <=> x\xffa and z\xffa", shape: b"(and lhs=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22<=>\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])]) rhs=(send method_name=\x22z\xff\x02\x22 args=[]))", full: b"(and lhs=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22<=>\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9)] selector=3-6 expression=0-9) rhs=(send method_name=\x22z\xff\x02\x22 args=[] selector=14-16 expression=14-16) operator=10-13 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCMP 3-6 <=>\x0atIDENTIFIER 7-9 x\xff\x01\x0akAND 10-13 and\x0atIDENTIFIER 14-16 z\xff\x02\x0aEOF 16-16 " },
    Rec { t: b"v\xffa; x\xffa", shape: b"(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[]) (send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) (send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6)] expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atSEMI 2-3 ;\x0atIDENTIFIER 4-6 x\xff\x01\x0aEOF 6-6 " },
    Rec { t: b"v\xffa; x\xffa; z\xffa", shape: b"(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[]) (send method_name=\x22x\xff\x01\x22 args=[]) (send method_name=\x22z\xff\x02\x22 args=[])])", full: b"(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) (send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6) (send method_name=\x22z\xff\x02\x22 args=[] selector=8-10 expression=8-10)] expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atSEMI 2-3 ;\x0atIDENTIFIER 4-6 x\xff\x01\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 z\xff\x02\x0aEOF 10-10 " },
    Rec { t: b"v\xffa\x0ax\xffa\x0a", shape: b"(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[]) (send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) (send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5)] expression=0-5)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atNL 2-3 \x0a\x0atIDENTIFIER 3-5 x\xff\x01\x0atNL 5-6 \x0a\x0aEOF 6-6 " },
    Rec { t: b";v\xffa;", shape: b"(send method_name=\x22v\xff\x00\x22 args=[])", full: b"(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3)", diag: b"", toks: b"\x0atSEMI 0-1 ;\x0atIDENTIFIER 1-3 v\xff\x00\x0atSEMI 3-4 ;\x0aEOF 4-4 " },
    Rec { t: b"v\xffa if x\xffa", shape: b"(if_mod cond=(send method_name=\x22x\xff\x01\x22 args=[]) if_true=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(if_mod cond=(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8) if_true=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) keyword=3-5 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akIF_MOD 3-5 if\x0atIDENTIFIER 6-8 x\xff\x01\x0aEOF 8-8 " },
    Rec { t: b"v\xffa unless x\xffa", shape: b"(if_mod cond=(send method_name=\x22x\xff\x01\x22 args=[]) if_false=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(if_mod cond=(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12) if_false=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) keyword=3-9 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akUNLESS_MOD 3-9 unless\x0atIDENTIFIER 10-12 x\xff\x01\x0aEOF 12-12 " },
    Rec { t: b"v\xffa while x\xffa", shape: b"(while cond=(send method_name=\x22x\xff\x01\x22 args=[]) body=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(while cond=(send method_name=\x22x\xff\x01\x22 args=[] selector=9-11 expression=9-11) body=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) keyword=3-8 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akWHILE_MOD 3-8 while\x0atIDENTIFIER 9-11 x\xff\x01\x0aEOF 11-11 " },
    Rec { t: b"v\xffa until x\xffa", shape: b"(until cond=(send method_name=\x22x\xff\x01\x22 args=[]) body=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(until cond=(send method_name=\x22x\xff\x01\x22 args=[] selector=9-11 expression=9-11) body=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) keyword=3-8 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akUNTIL_MOD 3-8 until\x0atIDENTIFIER 9-11 x\xff\x01\x0aEOF 11-11 " },
    Rec { t: b"v\xffa rescue x\xffa", shape: b"(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x01\x22 args=[]))])", full: b"(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12) keyword=3-9 expression=3-12)] expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akRESCUE_MOD 3-9 rescue\x0atIDENTIFIER 10-12 x\xff\x01\x0aEOF 12-12 " },
    Rec { t: b"v\xffa if x\xffa unless z\xffa", shape: b"(if_mod cond=(send method_name=\x22z\xff\x02\x22 args=[]) if_false=(if_mod cond=(send method_name=\x22x\xff\x01\x22 args=[]) if_true=(send method_name=\x22v\xff\x00\x22 args=[])))", full: b"(if_mod cond=(send method_name=\x22z\xff\x02\x22 args=[] selector=16-18 expression=16-18) if_false=(if_mod cond=(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8) if_true=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) keyword=3-5 expression=0-8) keyword=9-15 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akIF_MOD 3-5 if\x0atIDENTIFIER 6-8 x\xff\x01\x0akUNLESS_MOD 9-15 unless\x0atIDENTIFIER 16-18 z\xff\x02\x0aEOF 18-18 " },
    Rec { t: b"begin; v\xffa; end while x\xffa", shape: b"(while_post cond=(send method_name=\x22x\xff\x01\x22 args=[]) body=(kw_begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])]))", full: b"(while_post cond=(send method_name=\x22x\xff\x01\x22 args=[] selector=21-23 expression=21-23) body=(kw_begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9)] begin=0-5 end=11-14 expression=0-14) keyword=15-20 expression=0-23)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0akWHILE_MOD 15-20 while\x0atIDENTIFIER 21-23 x\xff\x01\x0aEOF 23-23 " },
    Rec { t: b"begin; v\xffa; end until x\xffa", shape: b"(until_post cond=(send method_name=\x22x\xff\x01\x22 args=[]) body=(kw_begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])]))", full: b"(until_post cond=(send method_name=\x22x\xff\x01\x22 args=[] selector=21-23 expression=21-23) body=(kw_begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9)] begin=0-5 end=11-14 expression=0-14) keyword=15-20 expression=0-23)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0akUNTIL_MOD 15-20 until\x0atIDENTIFIER 21-23 x\xff\x01\x0aEOF 23-23 " },
    Rec { t: b"(v\xffa) while x\xffa", shape: b"(while cond=(send method_name=\x22x\xff\x01\x22 args=[]) body=(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])]))", full: b"(while cond=(send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13) body=(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3)] begin=0-1 end=3-4 expression=0-4) keyword=5-10 expression=0-13)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atIDENTIFIER 1-3 v\xff\x00\x0atRPAREN 3-4 )\x0akWHILE_MOD 5-10 while\x0atIDENTIFIER 11-13 x\xff\x01\x0aEOF 13-13 " },
    Rec { t: b"v\xffa = \xffd if x\xffa", shape: b"(if_mod cond=(send method_name=\x22x\xff\x02\x22 args=[]) if_true=(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22)))", full: b"(if_mod cond=(send method_name=\x22x\xff\x02\x22 args=[] selector=10-12 expression=10-12) if_true=(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) keyword=7-9 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x01\x0akIF_MOD 7-9 if\x0atIDENTIFIER 10-12 x\xff\x02\x0aEOF 12-12 " },
    Rec { t: b"v\xffa x\xffa if z\xffa", shape: b"(if_mod cond=(send method_name=\x22z\xff\x02\x22 args=[]) if_true=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])]))", full: b"(if_mod cond=(send method_name=\x22z\xff\x02\x22 args=[] selector=9-11 expression=9-11) if_true=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5)] selector=0-2 expression=0-5) keyword=6-8 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 x\xff\x01\x0akIF_MOD 6-8 if\x0atIDENTIFIER 9-11 z\xff\x02\x0aEOF 11-11 " },
    Rec { t: b"if (v\xffa..x\xffa); \xffd; end", shape: b"(if cond=(begin statements=[(i_flip_flop left=(send method_name=\x22v\xff\x00\x22 args=[]) right=(send method_name=\x22x\xff\x01\x22 args=[]))]) if_true=(int value=\x22\xff\x02\x22))", full: b"(if cond=(begin statements=[(i_flip_flop left=(send method_name=\x22v\xff\x00\x22 args=[] selector=4-6 expression=4-6) right=(send method_name=\x22x\xff\x01\x22 args=[] selector=8-10 expression=8-10) operator=6-8 expression=4-10)] begin=3-4 end=10-11 expression=3-11) if_true=(int value=\x22\xff\x02\x22 expression=13-14) keyword=0-2 begin=11-12 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akIF 0-2 if\x0atLPAREN 3-4 (\x0atIDENTIFIER 4-6 v\xff\x00\x0atDOT2 6-8 ..\x0atIDENTIFIER 8-10 x\xff\x01\x0atRPAREN 10-11 )\x0atSEMI 11-12 ;\x0atINTEGER 13-14 \xff\x02\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"if v\xffa...x\xffa then \xffd end", shape: b"(if cond=(e_flip_flop left=(send method_name=\x22v\xff\x00\x22 args=[]) right=(send method_name=\x22x\xff\x01\x22 args=[])) if_true=(int value=\x22\xff\x02\x22))", full: b"(if cond=(e_flip_flop left=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) right=(send method_name=\x22x\xff\x01\x22 args=[] selector=8-10 expression=8-10) operator=5-8 expression=3-10) if_true=(int value=\x22\xff\x02\x22 expression=16-17) keyword=0-2 begin=11-15 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atDOT3 5-8 ...\x0atIDENTIFIER 8-10 x\xff\x01\x0akTHEN 11-15 then\x0atINTEGER 16-17 \xff\x02\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"if v\xffa and x\xffa..z\xffa; \xffd; end", shape: b"(if cond=(and lhs=(send method_name=\x22v\xff\x00\x22 args=[]) rhs=(i_flip_flop left=(send method_name=\x22x\xff\x01\x22 args=[]) right=(send method_name=\x22z\xff\x02\x22 args=[]))) if_true=(int value=\x22\xff\x03\x22))", full: b"(if cond=(and lhs=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) rhs=(i_flip_flop left=(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12) right=(send method_name=\x22z\xff\x02\x22 args=[] selector=14-16 expression=14-16) operator=12-14 expression=10-16) operator=6-9 expression=3-16) if_true=(int value=\x22\xff\x03\x22 expression=18-19) keyword=0-2 begin=16-17 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0akAND 6-9 and\x0atIDENTIFIER 10-12 x\xff\x01\x0atDOT2 12-14 ..\x0atIDENTIFIER 14-16 z\xff\x02\x0atSEMI 16-17 ;\x0atINTEGER 18-19 \xff\x03\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"if /\xfft/; \xffd; end", shape: b"(if cond=(match_current_line re=(regexp parts=[(str value=\x22\xff\x00\x22)])) if_true=(int value=\x22\xff\x01\x22))", full: b"(if cond=(match_current_line re=(regexp parts=[(str value=\x22\xff\x00\x22 expression=4-5)] begin=3-4 end=5-6 expression=3-6) expression=3-6) if_true=(int value=\x22\xff\x01\x22 expression=8-9) keyword=0-2 begin=6-7 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akIF 0-2 if\x0atREGEXP_BEG 3-4 /\x0atSTRING_CONTENT 4-5 \xff\x00\x0atREGEXP_END 5-6 /\x0atSEMI 6-7 ;\x0atINTEGER 8-9 \xff\x01\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"if !/\xfft/; \xffd; end", shape: b"(if cond=(send recv=(match_current_line re=(regexp parts=[(str value=\x22\xff\x00\x22)])) method_name=\x22!\x22 args=[]) if_true=(int value=\x22\xff\x01\x22))", full: b"(if cond=(send recv=(match_current_line re=(regexp parts=[(str value=\x22\xff\x00\x22 expression=5-6)] begin=4-5 end=6-7 expression=4-7) expression=4-7) method_name=\x22!\x22 args=[] selector=3-4 expression=3-7) if_true=(int value=\x22\xff\x01\x22 expression=9-10) keyword=0-2 begin=7-8 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akIF 0-2 if\x0atBANG 3-4 !\x0atREGEXP_BEG 4-5 /\x0atSTRING_CONTENT 5-6 \xff\x00\x0atREGEXP_END 6-7 /\x0atSEMI 7-8 ;\x0atINTEGER 9-10 \xff\x01\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"if not /x\xfft/; \xffd; end", shape: b"(if cond=(send recv=(match_current_line re=(regexp parts=[(str value=\x22x\xff\x00\x22)])) method_name=\x22!\x22 args=[]) if_true=(int value=\x22\xff\x01\x22))", full: b"(if cond=(send recv=(match_current_line re=(regexp parts=[(str value=\x22x\xff\x00\x22 expression=8-10)] begin=7-8 end=10-11 expression=7-11) expression=7-11) method_name=\x22!\x22 args=[] selector=3-6 expression=3-11) if_true=(int value=\x22\xff\x01\x22 expression=13-14) keyword=0-2 begin=11-12 end=16-19 expression=0-19)", diag: b"\x0aW 7-8 ambiguity between regexp and two divisions: wrap regexp in parentheses or add a space after `/' operator", toks: b"\x0akIF 0-2 if\x0akNOT 3-6 not\x0atREGEXP_BEG 7-8 /\x0atSTRING_CONTENT 8-10 x\xff\x00\x0atREGEXP_END 10-11 /\x0atSEMI 11-12 ;\x0atINTEGER 13-14 \xff\x01\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"if v\xffa == \xffd..x\xffa == \xffd; \xffd; end", shape: b"(if cond=(i_flip_flop left=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22==\x22 args=[(int value=\x22\xff\x01\x22)]) right=(send recv=(send method_name=\x22x\xff\x02\x22 args=[]) method_name=\x22==\x22 args=[(int value=\x22\xff\x03\x22)])) if_true=(int value=\x22\xff\x04\x22))", full: b"(if cond=(i_flip_flop left=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) method_name=\x22==\x22 args=[(int value=\x22\xff\x01\x22 expression=9-10)] selector=6-8 expression=3-10) right=(send recv=(send method_name=\x22x\xff\x02\x22 args=[] selector=12-14 expression=12-14) method_name=\x22==\x22 args=[(int value=\x22\xff\x03\x22 expression=18-19)] selector=15-17 expression=12-19) operator=10-12 expression=3-19) if_true=(int value=\x22\xff\x04\x22 expression=21-22) keyword=0-2 begin=19-20 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atEQ 6-8 ==\x0atINTEGER 9-10 \xff\x01\x0atDOT2 10-12 ..\x0atIDENTIFIER 12-14 x\xff\x02\x0atEQ 15-17 ==\x0atINTEGER 18-19 \xff\x03\x0atSEMI 19-20 ;\x0atINTEGER 21-22 \xff\x04\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"while v\xffa..x\xffa; end", shape: b"(while cond=(i_flip_flop left=(send method_name=\x22v\xff\x00\x22 args=[]) right=(send method_name=\x22x\xff\x01\x22 args=[])))", full: b"(while cond=(i_flip_flop left=(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) right=(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12) operator=8-10 expression=6-12) keyword=0-5 begin=12-13 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akWHILE 0-5 while\x0atIDENTIFIER 6-8 v\xff\x00\x0atDOT2 8-10 ..\x0atIDENTIFIER 10-12 x\xff\x01\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"\xffd if v\xffa..x\xffa", shape: b"(if_mod cond=(i_flip_flop left=(send method_name=\x22v\xff\x01\x22 args=[]) right=(send method_name=\x22x\xff\x02\x22 args=[])) if_true=(int value=\x22\xff\x00\x22))", full: b"(if_mod cond=(i_flip_flop left=(send method_name=\x22v\xff\x01\x22 args=[] selector=5-7 expression=5-7) right=(send method_name=\x22x\xff\x02\x22 args=[] selector=9-11 expression=9-11) operator=7-9 expression=5-11) if_true=(int value=\x22\xff\x00\x22 expression=0-1) keyword=2-4 expression=0-11)", diag: b"", toks: b"\x0atINTEGER 0-1 \xff\x00\x0akIF_MOD 2-4 if\x0atIDENTIFIER 5-7 v\xff\x01\x0atDOT2 7-9 ..\x0atIDENTIFIER 9-11 x\xff\x02\x0aEOF 11-11 " },
    Rec { t: b"v\xffa..x\xffa ? \xffd : \xffd", shape: b"(if_ternary cond=(i_flip_flop left=(send method_name=\x22v\xff\x00\x22 args=[]) right=(send method_name=\x22x\xff\x01\x22 args=[])) if_true=(int value=\x22\xff\x02\x22) if_false=(int value=\x22\xff\x03\x22))", full: b"(if_ternary cond=(i_flip_flop left=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) right=(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6) operator=2-4 expression=0-6) if_true=(int value=\x22\xff\x02\x22 expression=9-10) if_false=(int value=\x22\xff\x03\x22 expression=13-14) question=7-8 colon=11-12 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT2 2-4 ..\x0atIDENTIFIER 4-6 x\xff\x01\x0atEH 7-8 ?\x0atINTEGER 9-10 \xff\x02\x0atCOLON 11-12 :\x0atINTEGER 13-14 \xff\x03\x0aEOF 14-14 " },
    Rec { t: b"!(v\xffa..x\xffa)", shape: b"(send recv=(begin statements=[(i_flip_flop left=(send method_name=\x22v\xff\x00\x22 args=[]) right=(send method_name=\x22x\xff\x01\x22 args=[]))]) method_name=\x22!\x22 args=[])", full: b"(send recv=(begin statements=[(i_flip_flop left=(send method_name=\x22v\xff\x00\x22 args=[] selector=2-4 expression=2-4) right=(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8) operator=4-6 expression=2-8)] begin=1-2 end=8-9 expression=1-9) method_name=\x22!\x22 args=[] selector=0-1 expression=0-9)", diag: b"", toks: b"\x0atBANG 0-1 !\x0atLPAREN 1-2 (\x0atIDENTIFIER 2-4 v\xff\x00\x0atDOT2 4-6 ..\x0atIDENTIFIER 6-8 x\xff\x01\x0atRPAREN 8-9 )\x0aEOF 9-9 " },
];
pub static CALL: &[Rec] = &[
    Rec { t: b"v\xffa()", shape: b"(send method_name=\x22v\xff\x00\x22 args=[])", full: b"(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 begin=2-3 end=3-4 expression=0-4)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atRPAREN 3-4 )\x0aEOF 4-4 " },
    Rec { t: b"v\xffa(\xffd)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(int value=\x22\xff\x01\x22)])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(int value=\x22\xff\x01\x22 expression=3-4)] selector=0-2 begin=2-3 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atINTEGER 3-4 \xff\x01\x0atRPAREN 4-5 )\x0aEOF 5-5 " },
    Rec { t: b"v\xffa(\xffd, x\xffa)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(int value=\x22\xff\x01\x22) (send method_name=\x22x\xff\x02\x22 args=[])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(int value=\x22\xff\x01\x22 expression=3-4) (send method_name=\x22x\xff\x02\x22 args=[] selector=6-8 expression=6-8)] selector=0-2 begin=2-3 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atINTEGER 3-4 \xff\x01\x0atCOMMA 4-5 ,\x0atIDENTIFIER 6-8 x\xff\x02\x0atRPAREN 8-9 )\x0aEOF 9-9 " },
    Rec { t: b"v\xffa(\xffd,)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(int value=\x22\xff\x01\x22)])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(int value=\x22\xff\x01\x22 expression=3-4)] selector=0-2 begin=2-3 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atINTEGER 3-4 \xff\x01\x0atCOMMA 4-5 ,\x0atRPAREN 5-6 )\x0aEOF 6-6 " },
    Rec { t: b"v\xffa(x\xffa,\x0az\xffa\x0a)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[]) (send method_name=\x22z\xff\x02\x22 args=[])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) (send method_name=\x22z\xff\x02\x22 args=[] selector=7-9 expression=7-9)] selector=0-2 begin=2-3 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x01\x0atCOMMA 5-6 ,\x0atIDENTIFIER 7-9 z\xff\x02\x0atNL 9-10 \x0a\x0atRPAREN 10-11 )\x0aEOF 11-11 " },
    Rec { t: b"v\xffa(*x\xffa)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[]))])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6) operator=3-4 expression=3-6)] selector=0-2 begin=2-3 end=6-7 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atSTAR 3-4 *\x0atIDENTIFIER 4-6 x\xff\x01\x0atRPAREN 6-7 )\x0aEOF 7-7 " },
    Rec { t: b"v\xffa(**x\xffa)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(kwsplat value=(send method_name=\x22x\xff\x01\x22 args=[]))])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(kwsplat value=(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7) operator=3-5 expression=3-7)] expression=3-7)] selector=0-2 begin=2-3 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atDSTAR 3-5 **\x0atIDENTIFIER 5-7 x\xff\x01\x0atRPAREN 7-8 )\x0aEOF 8-8 " },
    Rec { t: b"v\xffa(&x\xffa)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(block_pass value=(send method_name=\x22x\xff\x01\x22 args=[]))])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(block_pass value=(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6) operator=3-4 expression=3-6)] selector=0-2 begin=2-3 end=6-7 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atAMPER 3-4 &\x0atIDENTIFIER 4-6 x\xff\x01\x0atRPAREN 6-7 )\x0aEOF 7-7 " },
    Rec { t: b"v\xffa(\xffd, *x\xffa, z\xffa, **q\xffa, &k\xffa)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(int value=\x22\xff\x01\x22) (splat value=(send method_name=\x22x\xff\x02\x22 args=[])) (send method_name=\x22z\xff\x03\x22 args=[]) (kwargs pairs=[(kwsplat value=(send method_name=\x22q\xff\x04\x22 args=[]))]) (block_pass value=(send method_name=\x22k\xff\x05\x22 args=[]))])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(int value=\x22\xff\x01\x22 expression=3-4) (splat value=(send method_name=\x22x\xff\x02\x22 args=[] selector=7-9 expression=7-9) operator=6-7 expression=6-9) (send method_name=\x22z\xff\x03\x22 args=[] selector=11-13 expression=11-13) (kwargs pairs=[(kwsplat value=(send method_name=\x22q\xff\x04\x22 args=[] selector=17-19 expression=17-19) operator=15-17 expression=15-19)] expression=15-19) (block_pass value=(send method_name=\x22k\xff\x05\x22 args=[] selector=22-24 expression=22-24) operator=21-22 expression=21-24)] selector=0-2 begin=2-3 end=24-25 expression=0-25)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atINTEGER 3-4 \xff\x01\x0atCOMMA 4-5 ,\x0atSTAR 6-7 *\x0atIDENTIFIER 7-9 x\xff\x02\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 z\xff\x03\x0atCOMMA 13-14 ,\x0atDSTAR 15-17 **\x0atIDENTIFIER 17-19 q\xff\x04\x0atCOMMA 19-20 ,\x0atAMPER 21-22 &\x0atIDENTIFIER 22-24 k\xff\x05\x0atRPAREN 24-25 )\x0aEOF 25-25 " },
    Rec { t: b"v\xffa(x\xffa => \xffd)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(send method_name=\x22x\xff\x01\x22 args=[]) value=(int value=\x22\xff\x02\x22))])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) value=(int value=\x22\xff\x02\x22 expression=9-10) operator=6-8 expression=3-10)] expression=3-10)] selector=0-2 begin=2-3 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x01\x0atASSOC 6-8 =>\x0atINTEGER 9-10 \xff\x02\x0atRPAREN 10-11 )\x0aEOF 11-11 " },
    Rec { t: b"v\xffa(x\xffa: \xffd)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22x\xff\x01\x22) value=(int value=\x22\xff\x02\x22))])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22x\xff\x01\x22 expression=3-5) value=(int value=\x22\xff\x02\x22 expression=7-8) operator=5-6 expression=3-8)] expression=3-8)] selector=0-2 begin=2-3 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atLABEL 3-6 x\xff\x01\x0atINTEGER 7-8 \xff\x02\x0atRPAREN 8-9 )\x0aEOF 9-9 " },
    Rec { t: b"v\xffa(x\xffa: \xffd, **z\xffa)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22x\xff\x01\x22) value=(int value=\x22\xff\x02\x22)) (kwsplat value=(send method_name=\x22z\xff\x03\x22 args=[]))])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22x\xff\x01\x22 expression=3-5) value=(int value=\x22\xff\x02\x22 expression=7-8) operator=5-6 expression=3-8) (kwsplat value=(send method_name=\x22z\xff\x03\x22 args=[] selector=12-14 expression=12-14) operator=10-12 expression=10-14)] expression=3-14)] selector=0-2 begin=2-3 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atLABEL 3-6 x\xff\x01\x0atINTEGER 7-8 \xff\x02\x0atCOMMA 8-9 ,\x0atDSTAR 10-12 **\x0atIDENTIFIER 12-14 z\xff\x03\x0atRPAREN 14-15 )\x0aEOF 15-15 " },
    Rec { t: b"v\xffa(\xffd, x\xffa: \xffd)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(int value=\x22\xff\x01\x22) (kwargs pairs=[(pair key=(sym name=\x22x\xff\x02\x22) value=(int value=\x22\xff\x03\x22))])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(int value=\x22\xff\x01\x22 expression=3-4) (kwargs pairs=[(pair key=(sym name=\x22x\xff\x02\x22 expression=6-8) value=(int value=\x22\xff\x03\x22 expression=10-11) operator=8-9 expression=6-11)] expression=6-11)] selector=0-2 begin=2-3 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atINTEGER 3-4 \xff\x01\x0atCOMMA 4-5 ,\x0atLABEL 6-9 x\xff\x02\x0atINTEGER 10-11 \xff\x03\x0atRPAREN 11-12 )\x0aEOF 12-12 " },
    Rec { t: b"v\xffa(\x22\xfft\x22: \xffd)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22\xff\x01\x22) value=(int value=\x22\xff\x02\x22))])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22\xff\x01\x22 begin=3-4 end=5-6 expression=3-6) value=(int value=\x22\xff\x02\x22 expression=8-9) operator=6-7 expression=3-9)] expression=3-9)] selector=0-2 begin=2-3 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atSTRING_BEG 3-4 \x22\x0atSTRING_CONTENT 4-5 \xff\x01\x0atLABEL_END 5-7 \x22:\x0atINTEGER 8-9 \xff\x02\x0atRPAREN 9-10 )\x0aEOF 10-10 " },
    Rec { t: b"v\xffa(x\xffa:)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22x\xff\x01\x22) value=(send method_name=\x22x\xff\x01\x22 args=[]))])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22x\xff\x01\x22 expression=3-5) value=(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) operator=5-6 expression=3-6)] expression=3-6)] selector=0-2 begin=2-3 end=6-7 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atLABEL 3-6 x\xff\x01\x0atRPAREN 6-7 )\x0aEOF 7-7 " },
    Rec { t: b"v\xffa(x\xffa:, z\xffa: \xffd)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22x\xff\x01\x22) value=(send method_name=\x22x\xff\x01\x22 args=[])) (pair key=(sym name=\x22z\xff\x02\x22) value=(int value=\x22\xff\x03\x22))])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22x\xff\x01\x22 expression=3-5) value=(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) operator=5-6 expression=3-6) (pair key=(sym name=\x22z\xff\x02\x22 expression=8-10) value=(int value=\x22\xff\x03\x22 expression=12-13) operator=10-11 expression=8-13)] expression=3-13)] selector=0-2 begin=2-3 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atLABEL 3-6 x\xff\x01\x0atCOMMA 6-7 ,\x0atLABEL 8-11 z\xff\x02\x0atINTEGER 12-13 \xff\x03\x0atRPAREN 13-14 )\x0aEOF 14-14 " },
    Rec { t: b"v\xffa(x\xffa: \xffd, &z\xffa)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22x\xff\x01\x22) value=(int value=\x22\xff\x02\x22))]) (block_pass value=(send method_name=\x22z\xff\x03\x22 args=[]))])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22x\xff\x01\x22 expression=3-5) value=(int value=\x22\xff\x02\x22 expression=7-8) operator=5-6 expression=3-8)] expression=3-8) (block_pass value=(send method_name=\x22z\xff\x03\x22 args=[] selector=11-13 expression=11-13) operator=10-11 expression=10-13)] selector=0-2 begin=2-3 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atLABEL 3-6 x\xff\x01\x0atINTEGER 7-8 \xff\x02\x0atCOMMA 8-9 ,\x0atAMPER 10-11 &\x0atIDENTIFIER 11-13 z\xff\x03\x0atRPAREN 13-14 )\x0aEOF 14-14 " },
    Rec { t: b"v\xffa \xffd", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(int value=\x22\xff\x01\x22)])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(int value=\x22\xff\x01\x22 expression=3-4)] selector=0-2 expression=0-4)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atINTEGER 3-4 \xff\x01\x0aEOF 4-4 " },
    Rec { t: b"v\xffa \xffd, x\xffa", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(int value=\x22\xff\x01\x22) (send method_name=\x22x\xff\x02\x22 args=[])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(int value=\x22\xff\x01\x22 expression=3-4) (send method_name=\x22x\xff\x02\x22 args=[] selector=6-8 expression=6-8)] selector=0-2 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atINTEGER 3-4 \xff\x01\x0atCOMMA 4-5 ,\x0atIDENTIFIER 6-8 x\xff\x02\x0aEOF 8-8 " },
    Rec { t: b"v\xffa x\xffa: \xffd", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22x\xff\x01\x22) value=(int value=\x22\xff\x02\x22))])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22x\xff\x01\x22 expression=3-5) value=(int value=\x22\xff\x02\x22 expression=7-8) operator=5-6 expression=3-8)] expression=3-8)] selector=0-2 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLABEL 3-6 x\xff\x01\x0atINTEGER 7-8 \xff\x02\x0aEOF 8-8 " },
    Rec { t: b"v\xffa x\xffa => \xffd", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(send method_name=\x22x\xff\x01\x22 args=[]) value=(int value=\x22\xff\x02\x22))])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) value=(int value=\x22\xff\x02\x22 expression=9-10) operator=6-8 expression=3-10)] expression=3-10)] selector=0-2 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 x\xff\x01\x0atASSOC 6-8 =>\x0atINTEGER 9-10 \xff\x02\x0aEOF 10-10 " },
    Rec { t: b"v\xffa *x\xffa", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[]))])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6) operator=3-4 expression=3-6)] selector=0-2 expression=0-6)", diag: b"\x0aW 3-4 `*' interpreted as argument prefix", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atSTAR 3-4 *\x0atIDENTIFIER 4-6 x\xff\x01\x0aEOF 6-6 " },
    Rec { t: b"v\xffa &x\xffa", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(block_pass value=(send method_name=\x22x\xff\x01\x22 args=[]))])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(block_pass value=(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6) operator=3-4 expression=3-6)] selector=0-2 expression=0-6)", diag: b"\x0aW 3-4 `&' interpreted as argument prefix", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atAMPER 3-4 &\x0atIDENTIFIER 4-6 x\xff\x01\x0aEOF 6-6 " },
    Rec { t: b"v\xffa **x\xffa", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(kwsplat value=(send method_name=\x22x\xff\x01\x22 args=[]))])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(kwsplat value=(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7) operator=3-5 expression=3-7)] expression=3-7)] selector=0-2 expression=0-7)", diag: b"\x0aW 3-5 `**' interpreted as argument prefix", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDSTAR 3-5 **\x0atIDENTIFIER 5-7 x\xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa -\xffd", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(int value=\x22-\xff\x01\x22)])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(int value=\x22-\xff\x01\x22 operator=3-4 expression=3-5)] selector=0-2 expression=0-5)", diag: b"\x0aW 3-4 ambiguous first argument; put parentheses or a space even after `-' operator", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atUMINUS_NUM 3-4 -\x0atINTEGER 4-5 \xff\x01\x0aEOF 5-5 " },
    Rec { t: b"v\xffa [\xffd]", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(array elements=[(int value=\x22\xff\x01\x22)])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(array elements=[(int value=\x22\xff\x01\x22 expression=4-5)] begin=3-4 end=5-6 expression=3-6)] selector=0-2 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK 3-4 [\x0atINTEGER 4-5 \xff\x01\x0atRBRACK 5-6 ]\x0aEOF 6-6 " },
    Rec { t: b"v\xffa ?a", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(str value=\x22a\x22)])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(str value=\x22a\x22 begin=3-4 expression=3-5)] selector=0-2 expression=0-5)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCHAR 3-5 a\x0aEOF 5-5 " },
    Rec { t: b"v\xffa :x\xffa", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(sym name=\x22x\xff\x01\x22)])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(sym name=\x22x\xff\x01\x22 begin=3-4 expression=3-6)] selector=0-2 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atSYMBEG 3-4 :\x0atIDENTIFIER 4-6 x\xff\x01\x0aEOF 6-6 " },
    Rec { t: b"v\xffa (\xffd)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(begin statements=[(int value=\x22\xff\x01\x22)])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(begin statements=[(int value=\x22\xff\x01\x22 expression=4-5)] begin=3-4 end=5-6 expression=3-6)] selector=0-2 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN_ARG 3-4 (\x0atINTEGER 4-5 \xff\x01\x0atRPAREN 5-6 )\x0aEOF 6-6 " },
    Rec { t: b"v\xffa (\xffd), x\xffa", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(begin statements=[(int value=\x22\xff\x01\x22)]) (send method_name=\x22x\xff\x02\x22 args=[])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(begin statements=[(int value=\x22\xff\x01\x22 expression=4-5)] begin=3-4 end=5-6 expression=3-6) (send method_name=\x22x\xff\x02\x22 args=[] selector=8-10 expression=8-10)] selector=0-2 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN_ARG 3-4 (\x0atINTEGER 4-5 \xff\x01\x0atRPAREN 5-6 )\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-10 x\xff\x02\x0aEOF 10-10 " },
    Rec { t: b"v\xffa (\xffd).x\xffa", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(send recv=(begin statements=[(int value=\x22\xff\x01\x22)]) method_name=\x22x\xff\x02\x22 args=[])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(send recv=(begin statements=[(int value=\x22\xff\x01\x22 expression=4-5)] begin=3-4 end=5-6 expression=3-6) method_name=\x22x\xff\x02\x22 args=[] dot=6-7 selector=7-9 expression=3-9)] selector=0-2 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN_ARG 3-4 (\x0atINTEGER 4-5 \xff\x01\x0atRPAREN 5-6 )\x0atDOT 6-7 .\x0atIDENTIFIER 7-9 x\xff\x02\x0aEOF 9-9 " },
    Rec { t: b"v\xffa (\xffd) + x\xffa", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(send recv=(begin statements=[(int value=\x22\xff\x01\x22)]) method_name=\x22+\x22 args=[(send method_name=\x22x\xff\x02\x22 args=[])])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(send recv=(begin statements=[(int value=\x22\xff\x01\x22 expression=4-5)] begin=3-4 end=5-6 expression=3-6) method_name=\x22+\x22 args=[(send method_name=\x22x\xff\x02\x22 args=[] selector=9-11 expression=9-11)] selector=7-8 expression=3-11)] selector=0-2 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN_ARG 3-4 (\x0atINTEGER 4-5 \xff\x01\x0atRPAREN 5-6 )\x0atPLUS 7-8 +\x0atIDENTIFIER 9-11 x\xff\x02\x0aEOF 11-11 " },
    Rec { t: b"v\xffa x\xffa z\xffa", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[])])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[] selector=6-8 expression=6-8)] selector=3-5 expression=3-8)] selector=0-2 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 x\xff\x01\x0atIDENTIFIER 6-8 z\xff\x02\x0aEOF 8-8 " },
    Rec { t: b"v\xffa \xffd, x\xffa do z\xffa end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(int value=\x22\xff\x01\x22) (send method_name=\x22x\xff\x02\x22 args=[])]) body=(send method_name=\x22z\xff\x03\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(int value=\x22\xff\x01\x22 expression=3-4) (send method_name=\x22x\xff\x02\x22 args=[] selector=6-8 expression=6-8)] selector=0-2 expression=0-8) body=(send method_name=\x22z\xff\x03\x22 args=[] selector=12-14 expression=12-14) begin=9-11 end=15-18 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atINTEGER 3-4 \xff\x01\x0atCOMMA 4-5 ,\x0atIDENTIFIER 6-8 x\xff\x02\x0akDO_BLOCK 9-11 do\x0atIDENTIFIER 12-14 z\xff\x03\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"v\xffa(\xffd) { x\xffa }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(int value=\x22\xff\x01\x22)]) body=(send method_name=\x22x\xff\x02\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(int value=\x22\xff\x01\x22 expression=3-4)] selector=0-2 begin=2-3 end=4-5 expression=0-5) body=(send method_name=\x22x\xff\x02\x22 args=[] selector=8-10 expression=8-10) begin=6-7 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atINTEGER 3-4 \xff\x01\x0atRPAREN 4-5 )\x0atLCURLY 6-7 {\x0atIDENTIFIER 8-10 x\xff\x02\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"v\xffa.x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-3 selector=3-5 expression=0-5)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0aEOF 5-5 " },
    Rec { t: b"v\xffa.x\xffa()", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-3 selector=3-5 begin=5-6 end=6-7 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atLPAREN2 5-6 (\x0atRPAREN 6-7 )\x0aEOF 7-7 " },
    Rec { t: b"v\xffa.x\xffa(\xffd)", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(int value=\x22\xff\x02\x22)])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(int value=\x22\xff\x02\x22 expression=6-7)] dot=2-3 selector=3-5 begin=5-6 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atLPAREN2 5-6 (\x0atINTEGER 6-7 \xff\x02\x0atRPAREN 7-8 )\x0aEOF 8-8 " },
    Rec { t: b"v\xffa.x\xffa \xffd", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(int value=\x22\xff\x02\x22)])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(int value=\x22\xff\x02\x22 expression=6-7)] dot=2-3 selector=3-5 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atINTEGER 6-7 \xff\x02\x0aEOF 7-7 " },
    Rec { t: b"v\xffa.x\xffa \xffd, z\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(int value=\x22\xff\x02\x22) (send method_name=\x22z\xff\x03\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(int value=\x22\xff\x02\x22 expression=6-7) (send method_name=\x22z\xff\x03\x22 args=[] selector=9-11 expression=9-11)] dot=2-3 selector=3-5 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atINTEGER 6-7 \xff\x02\x0atCOMMA 7-8 ,\x0atIDENTIFIER 9-11 z\xff\x03\x0aEOF 11-11 " },
    Rec { t: b"v\xffa.x\xffa z\xffa q\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[(send method_name=\x22q\xff\x03\x22 args=[])])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[(send method_name=\x22q\xff\x03\x22 args=[] selector=9-11 expression=9-11)] selector=6-8 expression=6-11)] dot=2-3 selector=3-5 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atIDENTIFIER 6-8 z\xff\x02\x0atIDENTIFIER 9-11 q\xff\x03\x0aEOF 11-11 " },
    Rec { t: b"v\xffa.x\xffa.z\xffa", shape: b"(send recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) method_name=\x22z\xff\x02\x22 args=[])", full: b"(send recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-3 selector=3-5 expression=0-5) method_name=\x22z\xff\x02\x22 args=[] dot=5-6 selector=6-8 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atDOT 5-6 .\x0atIDENTIFIER 6-8 z\xff\x02\x0aEOF 8-8 " },
    Rec { t: b"v\xffa.x\xffa(\xffd).z\xffa(\xffd)", shape: b"(send recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(int value=\x22\xff\x02\x22)]) method_name=\x22z\xff\x03\x22 args=[(int value=\x22\xff\x04\x22)])", full: b"(send recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(int value=\x22\xff\x02\x22 expression=6-7)] dot=2-3 selector=3-5 begin=5-6 end=7-8 expression=0-8) method_name=\x22z\xff\x03\x22 args=[(int value=\x22\xff\x04\x22 expression=12-13)] dot=8-9 selector=9-11 begin=11-12 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atLPAREN2 5-6 (\x0atINTEGER 6-7 \xff\x02\x0atRPAREN 7-8 )\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 z\xff\x03\x0atLPAREN2 11-12 (\x0atINTEGER 12-13 \xff\x04\x0atRPAREN 13-14 )\x0aEOF 14-14 " },
    Rec { t: b"v\xffa&.x\xffa", shape: b"(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[])", full: b"(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-4 selector=4-6 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atANDDOT 2-4 &.\x0atIDENTIFIER 4-6 x\xff\x01\x0aEOF 6-6 " },
    Rec { t: b"v\xffa&.x\xffa(\xffd)", shape: b"(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(int value=\x22\xff\x02\x22)])", full: b"(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(int value=\x22\xff\x02\x22 expression=7-8)] dot=2-4 selector=4-6 begin=6-7 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atANDDOT 2-4 &.\x0atIDENTIFIER 4-6 x\xff\x01\x0atLPAREN2 6-7 (\x0atINTEGER 7-8 \xff\x02\x0atRPAREN 8-9 )\x0aEOF 9-9 " },
    Rec { t: b"v\xffa&.x\xffa \xffd", shape: b"(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(int value=\x22\xff\x02\x22)])", full: b"(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(int value=\x22\xff\x02\x22 expression=7-8)] dot=2-4 selector=4-6 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atANDDOT 2-4 &.\x0atIDENTIFIER 4-6 x\xff\x01\x0atINTEGER 7-8 \xff\x02\x0aEOF 8-8 " },
    Rec { t: b"v\xffa&.x\xffa&.z\xffa", shape: b"(c_send recv=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) method_name=\x22z\xff\x02\x22 args=[])", full: b"(c_send recv=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-4 selector=4-6 expression=0-6) method_name=\x22z\xff\x02\x22 args=[] dot=6-8 selector=8-10 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atANDDOT 2-4 &.\x0atIDENTIFIER 4-6 x\xff\x01\x0atANDDOT 6-8 &.\x0atIDENTIFIER 8-10 z\xff\x02\x0aEOF 10-10 " },
    Rec { t: b"v\xffa::x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-4 selector=4-6 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atIDENTIFIER 4-6 x\xff\x01\x0aEOF 6-6 " },
    Rec { t: b"v\xffa::x\xffa(\xffd)", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(int value=\x22\xff\x02\x22)])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(int value=\x22\xff\x02\x22 expression=7-8)] dot=2-4 selector=4-6 begin=6-7 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atIDENTIFIER 4-6 x\xff\x01\x0atLPAREN2 6-7 (\x0atINTEGER 7-8 \xff\x02\x0atRPAREN 8-9 )\x0aEOF 9-9 " },
    Rec { t: b"v\xffa::x\xffa \xffd", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(int value=\x22\xff\x02\x22)])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(int value=\x22\xff\x02\x22 expression=7-8)] dot=2-4 selector=4-6 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atIDENTIFIER 4-6 x\xff\x01\x0atINTEGER 7-8 \xff\x02\x0aEOF 8-8 " },
    Rec { t: b"v\xffa::X\xffb(\xffd)", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22X\xff\x01\x22 args=[(int value=\x22\xff\x02\x22)])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22X\xff\x01\x22 args=[(int value=\x22\xff\x02\x22 expression=7-8)] dot=2-4 selector=4-6 begin=6-7 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atCONSTANT 4-6 X\xff\x01\x0atLPAREN2 6-7 (\x0atINTEGER 7-8 \xff\x02\x0atRPAREN 8-9 )\x0aEOF 9-9 " },
    Rec { t: b"v\xffa::X\xffb()", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22X\xff\x01\x22 args=[])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22X\xff\x01\x22 args=[] dot=2-4 selector=4-6 begin=6-7 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atCONSTANT 4-6 X\xff\x01\x0atLPAREN2 6-7 (\x0atRPAREN 7-8 )\x0aEOF 8-8 " },
    Rec { t: b"v\xffa.X\xffb", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22X\xff\x01\x22 args=[])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22X\xff\x01\x22 args=[] dot=2-3 selector=3-5 expression=0-5)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atCONSTANT 3-5 X\xff\x01\x0aEOF 5-5 " },
    Rec { t: b"v\xffa.X\xffb(\xffd)", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22X\xff\x01\x22 args=[(int value=\x22\xff\x02\x22)])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22X\xff\x01\x22 args=[(int value=\x22\xff\x02\x22 expression=6-7)] dot=2-3 selector=3-5 begin=5-6 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atCONSTANT 3-5 X\xff\x01\x0atLPAREN2 5-6 (\x0atINTEGER 6-7 \xff\x02\x0atRPAREN 7-8 )\x0aEOF 8-8 " },
    Rec { t: b"v\xffa.x\xffa?", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01?\x22 args=[])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01?\x22 args=[] dot=2-3 selector=3-6 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atFID 3-6 x\xff\x01?\x0aEOF 6-6 " },
    Rec { t: b"v\xffa.x\xffa!(\xffd)", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01!\x22 args=[(int value=\x22\xff\x02\x22)])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01!\x22 args=[(int value=\x22\xff\x02\x22 expression=7-8)] dot=2-3 selector=3-6 begin=6-7 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atFID 3-6 x\xff\x01!\x0atLPAREN2 6-7 (\x0atINTEGER 7-8 \xff\x02\x0atRPAREN 8-9 )\x0aEOF 9-9 " },
    Rec { t: b"v\xffa.()", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22call\x22 args=[])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22call\x22 args=[] dot=2-3 begin=3-4 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atLPAREN2 3-4 (\x0atRPAREN 4-5 )\x0aEOF 5-5 " },
    Rec { t: b"v\xffa.(\xffd)", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22call\x22 args=[(int value=\x22\xff\x01\x22)])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22call\x22 args=[(int value=\x22\xff\x01\x22 expression=4-5)] dot=2-3 begin=3-4 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atLPAREN2 3-4 (\x0atINTEGER 4-5 \xff\x01\x0atRPAREN 5-6 )\x0aEOF 6-6 " },
    Rec { t: b"v\xffa::()", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22call\x22 args=[])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22call\x22 args=[] dot=2-4 begin=4-5 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atLPAREN2 4-5 (\x0atRPAREN 5-6 )\x0aEOF 6-6 " },
    Rec { t: b"v\xffa&.(\xffd)", shape: b"(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22call\x22 args=[(int value=\x22\xff\x01\x22)])", full: b"(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22call\x22 args=[(int value=\x22\xff\x01\x22 expression=5-6)] dot=2-4 begin=4-5 end=6-7 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atANDDOT 2-4 &.\x0atLPAREN2 4-5 (\x0atINTEGER 5-6 \xff\x01\x0atRPAREN 6-7 )\x0aEOF 7-7 " },
    Rec { t: b"v\xffa.class", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22class\x22 args=[])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22class\x22 args=[] dot=2-3 selector=3-8 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-8 class\x0aEOF 8-8 " },
    Rec { t: b"v\xffa.if", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22if\x22 args=[])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22if\x22 args=[] dot=2-3 selector=3-5 expression=0-5)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 if\x0aEOF 5-5 " },
    Rec { t: b"v\xffa.nil?", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22nil?\x22 args=[])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22nil?\x22 args=[] dot=2-3 selector=3-7 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atFID 3-7 nil?\x0aEOF 7-7 " },
    Rec { t: b"v\xffa.self", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22self\x22 args=[])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22self\x22 args=[] dot=2-3 selector=3-7 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-7 self\x0aEOF 7-7 " },
    Rec { t: b"v\xffa.end", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22end\x22 args=[])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22end\x22 args=[] dot=2-3 selector=3-6 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-6 end\x0aEOF 6-6 " },
    Rec { t: b"v\xffa.then { \xffd }", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22then\x22 args=[]) body=(int value=\x22\xff\x01\x22))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22then\x22 args=[] dot=2-3 selector=3-7 expression=0-7) body=(int value=\x22\xff\x01\x22 expression=10-11) begin=8-9 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-7 then\x0atLCURLY 8-9 {\x0atINTEGER 10-11 \xff\x01\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"v\xffa\x0a.x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=3-4 selector=4-6 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 3-4 .\x0atIDENTIFIER 4-6 x\xff\x01\x0aEOF 6-6 " },
    Rec { t: b"v\xffa\x0a  .x\xffa\x0a  .z\xffa", shape: b"(send recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) method_name=\x22z\xff\x02\x22 args=[])", full: b"(send recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=5-6 selector=6-8 expression=0-8) method_name=\x22z\xff\x02\x22 args=[] dot=11-12 selector=12-14 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 5-6 .\x0atIDENTIFIER 6-8 x\xff\x01\x0atDOT 11-12 .\x0atIDENTIFIER 12-14 z\xff\x02\x0aEOF 14-14 " },
    Rec { t: b"v\xffa # \xfft\xfft\xfft\x0a  .x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x04\x22 args=[])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x04\x22 args=[] dot=11-12 selector=12-14 expression=0-14)", diag: b"\x0a# 3-9", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 11-12 .\x0atIDENTIFIER 12-14 x\xff\x04\x0aEOF 14-14 " },
    Rec { t: b"v\xffa\x0a&.x\xffa", shape: b"(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[])", full: b"(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=3-5 selector=5-7 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atANDDOT 3-5 &.\x0atIDENTIFIER 5-7 x\xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa.\x0ax\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-3 selector=4-6 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 4-6 x\xff\x01\x0aEOF 6-6 " },
    Rec { t: b"v\xffa[\xffd]", shape: b"(index recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(int value=\x22\xff\x01\x22)])", full: b"(index recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(int value=\x22\xff\x01\x22 expression=3-4)] begin=2-3 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atINTEGER 3-4 \xff\x01\x0atRBRACK 4-5 ]\x0aEOF 5-5 " },
    Rec { t: b"v\xffa[]", shape: b"(index recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[])", full: b"(index recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[] begin=2-3 end=3-4 expression=0-4)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atRBRACK 3-4 ]\x0aEOF 4-4 " },
    Rec { t: b"v\xffa[\xffd, x\xffa]", shape: b"(index recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(int value=\x22\xff\x01\x22) (send method_name=\x22x\xff\x02\x22 args=[])])", full: b"(index recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(int value=\x22\xff\x01\x22 expression=3-4) (send method_name=\x22x\xff\x02\x22 args=[] selector=6-8 expression=6-8)] begin=2-3 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atINTEGER 3-4 \xff\x01\x0atCOMMA 4-5 ,\x0atIDENTIFIER 6-8 x\xff\x02\x0atRBRACK 8-9 ]\x0aEOF 9-9 " },
    Rec { t: b"v\xffa[*x\xffa]", shape: b"(index recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[]))])", full: b"(index recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6) operator=3-4 expression=3-6)] begin=2-3 end=6-7 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atSTAR 3-4 *\x0atIDENTIFIER 4-6 x\xff\x01\x0atRBRACK 6-7 ]\x0aEOF 7-7 " },
    Rec { t: b"v\xffa[\xffd, *x\xffa, &z\xffa]", shape: b"(index recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(int value=\x22\xff\x01\x22) (splat value=(send method_name=\x22x\xff\x02\x22 args=[])) (block_pass value=(send method_name=\x22z\xff\x03\x22 args=[]))])", full: b"(index recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(int value=\x22\xff\x01\x22 expression=3-4) (splat value=(send method_name=\x22x\xff\x02\x22 args=[] selector=7-9 expression=7-9) operator=6-7 expression=6-9) (block_pass value=(send method_name=\x22z\xff\x03\x22 args=[] selector=12-14 expression=12-14) operator=11-12 expression=11-14)] begin=2-3 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atINTEGER 3-4 \xff\x01\x0atCOMMA 4-5 ,\x0atSTAR 6-7 *\x0atIDENTIFIER 7-9 x\xff\x02\x0atCOMMA 9-10 ,\x0atAMPER 11-12 &\x0atIDENTIFIER 12-14 z\xff\x03\x0atRBRACK 14-15 ]\x0aEOF 15-15 " },
    Rec { t: b"v\xffa[x\xffa => \xffd]", shape: b"(index recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(kwargs pairs=[(pair key=(send method_name=\x22x\xff\x01\x22 args=[]) value=(int value=\x22\xff\x02\x22))])])", full: b"(index recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(kwargs pairs=[(pair key=(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) value=(int value=\x22\xff\x02\x22 expression=9-10) operator=6-8 expression=3-10)] expression=3-10)] begin=2-3 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atIDENTIFIER 3-5 x\xff\x01\x0atASSOC 6-8 =>\x0atINTEGER 9-10 \xff\x02\x0atRBRACK 10-11 ]\x0aEOF 11-11 " },
    Rec { t: b"v\xffa[x\xffa: \xffd]", shape: b"(index recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(kwargs pairs=[(pair key=(sym name=\x22x\xff\x01\x22) value=(int value=\x22\xff\x02\x22))])])", full: b"(index recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(kwargs pairs=[(pair key=(sym name=\x22x\xff\x01\x22 expression=3-5) value=(int value=\x22\xff\x02\x22 expression=7-8) operator=5-6 expression=3-8)] expression=3-8)] begin=2-3 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atLABEL 3-6 x\xff\x01\x0atINTEGER 7-8 \xff\x02\x0atRBRACK 8-9 ]\x0aEOF 9-9 " },
    Rec { t: b"v\xffa.x\xffa[\xffd]", shape: b"(index recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) indexes=[(int value=\x22\xff\x02\x22)])", full: b"(index recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-3 selector=3-5 expression=0-5) indexes=[(int value=\x22\xff\x02\x22 expression=6-7)] begin=5-6 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atLBRACK2 5-6 [\x0atINTEGER 6-7 \xff\x02\x0atRBRACK 7-8 ]\x0aEOF 8-8 " },
    Rec { t: b"v\xffa[\xffd][x\xffa]", shape: b"(index recv=(index recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(int value=\x22\xff\x01\x22)]) indexes=[(send method_name=\x22x\xff\x02\x22 args=[])])", full: b"(index recv=(index recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(int value=\x22\xff\x01\x22 expression=3-4)] begin=2-3 end=4-5 expression=0-5) indexes=[(send method_name=\x22x\xff\x02\x22 args=[] selector=6-8 expression=6-8)] begin=5-6 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atINTEGER 3-4 \xff\x01\x0atRBRACK 4-5 ]\x0atLBRACK2 5-6 [\x0atIDENTIFIER 6-8 x\xff\x02\x0atRBRACK 8-9 ]\x0aEOF 9-9 " },
    Rec { t: b"v\xffa[\xffd].x\xffa", shape: b"(send recv=(index recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(int value=\x22\xff\x01\x22)]) method_name=\x22x\xff\x02\x22 args=[])", full: b"(send recv=(index recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(int value=\x22\xff\x01\x22 expression=3-4)] begin=2-3 end=4-5 expression=0-5) method_name=\x22x\xff\x02\x22 args=[] dot=5-6 selector=6-8 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atINTEGER 3-4 \xff\x01\x0atRBRACK 4-5 ]\x0atDOT 5-6 .\x0atIDENTIFIER 6-8 x\xff\x02\x0aEOF 8-8 " },
    Rec { t: b"V\xffb(\xffd)", shape: b"(send method_name=\x22V\xff\x00\x22 args=[(int value=\x22\xff\x01\x22)])", full: b"(send method_name=\x22V\xff\x00\x22 args=[(int value=\x22\xff\x01\x22 expression=3-4)] selector=0-2 begin=2-3 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atLPAREN2 2-3 (\x0atINTEGER 3-4 \xff\x01\x0atRPAREN 4-5 )\x0aEOF 5-5 " },
    Rec { t: b"V\xffb()", shape: b"(send method_name=\x22V\xff\x00\x22 args=[])", full: b"(send method_name=\x22V\xff\x00\x22 args=[] selector=0-2 begin=2-3 end=3-4 expression=0-4)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atLPAREN2 2-3 (\x0atRPAREN 3-4 )\x0aEOF 4-4 " },
    Rec { t: b"V\xffb \xffd", shape: b"(send method_name=\x22V\xff\x00\x22 args=[(int value=\x22\xff\x01\x22)])", full: b"(send method_name=\x22V\xff\x00\x22 args=[(int value=\x22\xff\x01\x22 expression=3-4)] selector=0-2 expression=0-4)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atINTEGER 3-4 \xff\x01\x0aEOF 4-4 " },
    Rec { t: b"V\xffb { x\xffa }", shape: b"(block call=(send method_name=\x22V\xff\x00\x22 args=[]) body=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(block call=(send method_name=\x22V\xff\x00\x22 args=[] selector=0-2 expression=0-2) body=(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7) begin=3-4 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atLCURLY 3-4 {\x0atIDENTIFIER 5-7 x\xff\x01\x0atRCURLY 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"V\xffb.x\xffa", shape: b"(send recv=(const name=\x22V\xff\x00\x22) method_name=\x22x\xff\x01\x22 args=[])", full: b"(send recv=(const name=\x22V\xff\x00\x22 name=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-3 selector=3-5 expression=0-5)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0aEOF 5-5 " },
    Rec { t: b"V\xffb::x\xffa", shape: b"(send recv=(const name=\x22V\xff\x00\x22) method_name=\x22x\xff\x01\x22 args=[])", full: b"(send recv=(const name=\x22V\xff\x00\x22 name=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-4 selector=4-6 expression=0-6)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atCOLON2 2-4 ::\x0atIDENTIFIER 4-6 x\xff\x01\x0aEOF 6-6 " },
    Rec { t: b"V\xffb[\xffd]", shape: b"(index recv=(const name=\x22V\xff\x00\x22) indexes=[(int value=\x22\xff\x01\x22)])", full: b"(index recv=(const name=\x22V\xff\x00\x22 name=0-2 expression=0-2) indexes=[(int value=\x22\xff\x01\x22 expression=3-4)] begin=2-3 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atLBRACK2 2-3 [\x0atINTEGER 3-4 \xff\x01\x0atRBRACK 4-5 ]\x0aEOF 5-5 " },
    Rec { t: b"puts(v\xffa, x\xffa ? \xffd : z\xffa)", shape: b"(send method_name=\x22puts\x22 args=[(send method_name=\x22v\xff\x00\x22 args=[]) (if_ternary cond=(send method_name=\x22x\xff\x01\x22 args=[]) if_true=(int value=\x22\xff\x02\x22) if_false=(send method_name=\x22z\xff\x03\x22 args=[]))])", full: b"(send method_name=\x22puts\x22 args=[(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) (if_ternary cond=(send method_name=\x22x\xff\x01\x22 args=[] selector=9-11 expression=9-11) if_true=(int value=\x22\xff\x02\x22 expression=14-15) if_false=(send method_name=\x22z\xff\x03\x22 args=[] selector=18-20 expression=18-20) question=12-13 colon=16-17 expression=9-20)] selector=0-4 begin=4-5 end=20-21 expression=0-21)", diag: b"", toks: b"\x0atIDENTIFIER 0-4 puts\x0atLPAREN2 4-5 (\x0atIDENTIFIER 5-7 v\xff\x00\x0atCOMMA 7-8 ,\x0atIDENTIFIER 9-11 x\xff\x01\x0atEH 12-13 ?\x0atINTEGER 14-15 \xff\x02\x0atCOLON 16-17 :\x0atIDENTIFIER 18-20 z\xff\x03\x0atRPAREN 20-21 )\x0aEOF 21-21 " },
    Rec { t: b"puts v\xffa ? \xffd : x\xffa", shape: b"(send method_name=\x22puts\x22 args=[(if_ternary cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(int value=\x22\xff\x01\x22) if_false=(send method_name=\x22x\xff\x02\x22 args=[]))])", full: b"(send method_name=\x22puts\x22 args=[(if_ternary cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) if_true=(int value=\x22\xff\x01\x22 expression=10-11) if_false=(send method_name=\x22x\xff\x02\x22 args=[] selector=14-16 expression=14-16) question=8-9 colon=12-13 expression=5-16)] selector=0-4 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-4 puts\x0atIDENTIFIER 5-7 v\xff\x00\x0atEH 8-9 ?\x0atINTEGER 10-11 \xff\x01\x0atCOLON 12-13 :\x0atIDENTIFIER 14-16 x\xff\x02\x0aEOF 16-16 " },
    Rec { t: b"puts [\xffd].x\xffa { |z\xffa| z\xfe\x02 }", shape: b"(send method_name=\x22puts\x22 args=[(block call=(send recv=(array elements=[(int value=\x22\xff\x00\x22)]) method_name=\x22x\xff\x01\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x02\x22)])]) body=(lvar name=\x22z\xff\x02\x22))])", full: b"(send method_name=\x22puts\x22 args=[(block call=(send recv=(array elements=[(int value=\x22\xff\x00\x22 expression=6-7)] begin=5-6 end=7-8 expression=5-8) method_name=\x22x\xff\x01\x22 args=[] dot=8-9 selector=9-11 expression=5-11) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x02\x22 expression=15-17)] expression=15-17)] expression=14-18 begin=14-15 end=17-18) body=(lvar name=\x22z\xff\x02\x22 expression=19-21) begin=12-13 end=22-23 expression=5-23)] selector=0-4 expression=0-23)", diag: b"", toks: b"\x0atIDENTIFIER 0-4 puts\x0atLBRACK 5-6 [\x0atINTEGER 6-7 \xff\x00\x0atRBRACK 7-8 ]\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 x\xff\x01\x0atLCURLY 12-13 {\x0atPIPE 14-15 |\x0atIDENTIFIER 15-17 z\xff\x02\x0atPIPE 17-18 |\x0atIDENTIFIER 19-21 z\xff\x02\x0atRCURLY 22-23 }\x0aEOF 23-23 " },
    Rec { t: b"puts(-> { v\xffa })", shape: b"(send method_name=\x22puts\x22 args=[(block call=(lambda) body=(send method_name=\x22v\xff\x00\x22 args=[]))])", full: b"(send method_name=\x22puts\x22 args=[(block call=(lambda expression=5-7) body=(send method_name=\x22v\xff\x00\x22 args=[] selector=10-12 expression=10-12) begin=8-9 end=13-14 expression=5-14)] selector=0-4 begin=4-5 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-4 puts\x0atLPAREN2 4-5 (\x0atLAMBDA 5-7 ->\x0atLAMBEG 8-9 {\x0atIDENTIFIER 10-12 v\xff\x00\x0atRCURLY 13-14 }\x0atRPAREN 14-15 )\x0aEOF 15-15 " },
    Rec { t: b"p v\xffa: \xffd, x\xffa: \xffd do z\xffa end", shape: b"(block call=(send method_name=\x22p\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22v\xff\x00\x22) value=(int value=\x22\xff\x01\x22)) (pair key=(sym name=\x22x\xff\x02\x22) value=(int value=\x22\xff\x03\x22))])]) body=(send method_name=\x22z\xff\x04\x22 args=[]))", full: b"(block call=(send method_name=\x22p\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22v\xff\x00\x22 expression=2-4) value=(int value=\x22\xff\x01\x22 expression=6-7) operator=4-5 expression=2-7) (pair key=(sym name=\x22x\xff\x02\x22 expression=9-11) value=(int value=\x22\xff\x03\x22 expression=13-14) operator=11-12 expression=9-14)] expression=2-14)] selector=0-1 expression=0-14) body=(send method_name=\x22z\xff\x04\x22 args=[] selector=18-20 expression=18-20) begin=15-17 end=21-24 expression=0-24)", diag: b"", toks: b"\x0atIDENTIFIER 0-1 p\x0atLABEL 2-5 v\xff\x00\x0atINTEGER 6-7 \xff\x01\x0atCOMMA 7-8 ,\x0atLABEL 9-12 x\xff\x02\x0atINTEGER 13-14 \xff\x03\x0akDO_BLOCK 15-17 do\x0atIDENTIFIER 18-20 z\xff\x04\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"v\xffa(x\xffa) do |z\xffa| q\xffa end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])]) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x02\x22)])]) body=(send method_name=\x22q\xff\x03\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5)] selector=0-2 begin=2-3 end=5-6 expression=0-6) args=(args args=[(procarg0 args=[(arg name=\x22z\xff\x02\x22 expression=11-13)] expression=11-13)] expression=10-14 begin=10-11 end=13-14) body=(send method_name=\x22q\xff\x03\x22 args=[] selector=15-17 expression=15-17) begin=7-9 end=18-21 expression=0-21)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x01\x0atRPAREN 5-6 )\x0akDO 7-9 do\x0atPIPE 10-11 |\x0atIDENTIFIER 11-13 z\xff\x02\x0atPIPE 13-14 |\x0atIDENTIFIER 15-17 q\xff\x03\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"v\xffa(x\xffa do \xffd end)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(block call=(send method_name=\x22x\xff\x01\x22 args=[]) body=(int value=\x22\xff\x02\x22))])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(block call=(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) body=(int value=\x22\xff\x02\x22 expression=9-10) begin=6-8 end=11-14 expression=3-14)] selector=0-2 begin=2-3 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x01\x0akDO 6-8 do\x0atINTEGER 9-10 \xff\x02\x0akEND 11-14 end\x0atRPAREN 14-15 )\x0aEOF 15-15 " },
    Rec { t: b"v\xffa((x\xffa; z\xffa))", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[]) (send method_name=\x22z\xff\x02\x22 args=[])])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6) (send method_name=\x22z\xff\x02\x22 args=[] selector=8-10 expression=8-10)] begin=3-4 end=10-11 expression=3-11)] selector=0-2 begin=2-3 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atLPAREN 3-4 (\x0atIDENTIFIER 4-6 x\xff\x01\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 z\xff\x02\x0atRPAREN 10-11 )\x0atRPAREN 11-12 )\x0aEOF 12-12 " },
    Rec { t: b"v\xffa(())", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(begin statements=[])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(begin statements=[] begin=3-4 end=4-5 expression=3-5)] selector=0-2 begin=2-3 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atLPAREN 3-4 (\x0atRPAREN 4-5 )\x0atRPAREN 5-6 )\x0aEOF 6-6 " },
    Rec { t: b"v\xffa (x\xffa), (z\xffa)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[])]) (begin statements=[(send method_name=\x22z\xff\x02\x22 args=[])])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6)] begin=3-4 end=6-7 expression=3-7) (begin statements=[(send method_name=\x22z\xff\x02\x22 args=[] selector=10-12 expression=10-12)] begin=9-10 end=12-13 expression=9-13)] selector=0-2 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN_ARG 3-4 (\x0atIDENTIFIER 4-6 x\xff\x01\x0atRPAREN 6-7 )\x0atCOMMA 7-8 ,\x0atLPAREN 9-10 (\x0atIDENTIFIER 10-12 z\xff\x02\x0atRPAREN 12-13 )\x0aEOF 13-13 " },
    Rec { t: b"v\xffa((x\xffa))", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[])])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6)] begin=3-4 end=6-7 expression=3-7)] selector=0-2 begin=2-3 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atLPAREN 3-4 (\x0atIDENTIFIER 4-6 x\xff\x01\x0atRPAREN 6-7 )\x0atRPAREN 7-8 )\x0aEOF 8-8 " },
    Rec { t: b"v\xffa(x\xffa z\xffa)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[])])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[] selector=6-8 expression=6-8)] selector=3-5 expression=3-8)] selector=0-2 begin=2-3 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x01\x0atIDENTIFIER 6-8 z\xff\x02\x0atRPAREN 8-9 )\x0aEOF 9-9 " },
    Rec { t: b"v\xffa x\xffa.z\xffa(\xffd), q\xffa", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(send recv=(send method_name=\x22x\xff\x01\x22 args=[]) method_name=\x22z\xff\x02\x22 args=[(int value=\x22\xff\x03\x22)]) (send method_name=\x22q\xff\x04\x22 args=[])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(send recv=(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) method_name=\x22z\xff\x02\x22 args=[(int value=\x22\xff\x03\x22 expression=9-10)] dot=5-6 selector=6-8 begin=8-9 end=10-11 expression=3-11) (send method_name=\x22q\xff\x04\x22 args=[] selector=13-15 expression=13-15)] selector=0-2 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 x\xff\x01\x0atDOT 5-6 .\x0atIDENTIFIER 6-8 z\xff\x02\x0atLPAREN2 8-9 (\x0atINTEGER 9-10 \xff\x03\x0atRPAREN 10-11 )\x0atCOMMA 11-12 ,\x0atIDENTIFIER 13-15 q\xff\x04\x0aEOF 15-15 " },
    Rec { t: b"v\xffa x\xffa, *z\xffa, &q\xffa", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[]) (splat value=(send method_name=\x22z\xff\x02\x22 args=[])) (block_pass value=(send method_name=\x22q\xff\x03\x22 args=[]))])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) (splat value=(send method_name=\x22z\xff\x02\x22 args=[] selector=8-10 expression=8-10) operator=7-8 expression=7-10) (block_pass value=(send method_name=\x22q\xff\x03\x22 args=[] selector=13-15 expression=13-15) operator=12-13 expression=12-15)] selector=0-2 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 x\xff\x01\x0atCOMMA 5-6 ,\x0atSTAR 7-8 *\x0atIDENTIFIER 8-10 z\xff\x02\x0atCOMMA 10-11 ,\x0atAMPER 12-13 &\x0atIDENTIFIER 13-15 q\xff\x03\x0aEOF 15-15 " },
    Rec { t: b"super", shape: b"(z_super)", full: b"(z_super expression=0-5)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0aEOF 5-5 " },
    Rec { t: b"super()", shape: b"(super args=[])", full: b"(super args=[] keyword=0-5 begin=5-6 end=6-7 expression=0-7)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atLPAREN2 5-6 (\x0atRPAREN 6-7 )\x0aEOF 7-7 " },
    Rec { t: b"super(\xffd)", shape: b"(super args=[(int value=\x22\xff\x00\x22)])", full: b"(super args=[(int value=\x22\xff\x00\x22 expression=6-7)] keyword=0-5 begin=5-6 end=7-8 expression=0-8)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atLPAREN2 5-6 (\x0atINTEGER 6-7 \xff\x00\x0atRPAREN 7-8 )\x0aEOF 8-8 " },
    Rec { t: b"super \xffd", shape: b"(super args=[(int value=\x22\xff\x00\x22)])", full: b"(super args=[(int value=\x22\xff\x00\x22 expression=6-7)] keyword=0-5 expression=0-7)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atINTEGER 6-7 \xff\x00\x0aEOF 7-7 " },
    Rec { t: b"super v\xffa, *x\xffa, &z\xffa", shape: b"(super args=[(send method_name=\x22v\xff\x00\x22 args=[]) (splat value=(send method_name=\x22x\xff\x01\x22 args=[])) (block_pass value=(send method_name=\x22z\xff\x02\x22 args=[]))])", full: b"(super args=[(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) (splat value=(send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13) operator=10-11 expression=10-13) (block_pass value=(send method_name=\x22z\xff\x02\x22 args=[] selector=16-18 expression=16-18) operator=15-16 expression=15-18)] keyword=0-5 expression=0-18)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atIDENTIFIER 6-8 v\xff\x00\x0atCOMMA 8-9 ,\x0atSTAR 10-11 *\x0atIDENTIFIER 11-13 x\xff\x01\x0atCOMMA 13-14 ,\x0atAMPER 15-16 &\x0atIDENTIFIER 16-18 z\xff\x02\x0aEOF 18-18 " },
    Rec { t: b"super { v\xffa }", shape: b"(block call=(z_super) body=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(block call=(z_super expression=0-5) body=(send method_name=\x22v\xff\x00\x22 args=[] selector=8-10 expression=8-10) begin=6-7 end=11-12 expression=0-12)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atLCURLY 6-7 {\x0atIDENTIFIER 8-10 v\xff\x00\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"super() { v\xffa }", shape: b"(block call=(super args=[]) body=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(block call=(super args=[] keyword=0-5 begin=5-6 end=6-7 expression=0-7) body=(send method_name=\x22v\xff\x00\x22 args=[] selector=10-12 expression=10-12) begin=8-9 end=13-14 expression=0-14)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atLPAREN2 5-6 (\x0atRPAREN 6-7 )\x0atLCURLY 8-9 {\x0atIDENTIFIER 10-12 v\xff\x00\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"super do |x\xffa| \xffd end", shape: b"(block call=(z_super) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x00\x22)])]) body=(int value=\x22\xff\x01\x22))", full: b"(block call=(z_super expression=0-5) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x00\x22 expression=10-12)] expression=10-12)] expression=9-13 begin=9-10 end=12-13) body=(int value=\x22\xff\x01\x22 expression=14-15) begin=6-8 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0akDO 6-8 do\x0atPIPE 9-10 |\x0atIDENTIFIER 10-12 x\xff\x00\x0atPIPE 12-13 |\x0atINTEGER 14-15 \xff\x01\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"yield", shape: b"(yield args=[])", full: b"(yield args=[] keyword=0-5 expression=0-5)", diag: b"", toks: b"\x0akYIELD 0-5 yield\x0aEOF 5-5 " },
    Rec { t: b"yield()", shape: b"(yield args=[])", full: b"(yield args=[] keyword=0-5 begin=5-6 end=6-7 expression=0-7)", diag: b"", toks: b"\x0akYIELD 0-5 yield\x0atLPAREN2 5-6 (\x0atRPAREN 6-7 )\x0aEOF 7-7 " },
    Rec { t: b"yield(\xffd)", shape: b"(yield args=[(int value=\x22\xff\x00\x22)])", full: b"(yield args=[(int value=\x22\xff\x00\x22 expression=6-7)] keyword=0-5 begin=5-6 end=7-8 expression=0-8)", diag: b"", toks: b"\x0akYIELD 0-5 yield\x0atLPAREN2 5-6 (\x0atINTEGER 6-7 \xff\x00\x0atRPAREN 7-8 )\x0aEOF 8-8 " },
    Rec { t: b"yield \xffd", shape: b"(yield args=[(int value=\x22\xff\x00\x22)])", full: b"(yield args=[(int value=\x22\xff\x00\x22 expression=6-7)] keyword=0-5 expression=0-7)", diag: b"", toks: b"\x0akYIELD 0-5 yield\x0atINTEGER 6-7 \xff\x00\x0aEOF 7-7 " },
    Rec { t: b"yield \xffd, v\xffa", shape: b"(yield args=[(int value=\x22\xff\x00\x22) (send method_name=\x22v\xff\x01\x22 args=[])])", full: b"(yield args=[(int value=\x22\xff\x00\x22 expression=6-7) (send method_name=\x22v\xff\x01\x22 args=[] selector=9-11 expression=9-11)] keyword=0-5 expression=0-11)", diag: b"", toks: b"\x0akYIELD 0-5 yield\x0atINTEGER 6-7 \xff\x00\x0atCOMMA 7-8 ,\x0atIDENTIFIER 9-11 v\xff\x01\x0aEOF 11-11 " },
    Rec { t: b"yield(*v\xffa)", shape: b"(yield args=[(splat value=(send method_name=\x22v\xff\x00\x22 args=[]))])", full: b"(yield args=[(splat value=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) operator=6-7 expression=6-9)] keyword=0-5 begin=5-6 end=9-10 expression=0-10)", diag: b"", toks: b"\x0akYIELD 0-5 yield\x0atLPAREN2 5-6 (\x0atSTAR 6-7 *\x0atIDENTIFIER 7-9 v\xff\x00\x0atRPAREN 9-10 )\x0aEOF 10-10 " },
    Rec { t: b"yield [\xffd]", shape: b"(yield args=[(array elements=[(int value=\x22\xff\x00\x22)])])", full: b"(yield args=[(array elements=[(int value=\x22\xff\x00\x22 expression=7-8)] begin=6-7 end=8-9 expression=6-9)] keyword=0-5 expression=0-9)", diag: b"", toks: b"\x0akYIELD 0-5 yield\x0atLBRACK 6-7 [\x0atINTEGER 7-8 \xff\x00\x0atRBRACK 8-9 ]\x0aEOF 9-9 " },
    Rec { t: b"return", shape: b"(return args=[])", full: b"(return args=[] keyword=0-6 expression=0-6)", diag: b"", toks: b"\x0akRETURN 0-6 return\x0aEOF 6-6 " },
    Rec { t: b"return \xffd", shape: b"(return args=[(int value=\x22\xff\x00\x22)])", full: b"(return args=[(int value=\x22\xff\x00\x22 expression=7-8)] keyword=0-6 expression=0-8)", diag: b"", toks: b"\x0akRETURN 0-6 return\x0atINTEGER 7-8 \xff\x00\x0aEOF 8-8 " },
    Rec { t: b"return \xffd, v\xffa", shape: b"(return args=[(int value=\x22\xff\x00\x22) (send method_name=\x22v\xff\x01\x22 args=[])])", full: b"(return args=[(int value=\x22\xff\x00\x22 expression=7-8) (send method_name=\x22v\xff\x01\x22 args=[] selector=10-12 expression=10-12)] keyword=0-6 expression=0-12)", diag: b"", toks: b"\x0akRETURN 0-6 return\x0atINTEGER 7-8 \xff\x00\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 v\xff\x01\x0aEOF 12-12 " },
    Rec { t: b"return *v\xffa", shape: b"(return args=[(splat value=(send method_name=\x22v\xff\x00\x22 args=[]))])", full: b"(return args=[(splat value=(send method_name=\x22v\xff\x00\x22 args=[] selector=8-10 expression=8-10) operator=7-8 expression=7-10)] keyword=0-6 expression=0-10)", diag: b"", toks: b"\x0akRETURN 0-6 return\x0atSTAR 7-8 *\x0atIDENTIFIER 8-10 v\xff\x00\x0aEOF 10-10 " },
    Rec { t: b"return v\xffa x\xffa", shape: b"(return args=[(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])])", full: b"(return args=[(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12)] selector=7-9 expression=7-12)] keyword=0-6 expression=0-12)", diag: b"", toks: b"\x0akRETURN 0-6 return\x0atIDENTIFIER 7-9 v\xff\x00\x0atIDENTIFIER 10-12 x\xff\x01\x0aEOF 12-12 " },
    Rec { t: b"break", shape: b"(break args=[])", full: b"(break args=[] keyword=0-5 expression=0-5)", diag: b"", toks: b"\x0akBREAK 0-5 break\x0aEOF 5-5 " },
    Rec { t: b"break \xffd", shape: b"(break args=[(int value=\x22\xff\x00\x22)])", full: b"(break args=[(int value=\x22\xff\x00\x22 expression=6-7)] keyword=0-5 expression=0-7)", diag: b"", toks: b"\x0akBREAK 0-5 break\x0atINTEGER 6-7 \xff\x00\x0aEOF 7-7 " },
    Rec { t: b"break v\xffa x\xffa", shape: b"(break args=[(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])])", full: b"(break args=[(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=9-11 expression=9-11)] selector=6-8 expression=6-11)] keyword=0-5 expression=0-11)", diag: b"", toks: b"\x0akBREAK 0-5 break\x0atIDENTIFIER 6-8 v\xff\x00\x0atIDENTIFIER 9-11 x\xff\x01\x0aEOF 11-11 " },
    Rec { t: b"next", shape: b"(next args=[])", full: b"(next args=[] keyword=0-4 expression=0-4)", diag: b"", toks: b"\x0akNEXT 0-4 next\x0aEOF 4-4 " },
    Rec { t: b"next \xffd", shape: b"(next args=[(int value=\x22\xff\x00\x22)])", full: b"(next args=[(int value=\x22\xff\x00\x22 expression=5-6)] keyword=0-4 expression=0-6)", diag: b"", toks: b"\x0akNEXT 0-4 next\x0atINTEGER 5-6 \xff\x00\x0aEOF 6-6 " },
    Rec { t: b"next \xffd, v\xffa", shape: b"(next args=[(int value=\x22\xff\x00\x22) (send method_name=\x22v\xff\x01\x22 args=[])])", full: b"(next args=[(int value=\x22\xff\x00\x22 expression=5-6) (send method_name=\x22v\xff\x01\x22 args=[] selector=8-10 expression=8-10)] keyword=0-4 expression=0-10)", diag: b"", toks: b"\x0akNEXT 0-4 next\x0atINTEGER 5-6 \xff\x00\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-10 v\xff\x01\x0aEOF 10-10 " },
    Rec { t: b"redo", shape: b"(redo)", full: b"(redo expression=0-4)", diag: b"", toks: b"\x0akREDO 0-4 redo\x0aEOF 4-4 " },
    Rec { t: b"retry", shape: b"(retry)", full: b"(retry expression=0-5)", diag: b"", toks: b"\x0akRETRY 0-5 retry\x0aEOF 5-5 " },
    Rec { t: b"v\xffa { return \xffd }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(return args=[(int value=\x22\xff\x01\x22)]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) body=(return args=[(int value=\x22\xff\x01\x22 expression=12-13)] keyword=5-11 expression=5-13) begin=3-4 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0akRETURN 5-11 return\x0atINTEGER 12-13 \xff\x01\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"return if v\xffa", shape: b"(if_mod cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(return args=[]))", full: b"(if_mod cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=10-12 expression=10-12) if_true=(return args=[] keyword=0-6 expression=0-6) keyword=7-9 expression=0-12)", diag: b"", toks: b"\x0akRETURN 0-6 return\x0akIF_MOD 7-9 if\x0atIDENTIFIER 10-12 v\xff\x00\x0aEOF 12-12 " },
    Rec { t: b"return (\xffd)", shape: b"(return args=[(begin statements=[(int value=\x22\xff\x00\x22)])])", full: b"(return args=[(begin statements=[(int value=\x22\xff\x00\x22 expression=8-9)] begin=7-8 end=9-10 expression=7-10)] keyword=0-6 expression=0-10)", diag: b"", toks: b"\x0akRETURN 0-6 return\x0atLPAREN 7-8 (\x0atINTEGER 8-9 \xff\x00\x0atRPAREN 9-10 )\x0aEOF 10-10 " },
    Rec { t: b"return v\xffa if x\xffa", shape: b"(if_mod cond=(send method_name=\x22x\xff\x01\x22 args=[]) if_true=(return args=[(send method_name=\x22v\xff\x00\x22 args=[])]))", full: b"(if_mod cond=(send method_name=\x22x\xff\x01\x22 args=[] selector=13-15 expression=13-15) if_true=(return args=[(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9)] keyword=0-6 expression=0-9) keyword=10-12 expression=0-15)", diag: b"", toks: b"\x0akRETURN 0-6 return\x0atIDENTIFIER 7-9 v\xff\x00\x0akIF_MOD 10-12 if\x0atIDENTIFIER 13-15 x\xff\x01\x0aEOF 15-15 " },
    Rec { t: b"fail v\xffa, \x22\xfft\x22 unless x\xffa", shape: b"(if_mod cond=(send method_name=\x22x\xff\x02\x22 args=[]) if_false=(send method_name=\x22fail\x22 args=[(send method_name=\x22v\xff\x00\x22 args=[]) (str value=\x22\xff\x01\x22)]))", full: b"(if_mod cond=(send method_name=\x22x\xff\x02\x22 args=[] selector=20-22 expression=20-22) if_false=(send method_name=\x22fail\x22 args=[(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) (str value=\x22\xff\x01\x22 begin=9-10 end=11-12 expression=9-12)] selector=0-4 expression=0-12) keyword=13-19 expression=0-22)", diag: b"", toks: b"\x0atIDENTIFIER 0-4 fail\x0atIDENTIFIER 5-7 v\xff\x00\x0atCOMMA 7-8 ,\x0atSTRING_BEG 9-10 \x22\x0atSTRING_CONTENT 10-11 \xff\x01\x0atSTRING_END 11-12 \x22\x0akUNLESS_MOD 13-19 unless\x0atIDENTIFIER 20-22 x\xff\x02\x0aEOF 22-22 " },
    Rec { t: b"v\xffa or return", shape: b"(or lhs=(send method_name=\x22v\xff\x00\x22 args=[]) rhs=(return args=[]))", full: b"(or lhs=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) rhs=(return args=[] keyword=6-12 expression=6-12) operator=3-5 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akOR 3-5 or\x0akRETURN 6-12 return\x0aEOF 12-12 " },
    Rec { t: b"v\xffa and break", shape: b"(and lhs=(send method_name=\x22v\xff\x00\x22 args=[]) rhs=(break args=[]))", full: b"(and lhs=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) rhs=(break args=[] keyword=7-12 expression=7-12) operator=3-6 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akAND 3-6 and\x0akBREAK 7-12 break\x0aEOF 12-12 " },
    Rec { t: b"v\xffa && (return \xffd)", shape: b"(and lhs=(send method_name=\x22v\xff\x00\x22 args=[]) rhs=(begin statements=[(return args=[(int value=\x22\xff\x01\x22)])]))", full: b"(and lhs=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) rhs=(begin statements=[(return args=[(int value=\x22\xff\x01\x22 expression=14-15)] keyword=7-13 expression=7-15)] begin=6-7 end=15-16 expression=6-16) operator=3-5 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atANDOP 3-5 &&\x0atLPAREN 6-7 (\x0akRETURN 7-13 return\x0atINTEGER 14-15 \xff\x01\x0atRPAREN 15-16 )\x0aEOF 16-16 " },
    Rec { t: b"alias v\xffa x\xffa", shape: b"(alias to=(sym name=\x22v\xff\x00\x22) from=(sym name=\x22x\xff\x01\x22))", full: b"(alias to=(sym name=\x22v\xff\x00\x22 expression=6-8) from=(sym name=\x22x\xff\x01\x22 expression=9-11) keyword=0-5 expression=0-11)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atIDENTIFIER 6-8 v\xff\x00\x0atIDENTIFIER 9-11 x\xff\x01\x0aEOF 11-11 " },
    Rec { t: b"alias :v\xffa :x\xffa", shape: b"(alias to=(sym name=\x22v\xff\x00\x22) from=(sym name=\x22x\xff\x01\x22))", full: b"(alias to=(sym name=\x22v\xff\x00\x22 begin=6-7 expression=6-9) from=(sym name=\x22x\xff\x01\x22 begin=10-11 expression=10-13) keyword=0-5 expression=0-13)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atSYMBEG 6-7 :\x0atIDENTIFIER 7-9 v\xff\x00\x0atSYMBEG 10-11 :\x0atIDENTIFIER 11-13 x\xff\x01\x0aEOF 13-13 " },
    Rec { t: b"alias $v\xffa $x\xffa", shape: b"(alias to=(gvar name=\x22$v\xff\x00\x22) from=(gvar name=\x22$x\xff\x01\x22))", full: b"(alias to=(gvar name=\x22$v\xff\x00\x22 expression=6-9) from=(gvar name=\x22$x\xff\x01\x22 expression=10-13) keyword=0-5 expression=0-13)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atGVAR 6-9 $v\xff\x00\x0atGVAR 10-13 $x\xff\x01\x0aEOF 13-13 " },
    Rec { t: b"alias $v\xffa $1", shape: b"none", full: b"none", diag: b"\x0aE 10-12 can't make alias for the number variables", toks: b"\x0akALIAS 0-5 alias\x0atGVAR 6-9 $v\xff\x00\x0atNTH_REF 10-12 $1\x0aEOF 12-12 " },
    Rec { t: b"alias + -", shape: b"(alias to=(sym name=\x22+\x22) from=(sym name=\x22-\x22))", full: b"(alias to=(sym name=\x22+\x22 expression=6-7) from=(sym name=\x22-\x22 expression=8-9) keyword=0-5 expression=0-9)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atPLUS 6-7 +\x0atMINUS 8-9 -\x0aEOF 9-9 " },
    Rec { t: b"alias v\xffa= x\xffa", shape: b"(alias to=(sym name=\x22v\xff\x00=\x22) from=(sym name=\x22x\xff\x01\x22))", full: b"(alias to=(sym name=\x22v\xff\x00=\x22 expression=6-9) from=(sym name=\x22x\xff\x01\x22 expression=10-12) keyword=0-5 expression=0-12)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atIDENTIFIER 6-9 v\xff\x00=\x0atIDENTIFIER 10-12 x\xff\x01\x0aEOF 12-12 " },
    Rec { t: b"alias :\x22\xfft\x22 :\x22\xfft#{x\xffa}\x22", shape: b"(alias to=(sym name=\x22\xff\x00\x22) from=(dsym parts=[(str value=\x22\xff\x01\x22) (begin statements=[(send method_name=\x22x\xff\x02\x22 args=[])])]))", full: b"(alias to=(sym name=\x22\xff\x00\x22 begin=6-8 end=9-10 expression=6-10) from=(dsym parts=[(str value=\x22\xff\x01\x22 expression=13-14) (begin statements=[(send method_name=\x22x\xff\x02\x22 args=[] selector=16-18 expression=16-18)] begin=14-16 end=18-19 expression=14-19)] begin=11-13 end=19-20 expression=11-20) keyword=0-5 expression=0-20)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atSYMBEG 6-8 :\x22\x0atSTRING_CONTENT 8-9 \xff\x00\x0atSTRING_END 9-10 \x22\x0atSYMBEG 11-13 :\x22\x0atSTRING_CONTENT 13-14 \xff\x01\x0atSTRING_DBEG 14-16 #{\x0atIDENTIFIER 16-18 x\xff\x02\x0atSTRING_DEND 18-19 }\x0atSTRING_END 19-20 \x22\x0aEOF 20-20 " },
    Rec { t: b"alias nil if", shape: b"(alias to=(sym name=\x22nil\x22) from=(sym name=\x22if\x22))", full: b"(alias to=(sym name=\x22nil\x22 expression=6-9) from=(sym name=\x22if\x22 expression=10-12) keyword=0-5 expression=0-12)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0akNIL 6-9 nil\x0akIF 10-12 if\x0aEOF 12-12 " },
    Rec { t: b"undef v\xffa", shape: b"(undef names=[(sym name=\x22v\xff\x00\x22)])", full: b"(undef names=[(sym name=\x22v\xff\x00\x22 expression=6-8)] keyword=0-5 expression=0-8)", diag: b"", toks: b"\x0akUNDEF 0-5 undef\x0atIDENTIFIER 6-8 v\xff\x00\x0aEOF 8-8 " },
    Rec { t: b"undef v\xffa, :x\xffa", shape: b"(undef names=[(sym name=\x22v\xff\x00\x22) (sym name=\x22x\xff\x01\x22)])", full: b"(undef names=[(sym name=\x22v\xff\x00\x22 expression=6-8) (sym name=\x22x\xff\x01\x22 begin=10-11 expression=10-13)] keyword=0-5 expression=0-13)", diag: b"", toks: b"\x0akUNDEF 0-5 undef\x0atIDENTIFIER 6-8 v\xff\x00\x0atCOMMA 8-9 ,\x0atSYMBEG 10-11 :\x0atIDENTIFIER 11-13 x\xff\x01\x0aEOF 13-13 " },
    Rec { t: b"undef :\x22\xfft#{v\xffa}\x22", shape: b"(undef names=[(dsym parts=[(str value=\x22\xff\x00\x22) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[])])])])", full: b"(undef names=[(dsym parts=[(str value=\x22\xff\x00\x22 expression=8-9) (begin statements=[(send method_name=\x22v\xff\x01\x22 args=[] selector=11-13 expression=11-13)] begin=9-11 end=13-14 expression=9-14)] begin=6-8 end=14-15 expression=6-15)] keyword=0-5 expression=0-15)", diag: b"", toks: b"\x0akUNDEF 0-5 undef\x0atSYMBEG 6-8 :\x22\x0atSTRING_CONTENT 8-9 \xff\x00\x0atSTRING_DBEG 9-11 #{\x0atIDENTIFIER 11-13 v\xff\x01\x0atSTRING_DEND 13-14 }\x0atSTRING_END 14-15 \x22\x0aEOF 15-15 " },
    Rec { t: b"undef +, []", shape: b"(undef names=[(sym name=\x22+\x22) (sym name=\x22[]\x22)])", full: b"(undef names=[(sym name=\x22+\x22 expression=6-7) (sym name=\x22[]\x22 expression=9-11)] keyword=0-5 expression=0-11)", diag: b"", toks: b"\x0akUNDEF 0-5 undef\x0atPLUS 6-7 +\x0atCOMMA 7-8 ,\x0atAREF 9-11 []\x0aEOF 11-11 " },
    Rec { t: b"v\xffa.x\xffa = \xffd if z\xffa", shape: b"(if_mod cond=(send method_name=\x22z\xff\x03\x22 args=[]) if_true=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01=\x22 args=[(int value=\x22\xff\x02\x22)]))", full: b"(if_mod cond=(send method_name=\x22z\xff\x03\x22 args=[] selector=13-15 expression=13-15) if_true=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01=\x22 args=[(int value=\x22\xff\x02\x22 expression=8-9)] dot=2-3 selector=3-5 operator=6-7 expression=0-9) keyword=10-12 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atEQL 6-7 =\x0atINTEGER 8-9 \xff\x02\x0akIF_MOD 10-12 if\x0atIDENTIFIER 13-15 z\xff\x03\x0aEOF 15-15 " },
    Rec { t: b"raise V\xffb, \x22\xfft\x22 if v\xffa", shape: b"(if_mod cond=(send method_name=\x22v\xff\x02\x22 args=[]) if_true=(send method_name=\x22raise\x22 args=[(const name=\x22V\xff\x00\x22) (str value=\x22\xff\x01\x22)]))", full: b"(if_mod cond=(send method_name=\x22v\xff\x02\x22 args=[] selector=17-19 expression=17-19) if_true=(send method_name=\x22raise\x22 args=[(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) (str value=\x22\xff\x01\x22 begin=10-11 end=12-13 expression=10-13)] selector=0-5 expression=0-13) keyword=14-16 expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-5 raise\x0atCONSTANT 6-8 V\xff\x00\x0atCOMMA 8-9 ,\x0atSTRING_BEG 10-11 \x22\x0atSTRING_CONTENT 11-12 \xff\x01\x0atSTRING_END 12-13 \x22\x0akIF_MOD 14-16 if\x0atIDENTIFIER 17-19 v\xff\x02\x0aEOF 19-19 " },
    Rec { t: b"attr_accessor :v\xffa, :x\xffa", shape: b"(send method_name=\x22attr_accessor\x22 args=[(sym name=\x22v\xff\x00\x22) (sym name=\x22x\xff\x01\x22)])", full: b"(send method_name=\x22attr_accessor\x22 args=[(sym name=\x22v\xff\x00\x22 begin=14-15 expression=14-17) (sym name=\x22x\xff\x01\x22 begin=19-20 expression=19-22)] selector=0-13 expression=0-22)", diag: b"", toks: b"\x0atIDENTIFIER 0-13 attr_accessor\x0atSYMBEG 14-15 :\x0atIDENTIFIER 15-17 v\xff\x00\x0atCOMMA 17-18 ,\x0atSYMBEG 19-20 :\x0atIDENTIFIER 20-22 x\xff\x01\x0aEOF 22-22 " },
    Rec { t: b"private def v\xffa; end", shape: b"(send method_name=\x22private\x22 args=[(def name=\x22v\xff\x00\x22)])", full: b"(send method_name=\x22private\x22 args=[(def name=\x22v\xff\x00\x22 keyword=8-11 name=12-14 end=16-19 expression=8-19)] selector=0-7 expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-7 private\x0akDEF 8-11 def\x0atIDENTIFIER 12-14 v\xff\x00\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"private attr_reader :v\xffa", shape: b"(send method_name=\x22private\x22 args=[(send method_name=\x22attr_reader\x22 args=[(sym name=\x22v\xff\x00\x22)])])", full: b"(send method_name=\x22private\x22 args=[(send method_name=\x22attr_reader\x22 args=[(sym name=\x22v\xff\x00\x22 begin=20-21 expression=20-23)] selector=8-19 expression=8-23)] selector=0-7 expression=0-23)", diag: b"", toks: b"\x0atIDENTIFIER 0-7 private\x0atIDENTIFIER 8-19 attr_reader\x0atSYMBEG 20-21 :\x0atIDENTIFIER 21-23 v\xff\x00\x0aEOF 23-23 " },
    Rec { t: b"require \x22\xfft\x22", shape: b"(send method_name=\x22require\x22 args=[(str value=\x22\xff\x00\x22)])", full: b"(send method_name=\x22require\x22 args=[(str value=\x22\xff\x00\x22 begin=8-9 end=10-11 expression=8-11)] selector=0-7 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-7 require\x0atSTRING_BEG 8-9 \x22\x0atSTRING_CONTENT 9-10 \xff\x00\x0atSTRING_END 10-11 \x22\x0aEOF 11-11 " },
    Rec { t: b"v\xffa !x\xffa", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(send recv=(send method_name=\x22x\xff\x01\x22 args=[]) method_name=\x22!\x22 args=[])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(send recv=(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6) method_name=\x22!\x22 args=[] selector=3-4 expression=3-6)] selector=0-2 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atBANG 3-4 !\x0atIDENTIFIER 4-6 x\xff\x01\x0aEOF 6-6 " },
    Rec { t: b"v\xffa ! x\xffa", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(send recv=(send method_name=\x22x\xff\x01\x22 args=[]) method_name=\x22!\x22 args=[])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(send recv=(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7) method_name=\x22!\x22 args=[] selector=3-4 expression=3-7)] selector=0-2 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atBANG 3-4 !\x0atIDENTIFIER 5-7 x\xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa -x\xffa", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(send recv=(send method_name=\x22x\xff\x01\x22 args=[]) method_name=\x22-@\x22 args=[])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(send recv=(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6) method_name=\x22-@\x22 args=[] selector=3-4 expression=3-6)] selector=0-2 expression=0-6)", diag: b"\x0aW 3-4 ambiguous first argument; put parentheses or a space even after `-' operator", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atUMINUS 3-4 -\x0atIDENTIFIER 4-6 x\xff\x01\x0aEOF 6-6 " },
    Rec { t: b"v\xffa - x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22-\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22-\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7)] selector=3-4 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atMINUS 3-4 -\x0atIDENTIFIER 5-7 x\xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa * x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22*\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22*\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7)] selector=3-4 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atSTAR2 3-4 *\x0atIDENTIFIER 5-7 x\xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa & x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22&\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22&\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7)] selector=3-4 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atAMPER2 3-4 &\x0atIDENTIFIER 5-7 x\xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa ::X\xffb", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(const scope=(cbase) name=\x22X\xff\x01\x22)])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(const scope=(cbase expression=3-5) name=\x22X\xff\x01\x22 double_colon=3-5 name=5-7 expression=3-7)] selector=0-2 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON3 3-5 ::\x0atCONSTANT 5-7 X\xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa ::X\xffb, \xffd", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(const scope=(cbase) name=\x22X\xff\x01\x22) (int value=\x22\xff\x02\x22)])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(const scope=(cbase expression=3-5) name=\x22X\xff\x01\x22 double_colon=3-5 name=5-7 expression=3-7) (int value=\x22\xff\x02\x22 expression=9-10)] selector=0-2 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON3 3-5 ::\x0atCONSTANT 5-7 X\xff\x01\x0atCOMMA 7-8 ,\x0atINTEGER 9-10 \xff\x02\x0aEOF 10-10 " },
    Rec { t: b"v\xffa <<x\xffa", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(heredoc parts=[])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(heredoc parts=[] heredoc_body=7-7 heredoc_end=7-7 expression=3-7)] selector=0-2 expression=0-7)", diag: b"\x0aE 5-7 can't find string \x22x\xff\x01\x22 anywhere before EOF", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atSTRING_BEG 3-7 <<x\xff\x01\x0atSTRING_END 7-7 \x0aEOF 7-7 " },
    Rec { t: b"v\xffa / x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22/\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22/\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7)] selector=3-4 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDIVIDE 3-4 /\x0atIDENTIFIER 5-7 x\xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa /x\xfft/", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(regexp parts=[(str value=\x22x\xff\x01\x22)])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(regexp parts=[(str value=\x22x\xff\x01\x22 expression=4-6)] begin=3-4 end=6-7 expression=3-7)] selector=0-2 expression=0-7)", diag: b"\x0aW 3-4 ambiguity between regexp and two divisions: wrap regexp in parentheses or add a space after `/' operator", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atREGEXP_BEG 3-4 /\x0atSTRING_CONTENT 4-6 x\xff\x01\x0atREGEXP_END 6-7 /\x0aEOF 7-7 " },
    Rec { t: b"v\xffa % x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22%\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22%\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7)] selector=3-4 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atPERCENT 3-4 %\x0atIDENTIFIER 5-7 x\xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa %w[\xfft]", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(array elements=[(str value=\x22\xff\x01\x22)])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(array elements=[(str value=\x22\xff\x01\x22 expression=6-7)] begin=3-6 end=7-8 expression=3-8)] selector=0-2 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atQWORDS_BEG 3-6 %w[\x0atSPACE 6-6 \x0atSTRING_CONTENT 6-7 \xff\x01\x0atSPACE 7-7 \x0atSTRING_END 7-8 ]\x0aEOF 8-8 " },
    Rec { t: b"v\xffa = \xffd; v\xfe\x00 /x\xffa", shape: b"(begin statements=[(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22)) (send recv=(lvar name=\x22v\xff\x00\x22) method_name=\x22/\x22 args=[(send method_name=\x22x\xff\x02\x22 args=[])])])", full: b"(begin statements=[(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (send recv=(lvar name=\x22v\xff\x00\x22 expression=8-10) method_name=\x22/\x22 args=[(send method_name=\x22x\xff\x02\x22 args=[] selector=12-14 expression=12-14)] selector=11-12 expression=8-14)] expression=0-14)", diag: b"\x0aW 11-12 `/' after local variable or literal is interpreted as binary operator even though it seems like regexp literal", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x01\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 v\xff\x00\x0atDIVIDE 11-12 /\x0atIDENTIFIER 12-14 x\xff\x02\x0aEOF 14-14 " },
    Rec { t: b"v\xffa = \xffd; v\xfe\x00 -x\xffa", shape: b"(begin statements=[(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22)) (send recv=(lvar name=\x22v\xff\x00\x22) method_name=\x22-\x22 args=[(send method_name=\x22x\xff\x02\x22 args=[])])])", full: b"(begin statements=[(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (send recv=(lvar name=\x22v\xff\x00\x22 expression=8-10) method_name=\x22-\x22 args=[(send method_name=\x22x\xff\x02\x22 args=[] selector=12-14 expression=12-14)] selector=11-12 expression=8-14)] expression=0-14)", diag: b"\x0aW 11-12 `-' after local variable or literal is interpreted as binary operator even though it seems like unary operator", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x01\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 v\xff\x00\x0atMINUS 11-12 -\x0atIDENTIFIER 12-14 x\xff\x02\x0aEOF 14-14 " },
    Rec { t: b"v\xffa = \xffd; v\xfe\x00 [x\xffa]", shape: b"(begin statements=[(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22)) (index recv=(lvar name=\x22v\xff\x00\x22) indexes=[(send method_name=\x22x\xff\x02\x22 args=[])])])", full: b"(begin statements=[(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (index recv=(lvar name=\x22v\xff\x00\x22 expression=8-10) indexes=[(send method_name=\x22x\xff\x02\x22 args=[] selector=12-14 expression=12-14)] begin=11-12 end=14-15 expression=8-15)] expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x01\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 v\xff\x00\x0atLBRACK2 11-12 [\x0atIDENTIFIER 12-14 x\xff\x02\x0atRBRACK 14-15 ]\x0aEOF 15-15 " },
    Rec { t: b"v\xffa = \xffd; v\xfe\x00 (x\xffa)", shape: b"(begin statements=[(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22)) (send method_name=\x22v\xff\x00\x22 args=[(begin statements=[(send method_name=\x22x\xff\x02\x22 args=[])])])])", full: b"(begin statements=[(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (send method_name=\x22v\xff\x00\x22 args=[(begin statements=[(send method_name=\x22x\xff\x02\x22 args=[] selector=12-14 expression=12-14)] begin=11-12 end=14-15 expression=11-15)] selector=8-10 expression=8-15)] expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x01\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 v\xff\x00\x0atLPAREN_ARG 11-12 (\x0atIDENTIFIER 12-14 x\xff\x02\x0atRPAREN 14-15 )\x0aEOF 15-15 " },
    Rec { t: b"v\xffa = \xffd; v\xfe\x00[x\xffa]", shape: b"(begin statements=[(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22)) (index recv=(lvar name=\x22v\xff\x00\x22) indexes=[(send method_name=\x22x\xff\x02\x22 args=[])])])", full: b"(begin statements=[(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (index recv=(lvar name=\x22v\xff\x00\x22 expression=8-10) indexes=[(send method_name=\x22x\xff\x02\x22 args=[] selector=11-13 expression=11-13)] begin=10-11 end=13-14 expression=8-14)] expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x01\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 v\xff\x00\x0atLBRACK2 10-11 [\x0atIDENTIFIER 11-13 x\xff\x02\x0atRBRACK 13-14 ]\x0aEOF 14-14 " },
    Rec { t: b"v\xffa = \xffd; v\xfe\x00 *x\xffa", shape: b"(begin statements=[(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22)) (send recv=(lvar name=\x22v\xff\x00\x22) method_name=\x22*\x22 args=[(send method_name=\x22x\xff\x02\x22 args=[])])])", full: b"(begin statements=[(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (send recv=(lvar name=\x22v\xff\x00\x22 expression=8-10) method_name=\x22*\x22 args=[(send method_name=\x22x\xff\x02\x22 args=[] selector=12-14 expression=12-14)] selector=11-12 expression=8-14)] expression=0-14)", diag: b"\x0aW 11-12 `*' after local variable or literal is interpreted as binary operator even though it seems like argument prefix", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x01\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 v\xff\x00\x0atSTAR2 11-12 *\x0atIDENTIFIER 12-14 x\xff\x02\x0aEOF 14-14 " },
    Rec { t: b"v\xffa = \xffd; v\xfe\x00 &x\xffa", shape: b"(begin statements=[(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22)) (send recv=(lvar name=\x22v\xff\x00\x22) method_name=\x22&\x22 args=[(send method_name=\x22x\xff\x02\x22 args=[])])])", full: b"(begin statements=[(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (send recv=(lvar name=\x22v\xff\x00\x22 expression=8-10) method_name=\x22&\x22 args=[(send method_name=\x22x\xff\x02\x22 args=[] selector=12-14 expression=12-14)] selector=11-12 expression=8-14)] expression=0-14)", diag: b"\x0aW 11-12 `&' after local variable or literal is interpreted as binary operator even though it seems like argument prefix", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x01\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 v\xff\x00\x0atAMPER2 11-12 &\x0atIDENTIFIER 12-14 x\xff\x02\x0aEOF 14-14 " },
    Rec { t: b"v\xffa = \xffd; v\xfe\x00 ? \xffd : \xffd", shape: b"(begin statements=[(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22)) (if_ternary cond=(lvar name=\x22v\xff\x00\x22) if_true=(int value=\x22\xff\x02\x22) if_false=(int value=\x22\xff\x03\x22))])", full: b"(begin statements=[(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (if_ternary cond=(lvar name=\x22v\xff\x00\x22 expression=8-10) if_true=(int value=\x22\xff\x02\x22 expression=13-14) if_false=(int value=\x22\xff\x03\x22 expression=17-18) question=11-12 colon=15-16 expression=8-18)] expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x01\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 v\xff\x00\x0atEH 11-12 ?\x0atINTEGER 13-14 \xff\x02\x0atCOLON 15-16 :\x0atINTEGER 17-18 \xff\x03\x0aEOF 18-18 " },
    Rec { t: b"v\xffa = \xffd; v\xfe\x00() + v\xfe\x00", shape: b"(begin statements=[(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22)) (send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22+\x22 args=[(lvar name=\x22v\xff\x00\x22)])])", full: b"(begin statements=[(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=8-10 begin=10-11 end=11-12 expression=8-12) method_name=\x22+\x22 args=[(lvar name=\x22v\xff\x00\x22 expression=15-17)] selector=13-14 expression=8-17)] expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x01\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 v\xff\x00\x0atLPAREN2 10-11 (\x0atRPAREN 11-12 )\x0atPLUS 13-14 +\x0atIDENTIFIER 15-17 v\xff\x00\x0aEOF 17-17 " },
    Rec { t: b"v\xffa = \xffd; v\xfe\x00 x\xffa", shape: b"(begin statements=[(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22)) (send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x02\x22 args=[])])])", full: b"(begin statements=[(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x02\x22 args=[] selector=11-13 expression=11-13)] selector=8-10 expression=8-13)] expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x01\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 v\xff\x00\x0atIDENTIFIER 11-13 x\xff\x02\x0aEOF 13-13 " },
    Rec { t: b"v\xffa = \xffd; v\xfe\x00 { x\xffa }", shape: b"(begin statements=[(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22)) (block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(send method_name=\x22x\xff\x02\x22 args=[]))])", full: b"(begin statements=[(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=8-10 expression=8-10) body=(send method_name=\x22x\xff\x02\x22 args=[] selector=13-15 expression=13-15) begin=11-12 end=16-17 expression=8-17)] expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x01\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 v\xff\x00\x0atLCURLY 11-12 {\x0atIDENTIFIER 13-15 x\xff\x02\x0atRCURLY 16-17 }\x0aEOF 17-17 " },
];
pub static BLOCK: &[Rec] = &[
    Rec { t: b"v\xffa { }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) begin=3-4 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atRCURLY 5-6 }\x0aEOF 6-6 " },
    Rec { t: b"v\xffa {}", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) begin=3-4 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atRCURLY 4-5 }\x0aEOF 5-5 " },
    Rec { t: b"v\xffa { x\xffa }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) body=(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7) begin=3-4 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atIDENTIFIER 5-7 x\xff\x01\x0atRCURLY 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"v\xffa { x\xffa; z\xffa }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[]) (send method_name=\x22z\xff\x02\x22 args=[])]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) body=(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7) (send method_name=\x22z\xff\x02\x22 args=[] selector=9-11 expression=9-11)] expression=5-11) begin=3-4 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atIDENTIFIER 5-7 x\xff\x01\x0atSEMI 7-8 ;\x0atIDENTIFIER 9-11 z\xff\x02\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"v\xffa do end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) begin=3-5 end=6-9 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0akEND 6-9 end\x0aEOF 9-9 " },
    Rec { t: b"v\xffa do x\xffa end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) body=(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8) begin=3-5 end=9-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0atIDENTIFIER 6-8 x\xff\x01\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"v\xffa do\x0ax\xffa\x0az\xffa\x0aend", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[]) (send method_name=\x22z\xff\x02\x22 args=[])]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) body=(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8) (send method_name=\x22z\xff\x02\x22 args=[] selector=9-11 expression=9-11)] expression=6-11) begin=3-5 end=12-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0atIDENTIFIER 6-8 x\xff\x01\x0atNL 8-9 \x0a\x0atIDENTIFIER 9-11 z\xff\x02\x0atNL 11-12 \x0a\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"v\xffa { || }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[] expression=5-7 begin=5-6 end=6-7) begin=3-4 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atPIPE 6-7 |\x0atRCURLY 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"v\xffa { || \xffd }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[]) body=(int value=\x22\xff\x01\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[] expression=5-7 begin=5-6 end=6-7) body=(int value=\x22\xff\x01\x22 expression=8-9) begin=3-4 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atPIPE 6-7 |\x0atINTEGER 8-9 \xff\x01\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"v\xffa { |x\xffa| }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22)])]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22 expression=6-8)] expression=6-8)] expression=5-9 begin=5-6 end=8-9) begin=3-4 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atPIPE 8-9 |\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"v\xffa { |x\xffa| x\xfe\x01 }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22)])]) body=(lvar name=\x22x\xff\x01\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22 expression=6-8)] expression=6-8)] expression=5-9 begin=5-6 end=8-9) body=(lvar name=\x22x\xff\x01\x22 expression=10-12) begin=3-4 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atPIPE 8-9 |\x0atIDENTIFIER 10-12 x\xff\x01\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"v\xffa { |x\xffa,| x\xfe\x01 }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(arg name=\x22x\xff\x01\x22)]) body=(lvar name=\x22x\xff\x01\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22x\xff\x01\x22 expression=6-8)] expression=5-10 begin=5-6 end=9-10) body=(lvar name=\x22x\xff\x01\x22 expression=11-13) begin=3-4 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atCOMMA 8-9 ,\x0atPIPE 9-10 |\x0atIDENTIFIER 11-13 x\xff\x01\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"v\xffa { |x\xffa, zo| x\xfe\x01 }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(arg name=\x22x\xff\x01\x22) (arg name=\x22zo\x22)]) body=(lvar name=\x22x\xff\x01\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22x\xff\x01\x22 expression=6-8) (arg name=\x22zo\x22 expression=10-12)] expression=5-13 begin=5-6 end=12-13) body=(lvar name=\x22x\xff\x01\x22 expression=14-16) begin=3-4 end=17-18 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 zo\x0atPIPE 12-13 |\x0atIDENTIFIER 14-16 x\xff\x01\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"v\xffa { |*x\xffa| x\xfe\x01 }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(restarg name=\x22x\xff\x01\x22)]) body=(lvar name=\x22x\xff\x01\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(restarg name=\x22x\xff\x01\x22 operator=6-7 name=7-9 expression=6-9)] expression=5-10 begin=5-6 end=9-10) body=(lvar name=\x22x\xff\x01\x22 expression=11-13) begin=3-4 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atSTAR 6-7 *\x0atIDENTIFIER 7-9 x\xff\x01\x0atPIPE 9-10 |\x0atIDENTIFIER 11-13 x\xff\x01\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"v\xffa { |*| \xffd }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(restarg)]) body=(int value=\x22\xff\x01\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(restarg operator=6-7 expression=6-7)] expression=5-8 begin=5-6 end=7-8) body=(int value=\x22\xff\x01\x22 expression=9-10) begin=3-4 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atSTAR 6-7 *\x0atPIPE 7-8 |\x0atINTEGER 9-10 \xff\x01\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"v\xffa { |x\xffa, *zo| \xffd }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(arg name=\x22x\xff\x01\x22) (restarg name=\x22zo\x22)]) body=(int value=\x22\xff\x02\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22x\xff\x01\x22 expression=6-8) (restarg name=\x22zo\x22 operator=10-11 name=11-13 expression=10-13)] expression=5-14 begin=5-6 end=13-14) body=(int value=\x22\xff\x02\x22 expression=15-16) begin=3-4 end=17-18 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atCOMMA 8-9 ,\x0atSTAR 10-11 *\x0atIDENTIFIER 11-13 zo\x0atPIPE 13-14 |\x0atINTEGER 15-16 \xff\x02\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"v\xffa { |x\xffa, *| \xffd }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(arg name=\x22x\xff\x01\x22) (restarg)]) body=(int value=\x22\xff\x02\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22x\xff\x01\x22 expression=6-8) (restarg operator=10-11 expression=10-11)] expression=5-12 begin=5-6 end=11-12) body=(int value=\x22\xff\x02\x22 expression=13-14) begin=3-4 end=15-16 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atCOMMA 8-9 ,\x0atSTAR 10-11 *\x0atPIPE 11-12 |\x0atINTEGER 13-14 \xff\x02\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"v\xffa { |*x\xffa, zo| \xffd }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(restarg name=\x22x\xff\x01\x22) (arg name=\x22zo\x22)]) body=(int value=\x22\xff\x02\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(restarg name=\x22x\xff\x01\x22 operator=6-7 name=7-9 expression=6-9) (arg name=\x22zo\x22 expression=11-13)] expression=5-14 begin=5-6 end=13-14) body=(int value=\x22\xff\x02\x22 expression=15-16) begin=3-4 end=17-18 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atSTAR 6-7 *\x0atIDENTIFIER 7-9 x\xff\x01\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 zo\x0atPIPE 13-14 |\x0atINTEGER 15-16 \xff\x02\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"v\xffa { |x\xffa, *zo, qo| \xffd }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(arg name=\x22x\xff\x01\x22) (restarg name=\x22zo\x22) (arg name=\x22qo\x22)]) body=(int value=\x22\xff\x02\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22x\xff\x01\x22 expression=6-8) (restarg name=\x22zo\x22 operator=10-11 name=11-13 expression=10-13) (arg name=\x22qo\x22 expression=15-17)] expression=5-18 begin=5-6 end=17-18) body=(int value=\x22\xff\x02\x22 expression=19-20) begin=3-4 end=21-22 expression=0-22)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atCOMMA 8-9 ,\x0atSTAR 10-11 *\x0atIDENTIFIER 11-13 zo\x0atCOMMA 13-14 ,\x0atIDENTIFIER 15-17 qo\x0atPIPE 17-18 |\x0atINTEGER 19-20 \xff\x02\x0atRCURLY 21-22 }\x0aEOF 22-22 " },
    Rec { t: b"v\xffa { |x\xffa = \xffd| x\xfe\x01 }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22))]) body=(lvar name=\x22x\xff\x01\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=11-12) name=6-8 operator=9-10 expression=6-12)] expression=5-13 begin=5-6 end=12-13) body=(lvar name=\x22x\xff\x01\x22 expression=14-16) begin=3-4 end=17-18 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atEQL 9-10 =\x0atINTEGER 11-12 \xff\x02\x0atPIPE 12-13 |\x0atIDENTIFIER 14-16 x\xff\x01\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"v\xffa { |x\xffa = \xffd, zo = \xffd| x\xfe\x01 }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x03\x22))]) body=(lvar name=\x22x\xff\x01\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=11-12) name=6-8 operator=9-10 expression=6-12) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x03\x22 expression=19-20) name=14-16 operator=17-18 expression=14-20)] expression=5-21 begin=5-6 end=20-21) body=(lvar name=\x22x\xff\x01\x22 expression=22-24) begin=3-4 end=25-26 expression=0-26)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atEQL 9-10 =\x0atINTEGER 11-12 \xff\x02\x0atCOMMA 12-13 ,\x0atIDENTIFIER 14-16 zo\x0atEQL 17-18 =\x0atINTEGER 19-20 \xff\x03\x0atPIPE 20-21 |\x0atIDENTIFIER 22-24 x\xff\x01\x0atRCURLY 25-26 }\x0aEOF 26-26 " },
    Rec { t: b"v\xffa { |x\xffa, zo = \xffd| x\xfe\x01 }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(arg name=\x22x\xff\x01\x22) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22))]) body=(lvar name=\x22x\xff\x01\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22x\xff\x01\x22 expression=6-8) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22 expression=15-16) name=10-12 operator=13-14 expression=10-16)] expression=5-17 begin=5-6 end=16-17) body=(lvar name=\x22x\xff\x01\x22 expression=18-20) begin=3-4 end=21-22 expression=0-22)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 zo\x0atEQL 13-14 =\x0atINTEGER 15-16 \xff\x02\x0atPIPE 16-17 |\x0atIDENTIFIER 18-20 x\xff\x01\x0atRCURLY 21-22 }\x0aEOF 22-22 " },
    Rec { t: b"v\xffa { |x\xffa = \xffd, zo| x\xfe\x01 }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (arg name=\x22zo\x22)]) body=(lvar name=\x22x\xff\x01\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=11-12) name=6-8 operator=9-10 expression=6-12) (arg name=\x22zo\x22 expression=14-16)] expression=5-17 begin=5-6 end=16-17) body=(lvar name=\x22x\xff\x01\x22 expression=18-20) begin=3-4 end=21-22 expression=0-22)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atEQL 9-10 =\x0atINTEGER 11-12 \xff\x02\x0atCOMMA 12-13 ,\x0atIDENTIFIER 14-16 zo\x0atPIPE 16-17 |\x0atIDENTIFIER 18-20 x\xff\x01\x0atRCURLY 21-22 }\x0aEOF 22-22 " },
    Rec { t: b"v\xffa { |x\xffa = \xffd, *zo, qo| x\xfe\x01 }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (restarg name=\x22zo\x22) (arg name=\x22qo\x22)]) body=(lvar name=\x22x\xff\x01\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=11-12) name=6-8 operator=9-10 expression=6-12) (restarg name=\x22zo\x22 operator=14-15 name=15-17 expression=14-17) (arg name=\x22qo\x22 expression=19-21)] expression=5-22 begin=5-6 end=21-22) body=(lvar name=\x22x\xff\x01\x22 expression=23-25) begin=3-4 end=26-27 expression=0-27)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atEQL 9-10 =\x0atINTEGER 11-12 \xff\x02\x0atCOMMA 12-13 ,\x0atSTAR 14-15 *\x0atIDENTIFIER 15-17 zo\x0atCOMMA 17-18 ,\x0atIDENTIFIER 19-21 qo\x0atPIPE 21-22 |\x0atIDENTIFIER 23-25 x\xff\x01\x0atRCURLY 26-27 }\x0aEOF 27-27 " },
    Rec { t: b"v\xffa { |x\xffa = (\xffd | \xffd)| x\xfe\x01 }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(begin statements=[(send recv=(int value=\x22\xff\x02\x22) method_name=\x22|\x22 args=[(int value=\x22\xff\x03\x22)])]))]) body=(lvar name=\x22x\xff\x01\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(begin statements=[(send recv=(int value=\x22\xff\x02\x22 expression=12-13) method_name=\x22|\x22 args=[(int value=\x22\xff\x03\x22 expression=16-17)] selector=14-15 expression=12-17)] begin=11-12 end=17-18 expression=11-18) name=6-8 operator=9-10 expression=6-18)] expression=5-19 begin=5-6 end=18-19) body=(lvar name=\x22x\xff\x01\x22 expression=20-22) begin=3-4 end=23-24 expression=0-24)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atEQL 9-10 =\x0atLPAREN 11-12 (\x0atINTEGER 12-13 \xff\x02\x0atPIPE 14-15 |\x0atINTEGER 16-17 \xff\x03\x0atRPAREN 17-18 )\x0atPIPE 18-19 |\x0atIDENTIFIER 20-22 x\xff\x01\x0atRCURLY 23-24 }\x0aEOF 24-24 " },
    Rec { t: b"v\xffa { |x\xffa:| x\xfe\x01 }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(kwarg name=\x22x\xff\x01\x22)]) body=(lvar name=\x22x\xff\x01\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(kwarg name=\x22x\xff\x01\x22 name=6-8 expression=6-9)] expression=5-10 begin=5-6 end=9-10) body=(lvar name=\x22x\xff\x01\x22 expression=11-13) begin=3-4 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atLABEL 6-9 x\xff\x01\x0atPIPE 9-10 |\x0atIDENTIFIER 11-13 x\xff\x01\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"v\xffa { |x\xffa: \xffd| x\xfe\x01 }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(kwoptarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22))]) body=(lvar name=\x22x\xff\x01\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(kwoptarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=10-11) name=6-8 expression=6-11)] expression=5-12 begin=5-6 end=11-12) body=(lvar name=\x22x\xff\x01\x22 expression=13-15) begin=3-4 end=16-17 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atLABEL 6-9 x\xff\x01\x0atINTEGER 10-11 \xff\x02\x0atPIPE 11-12 |\x0atIDENTIFIER 13-15 x\xff\x01\x0atRCURLY 16-17 }\x0aEOF 17-17 " },
    Rec { t: b"v\xffa { |x\xffa:, zo: \xffd| x\xfe\x01 }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(kwarg name=\x22x\xff\x01\x22) (kwoptarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22))]) body=(lvar name=\x22x\xff\x01\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(kwarg name=\x22x\xff\x01\x22 name=6-8 expression=6-9) (kwoptarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22 expression=15-16) name=11-13 expression=11-16)] expression=5-17 begin=5-6 end=16-17) body=(lvar name=\x22x\xff\x01\x22 expression=18-20) begin=3-4 end=21-22 expression=0-22)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atLABEL 6-9 x\xff\x01\x0atCOMMA 9-10 ,\x0atLABEL 11-14 zo\x0atINTEGER 15-16 \xff\x02\x0atPIPE 16-17 |\x0atIDENTIFIER 18-20 x\xff\x01\x0atRCURLY 21-22 }\x0aEOF 22-22 " },
    Rec { t: b"v\xffa { |**x\xffa| x\xfe\x01 }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(kwrestarg name=\x22x\xff\x01\x22)]) body=(lvar name=\x22x\xff\x01\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(kwrestarg name=\x22x\xff\x01\x22 operator=6-8 name=8-10 expression=6-10)] expression=5-11 begin=5-6 end=10-11) body=(lvar name=\x22x\xff\x01\x22 expression=12-14) begin=3-4 end=15-16 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atDSTAR 6-8 **\x0atIDENTIFIER 8-10 x\xff\x01\x0atPIPE 10-11 |\x0atIDENTIFIER 12-14 x\xff\x01\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"v\xffa { |**| \xffd }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(kwrestarg)]) body=(int value=\x22\xff\x01\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(kwrestarg operator=6-8 expression=6-8)] expression=5-9 begin=5-6 end=8-9) body=(int value=\x22\xff\x01\x22 expression=10-11) begin=3-4 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atDSTAR 6-8 **\x0atPIPE 8-9 |\x0atINTEGER 10-11 \xff\x01\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"v\xffa { |**nil| \xffd }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(kwnilarg)]) body=(int value=\x22\xff\x01\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(kwnilarg name=8-11 expression=6-11)] expression=5-12 begin=5-6 end=11-12) body=(int value=\x22\xff\x01\x22 expression=13-14) begin=3-4 end=15-16 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atDSTAR 6-8 **\x0akNIL 8-11 nil\x0atPIPE 11-12 |\x0atINTEGER 13-14 \xff\x01\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"v\xffa { |x\xffa, **zo| x\xfe\x01 }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(arg name=\x22x\xff\x01\x22) (kwrestarg name=\x22zo\x22)]) body=(lvar name=\x22x\xff\x01\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22x\xff\x01\x22 expression=6-8) (kwrestarg name=\x22zo\x22 operator=10-12 name=12-14 expression=10-14)] expression=5-15 begin=5-6 end=14-15) body=(lvar name=\x22x\xff\x01\x22 expression=16-18) begin=3-4 end=19-20 expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atCOMMA 8-9 ,\x0atDSTAR 10-12 **\x0atIDENTIFIER 12-14 zo\x0atPIPE 14-15 |\x0atIDENTIFIER 16-18 x\xff\x01\x0atRCURLY 19-20 }\x0aEOF 20-20 " },
    Rec { t: b"v\xffa { |&x\xffa| x\xfe\x01 }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(blockarg name=\x22x\xff\x01\x22)]) body=(lvar name=\x22x\xff\x01\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(blockarg name=\x22x\xff\x01\x22 operator=6-7 name=7-9 expression=6-9)] expression=5-10 begin=5-6 end=9-10) body=(lvar name=\x22x\xff\x01\x22 expression=11-13) begin=3-4 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atAMPER 6-7 &\x0atIDENTIFIER 7-9 x\xff\x01\x0atPIPE 9-10 |\x0atIDENTIFIER 11-13 x\xff\x01\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"v\xffa { |x\xffa, &zo| zo }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(arg name=\x22x\xff\x01\x22) (blockarg name=\x22zo\x22)]) body=(lvar name=\x22zo\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22x\xff\x01\x22 expression=6-8) (blockarg name=\x22zo\x22 operator=10-11 name=11-13 expression=10-13)] expression=5-14 begin=5-6 end=13-14) body=(lvar name=\x22zo\x22 expression=15-17) begin=3-4 end=18-19 expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atCOMMA 8-9 ,\x0atAMPER 10-11 &\x0atIDENTIFIER 11-13 zo\x0atPIPE 13-14 |\x0atIDENTIFIER 15-17 zo\x0atRCURLY 18-19 }\x0aEOF 19-19 " },
    Rec { t: b"v\xffa { |x\xffa, zo = \xffd, *qo, ko, jo:, ho: \xffd, **yo, &wo| \xffd }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(arg name=\x22x\xff\x01\x22) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22)) (restarg name=\x22qo\x22) (arg name=\x22ko\x22) (kwarg name=\x22jo\x22) (kwoptarg name=\x22ho\x22 default=(int value=\x22\xff\x03\x22)) (kwrestarg name=\x22yo\x22) (blockarg name=\x22wo\x22)]) body=(int value=\x22\xff\x04\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22x\xff\x01\x22 expression=6-8) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22 expression=15-16) name=10-12 operator=13-14 expression=10-16) (restarg name=\x22qo\x22 operator=18-19 name=19-21 expression=18-21) (arg name=\x22ko\x22 expression=23-25) (kwarg name=\x22jo\x22 name=27-29 expression=27-30) (kwoptarg name=\x22ho\x22 default=(int value=\x22\xff\x03\x22 expression=36-37) name=32-34 expression=32-37) (kwrestarg name=\x22yo\x22 operator=39-41 name=41-43 expression=39-43) (blockarg name=\x22wo\x22 operator=45-46 name=46-48 expression=45-48)] expression=5-49 begin=5-6 end=48-49) body=(int value=\x22\xff\x04\x22 expression=50-51) begin=3-4 end=52-53 expression=0-53)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 zo\x0atEQL 13-14 =\x0atINTEGER 15-16 \xff\x02\x0atCOMMA 16-17 ,\x0atSTAR 18-19 *\x0atIDENTIFIER 19-21 qo\x0atCOMMA 21-22 ,\x0atIDENTIFIER 23-25 ko\x0atCOMMA 25-26 ,\x0atLABEL 27-30 jo\x0atCOMMA 30-31 ,\x0atLABEL 32-35 ho\x0atINTEGER 36-37 \xff\x03\x0atCOMMA 37-38 ,\x0atDSTAR 39-41 **\x0atIDENTIFIER 41-43 yo\x0atCOMMA 43-44 ,\x0atAMPER 45-46 &\x0atIDENTIFIER 46-48 wo\x0atPIPE 48-49 |\x0atINTEGER 50-51 \xff\x04\x0atRCURLY 52-53 }\x0aEOF 53-53 " },
    Rec { t: b"v\xffa { |(x\xffa, zo)| x\xfe\x01 }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22) (arg name=\x22zo\x22)])]) body=(lvar name=\x22x\xff\x01\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22 expression=7-9) (arg name=\x22zo\x22 expression=11-13)] begin=6-7 end=13-14 expression=6-14)] expression=5-15 begin=5-6 end=14-15) body=(lvar name=\x22x\xff\x01\x22 expression=16-18) begin=3-4 end=19-20 expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atLPAREN 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 zo\x0atRPAREN 13-14 )\x0atPIPE 14-15 |\x0atIDENTIFIER 16-18 x\xff\x01\x0atRCURLY 19-20 }\x0aEOF 20-20 " },
    Rec { t: b"v\xffa { |(x\xffa, zo), qo| x\xfe\x01 }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(mlhs items=[(arg name=\x22x\xff\x01\x22) (arg name=\x22zo\x22)]) (arg name=\x22qo\x22)]) body=(lvar name=\x22x\xff\x01\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(mlhs items=[(arg name=\x22x\xff\x01\x22 expression=7-9) (arg name=\x22zo\x22 expression=11-13)] begin=6-7 end=13-14 expression=6-14) (arg name=\x22qo\x22 expression=16-18)] expression=5-19 begin=5-6 end=18-19) body=(lvar name=\x22x\xff\x01\x22 expression=20-22) begin=3-4 end=23-24 expression=0-24)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atLPAREN 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 zo\x0atRPAREN 13-14 )\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-18 qo\x0atPIPE 18-19 |\x0atIDENTIFIER 20-22 x\xff\x01\x0atRCURLY 23-24 }\x0aEOF 24-24 " },
    Rec { t: b"v\xffa { |x\xffa, (zo, (qo, *ko)), jo| \xffd }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(arg name=\x22x\xff\x01\x22) (mlhs items=[(arg name=\x22zo\x22) (mlhs items=[(arg name=\x22qo\x22) (restarg name=\x22ko\x22)])]) (arg name=\x22jo\x22)]) body=(int value=\x22\xff\x02\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22x\xff\x01\x22 expression=6-8) (mlhs items=[(arg name=\x22zo\x22 expression=11-13) (mlhs items=[(arg name=\x22qo\x22 expression=16-18) (restarg name=\x22ko\x22 operator=20-21 name=21-23 expression=20-23)] begin=15-16 end=23-24 expression=15-24)] begin=10-11 end=24-25 expression=10-25) (arg name=\x22jo\x22 expression=27-29)] expression=5-30 begin=5-6 end=29-30) body=(int value=\x22\xff\x02\x22 expression=31-32) begin=3-4 end=33-34 expression=0-34)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atCOMMA 8-9 ,\x0atLPAREN 10-11 (\x0atIDENTIFIER 11-13 zo\x0atCOMMA 13-14 ,\x0atLPAREN 15-16 (\x0atIDENTIFIER 16-18 qo\x0atCOMMA 18-19 ,\x0atSTAR 20-21 *\x0atIDENTIFIER 21-23 ko\x0atRPAREN 23-24 )\x0atRPAREN 24-25 )\x0atCOMMA 25-26 ,\x0atIDENTIFIER 27-29 jo\x0atPIPE 29-30 |\x0atINTEGER 31-32 \xff\x02\x0atRCURLY 33-34 }\x0aEOF 34-34 " },
    Rec { t: b"v\xffa { |(*x\xffa)| x\xfe\x01 }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(restarg name=\x22x\xff\x01\x22)])]) body=(lvar name=\x22x\xff\x01\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(restarg name=\x22x\xff\x01\x22 operator=7-8 name=8-10 expression=7-10)] begin=6-7 end=10-11 expression=6-11)] expression=5-12 begin=5-6 end=11-12) body=(lvar name=\x22x\xff\x01\x22 expression=13-15) begin=3-4 end=16-17 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atLPAREN 6-7 (\x0atSTAR 7-8 *\x0atIDENTIFIER 8-10 x\xff\x01\x0atRPAREN 10-11 )\x0atPIPE 11-12 |\x0atIDENTIFIER 13-15 x\xff\x01\x0atRCURLY 16-17 }\x0aEOF 17-17 " },
    Rec { t: b"v\xffa { |(x\xffa, *, zo)| x\xfe\x01 }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22) (restarg) (arg name=\x22zo\x22)])]) body=(lvar name=\x22x\xff\x01\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22 expression=7-9) (restarg operator=11-12 expression=11-12) (arg name=\x22zo\x22 expression=14-16)] begin=6-7 end=16-17 expression=6-17)] expression=5-18 begin=5-6 end=17-18) body=(lvar name=\x22x\xff\x01\x22 expression=19-21) begin=3-4 end=22-23 expression=0-23)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atLPAREN 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atCOMMA 9-10 ,\x0atSTAR 11-12 *\x0atCOMMA 12-13 ,\x0atIDENTIFIER 14-16 zo\x0atRPAREN 16-17 )\x0atPIPE 17-18 |\x0atIDENTIFIER 19-21 x\xff\x01\x0atRCURLY 22-23 }\x0aEOF 23-23 " },
    Rec { t: b"v\xffa { |(*x\xffa, zo)| x\xfe\x01 }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(restarg name=\x22x\xff\x01\x22) (arg name=\x22zo\x22)])]) body=(lvar name=\x22x\xff\x01\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(restarg name=\x22x\xff\x01\x22 operator=7-8 name=8-10 expression=7-10) (arg name=\x22zo\x22 expression=12-14)] begin=6-7 end=14-15 expression=6-15)] expression=5-16 begin=5-6 end=15-16) body=(lvar name=\x22x\xff\x01\x22 expression=17-19) begin=3-4 end=20-21 expression=0-21)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atLPAREN 6-7 (\x0atSTAR 7-8 *\x0atIDENTIFIER 8-10 x\xff\x01\x0atCOMMA 10-11 ,\x0atIDENTIFIER 12-14 zo\x0atRPAREN 14-15 )\x0atPIPE 15-16 |\x0atIDENTIFIER 17-19 x\xff\x01\x0atRCURLY 20-21 }\x0aEOF 21-21 " },
    Rec { t: b"v\xffa { |x\xffa; zo| \xffd }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22)]) (shadowarg name=\x22zo\x22)]) body=(int value=\x22\xff\x02\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22 expression=6-8)] expression=6-8) (shadowarg name=\x22zo\x22 expression=10-12)] expression=5-13 begin=5-6 end=12-13) body=(int value=\x22\xff\x02\x22 expression=14-15) begin=3-4 end=16-17 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atSEMI 8-9 ;\x0atIDENTIFIER 10-12 zo\x0atPIPE 12-13 |\x0atINTEGER 14-15 \xff\x02\x0atRCURLY 16-17 }\x0aEOF 17-17 " },
    Rec { t: b"v\xffa { |x\xffa; zo, qo| \xffd }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22)]) (shadowarg name=\x22zo\x22) (shadowarg name=\x22qo\x22)]) body=(int value=\x22\xff\x02\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22 expression=6-8)] expression=6-8) (shadowarg name=\x22zo\x22 expression=10-12) (shadowarg name=\x22qo\x22 expression=14-16)] expression=5-17 begin=5-6 end=16-17) body=(int value=\x22\xff\x02\x22 expression=18-19) begin=3-4 end=20-21 expression=0-21)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atSEMI 8-9 ;\x0atIDENTIFIER 10-12 zo\x0atCOMMA 12-13 ,\x0atIDENTIFIER 14-16 qo\x0atPIPE 16-17 |\x0atINTEGER 18-19 \xff\x02\x0atRCURLY 20-21 }\x0aEOF 21-21 " },
    Rec { t: b"v\xffa { |;x\xffa| \xffd }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(shadowarg name=\x22x\xff\x01\x22)]) body=(int value=\x22\xff\x02\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(shadowarg name=\x22x\xff\x01\x22 expression=7-9)] expression=5-10 begin=5-6 end=9-10) body=(int value=\x22\xff\x02\x22 expression=11-12) begin=3-4 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atSEMI 6-7 ;\x0atIDENTIFIER 7-9 x\xff\x01\x0atPIPE 9-10 |\x0atINTEGER 11-12 \xff\x02\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"v\xffa { |x\xffa\x0a| \xffd }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22)])]) body=(int value=\x22\xff\x02\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22 expression=6-8)] expression=6-8)] expression=5-10 begin=5-6 end=9-10) body=(int value=\x22\xff\x02\x22 expression=11-12) begin=3-4 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atNL 8-9 \x0a\x0atPIPE 9-10 |\x0atINTEGER 11-12 \xff\x02\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"v\xffa { |\x0ax\xffa, zo\x0a| \xffd }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(arg name=\x22x\xff\x01\x22) (arg name=\x22zo\x22)]) body=(int value=\x22\xff\x02\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9) (arg name=\x22zo\x22 expression=11-13)] expression=5-15 begin=5-6 end=14-15) body=(int value=\x22\xff\x02\x22 expression=16-17) begin=3-4 end=18-19 expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 7-9 x\xff\x01\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 zo\x0atNL 13-14 \x0a\x0atPIPE 14-15 |\x0atINTEGER 16-17 \xff\x02\x0atRCURLY 18-19 }\x0aEOF 19-19 " },
    Rec { t: b"v\xffa do |x\xffa| x\xfe\x01 end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22)])]) body=(lvar name=\x22x\xff\x01\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22 expression=7-9)] expression=7-9)] expression=6-10 begin=6-7 end=9-10) body=(lvar name=\x22x\xff\x01\x22 expression=11-13) begin=3-5 end=14-17 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0atPIPE 6-7 |\x0atIDENTIFIER 7-9 x\xff\x01\x0atPIPE 9-10 |\x0atIDENTIFIER 11-13 x\xff\x01\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"v\xffa do |x\xffa, (zo, qo); ko| \xffd end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(arg name=\x22x\xff\x01\x22) (mlhs items=[(arg name=\x22zo\x22) (arg name=\x22qo\x22)]) (shadowarg name=\x22ko\x22)]) body=(int value=\x22\xff\x02\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9) (mlhs items=[(arg name=\x22zo\x22 expression=12-14) (arg name=\x22qo\x22 expression=16-18)] begin=11-12 end=18-19 expression=11-19) (shadowarg name=\x22ko\x22 expression=21-23)] expression=6-24 begin=6-7 end=23-24) body=(int value=\x22\xff\x02\x22 expression=25-26) begin=3-5 end=27-30 expression=0-30)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0atPIPE 6-7 |\x0atIDENTIFIER 7-9 x\xff\x01\x0atCOMMA 9-10 ,\x0atLPAREN 11-12 (\x0atIDENTIFIER 12-14 zo\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-18 qo\x0atRPAREN 18-19 )\x0atSEMI 19-20 ;\x0atIDENTIFIER 21-23 ko\x0atPIPE 23-24 |\x0atINTEGER 25-26 \xff\x02\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"v\xffa { _1 }", shape: b"(numblock call=(send method_name=\x22v\xff\x00\x22 args=[]) numargs=1 body=(lvar name=\x22_1\x22))", full: b"(numblock call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) numargs=1 body=(lvar name=\x22_1\x22 expression=5-7) begin=3-4 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atIDENTIFIER 5-7 _1\x0atRCURLY 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"v\xffa { _1 + _2 }", shape: b"(numblock call=(send method_name=\x22v\xff\x00\x22 args=[]) numargs=2 body=(send recv=(lvar name=\x22_1\x22) method_name=\x22+\x22 args=[(lvar name=\x22_2\x22)]))", full: b"(numblock call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) numargs=2 body=(send recv=(lvar name=\x22_1\x22 expression=5-7) method_name=\x22+\x22 args=[(lvar name=\x22_2\x22 expression=10-12)] selector=8-9 expression=5-12) begin=3-4 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atIDENTIFIER 5-7 _1\x0atPLUS 8-9 +\x0atIDENTIFIER 10-12 _2\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"v\xffa { _1; _9 }", shape: b"(numblock call=(send method_name=\x22v\xff\x00\x22 args=[]) numargs=9 body=(begin statements=[(lvar name=\x22_1\x22) (lvar name=\x22_9\x22)]))", full: b"(numblock call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) numargs=9 body=(begin statements=[(lvar name=\x22_1\x22 expression=5-7) (lvar name=\x22_9\x22 expression=9-11)] expression=5-11) begin=3-4 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atIDENTIFIER 5-7 _1\x0atSEMI 7-8 ;\x0atIDENTIFIER 9-11 _9\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"v\xffa do _1 end", shape: b"(numblock call=(send method_name=\x22v\xff\x00\x22 args=[]) numargs=1 body=(lvar name=\x22_1\x22))", full: b"(numblock call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) numargs=1 body=(lvar name=\x22_1\x22 expression=6-8) begin=3-5 end=9-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0atIDENTIFIER 6-8 _1\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"-> { _1 }", shape: b"(numblock call=(lambda) numargs=1 body=(lvar name=\x22_1\x22))", full: b"(numblock call=(lambda expression=0-2) numargs=1 body=(lvar name=\x22_1\x22 expression=5-7) begin=3-4 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLAMBEG 3-4 {\x0atIDENTIFIER 5-7 _1\x0atRCURLY 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"-> do _1 end", shape: b"(numblock call=(lambda) numargs=1 body=(lvar name=\x22_1\x22))", full: b"(numblock call=(lambda expression=0-2) numargs=1 body=(lvar name=\x22_1\x22 expression=6-8) begin=3-5 end=9-12 expression=0-12)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0akDO_LAMBDA 3-5 do\x0atIDENTIFIER 6-8 _1\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"v\xffa { |x\xffa| zo { |qo| x\xfe\x01 } }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22)])]) body=(block call=(send method_name=\x22zo\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22qo\x22)])]) body=(lvar name=\x22x\xff\x01\x22)))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22 expression=6-8)] expression=6-8)] expression=5-9 begin=5-6 end=8-9) body=(block call=(send method_name=\x22zo\x22 args=[] selector=10-12 expression=10-12) args=(args args=[(procarg0 args=[(arg name=\x22qo\x22 expression=16-18)] expression=16-18)] expression=15-19 begin=15-16 end=18-19) body=(lvar name=\x22x\xff\x01\x22 expression=20-22) begin=13-14 end=23-24 expression=10-24) begin=3-4 end=25-26 expression=0-26)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atPIPE 8-9 |\x0atIDENTIFIER 10-12 zo\x0atLCURLY 13-14 {\x0atPIPE 15-16 |\x0atIDENTIFIER 16-18 qo\x0atPIPE 18-19 |\x0atIDENTIFIER 20-22 x\xff\x01\x0atRCURLY 23-24 }\x0atRCURLY 25-26 }\x0aEOF 26-26 " },
    Rec { t: b"v\xffa { x\xffa } .z\xffa", shape: b"(send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(send method_name=\x22x\xff\x01\x22 args=[])) method_name=\x22z\xff\x02\x22 args=[])", full: b"(send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) body=(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7) begin=3-4 end=8-9 expression=0-9) method_name=\x22z\xff\x02\x22 args=[] dot=10-11 selector=11-13 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atIDENTIFIER 5-7 x\xff\x01\x0atRCURLY 8-9 }\x0atDOT 10-11 .\x0atIDENTIFIER 11-13 z\xff\x02\x0aEOF 13-13 " },
    Rec { t: b"v\xffa { x\xffa }.z\xffa { \xffd }", shape: b"(block call=(send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(send method_name=\x22x\xff\x01\x22 args=[])) method_name=\x22z\xff\x02\x22 args=[]) body=(int value=\x22\xff\x03\x22))", full: b"(block call=(send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) body=(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7) begin=3-4 end=8-9 expression=0-9) method_name=\x22z\xff\x02\x22 args=[] dot=9-10 selector=10-12 expression=0-12) body=(int value=\x22\xff\x03\x22 expression=15-16) begin=13-14 end=17-18 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atIDENTIFIER 5-7 x\xff\x01\x0atRCURLY 8-9 }\x0atDOT 9-10 .\x0atIDENTIFIER 10-12 z\xff\x02\x0atLCURLY 13-14 {\x0atINTEGER 15-16 \xff\x03\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"v\xffa do x\xffa end.z\xffa", shape: b"(send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(send method_name=\x22x\xff\x01\x22 args=[])) method_name=\x22z\xff\x02\x22 args=[])", full: b"(send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) body=(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8) begin=3-5 end=9-12 expression=0-12) method_name=\x22z\xff\x02\x22 args=[] dot=12-13 selector=13-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0atIDENTIFIER 6-8 x\xff\x01\x0akEND 9-12 end\x0atDOT 12-13 .\x0atIDENTIFIER 13-15 z\xff\x02\x0aEOF 15-15 " },
    Rec { t: b"v\xffa do x\xffa end.z\xffa(\xffd) do q\xffa end", shape: b"(block call=(send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(send method_name=\x22x\xff\x01\x22 args=[])) method_name=\x22z\xff\x02\x22 args=[(int value=\x22\xff\x03\x22)]) body=(send method_name=\x22q\xff\x04\x22 args=[]))", full: b"(block call=(send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) body=(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8) begin=3-5 end=9-12 expression=0-12) method_name=\x22z\xff\x02\x22 args=[(int value=\x22\xff\x03\x22 expression=16-17)] dot=12-13 selector=13-15 begin=15-16 end=17-18 expression=0-18) body=(send method_name=\x22q\xff\x04\x22 args=[] selector=22-24 expression=22-24) begin=19-21 end=25-28 expression=0-28)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0atIDENTIFIER 6-8 x\xff\x01\x0akEND 9-12 end\x0atDOT 12-13 .\x0atIDENTIFIER 13-15 z\xff\x02\x0atLPAREN2 15-16 (\x0atINTEGER 16-17 \xff\x03\x0atRPAREN 17-18 )\x0akDO 19-21 do\x0atIDENTIFIER 22-24 q\xff\x04\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"v\xffa x\xffa { z\xffa }", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(block call=(send method_name=\x22x\xff\x01\x22 args=[]) body=(send method_name=\x22z\xff\x02\x22 args=[]))])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(block call=(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) body=(send method_name=\x22z\xff\x02\x22 args=[] selector=8-10 expression=8-10) begin=6-7 end=11-12 expression=3-12)] selector=0-2 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 x\xff\x01\x0atLCURLY 6-7 {\x0atIDENTIFIER 8-10 z\xff\x02\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"v\xffa x\xffa do z\xffa end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])]) body=(send method_name=\x22z\xff\x02\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5)] selector=0-2 expression=0-5) body=(send method_name=\x22z\xff\x02\x22 args=[] selector=9-11 expression=9-11) begin=6-8 end=12-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 x\xff\x01\x0akDO_BLOCK 6-8 do\x0atIDENTIFIER 9-11 z\xff\x02\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"v\xffa.x\xffa { \xffd }", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) body=(int value=\x22\xff\x02\x22))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-3 selector=3-5 expression=0-5) body=(int value=\x22\xff\x02\x22 expression=8-9) begin=6-7 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atLCURLY 6-7 {\x0atINTEGER 8-9 \xff\x02\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"v\xffa.x\xffa do \xffd end", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) body=(int value=\x22\xff\x02\x22))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-3 selector=3-5 expression=0-5) body=(int value=\x22\xff\x02\x22 expression=9-10) begin=6-8 end=11-14 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0akDO 6-8 do\x0atINTEGER 9-10 \xff\x02\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"v\xffa.x\xffa(\xffd) { z\xffa }", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(int value=\x22\xff\x02\x22)]) body=(send method_name=\x22z\xff\x03\x22 args=[]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(int value=\x22\xff\x02\x22 expression=6-7)] dot=2-3 selector=3-5 begin=5-6 end=7-8 expression=0-8) body=(send method_name=\x22z\xff\x03\x22 args=[] selector=11-13 expression=11-13) begin=9-10 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atLPAREN2 5-6 (\x0atINTEGER 6-7 \xff\x02\x0atRPAREN 7-8 )\x0atLCURLY 9-10 {\x0atIDENTIFIER 11-13 z\xff\x03\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"v\xffa.x\xffa \xffd do z\xffa end", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(int value=\x22\xff\x02\x22)]) body=(send method_name=\x22z\xff\x03\x22 args=[]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(int value=\x22\xff\x02\x22 expression=6-7)] dot=2-3 selector=3-5 expression=0-7) body=(send method_name=\x22z\xff\x03\x22 args=[] selector=11-13 expression=11-13) begin=8-10 end=14-17 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atINTEGER 6-7 \xff\x02\x0akDO_BLOCK 8-10 do\x0atIDENTIFIER 11-13 z\xff\x03\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"v\xffa&.x\xffa { \xffd }", shape: b"(block call=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) body=(int value=\x22\xff\x02\x22))", full: b"(block call=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-4 selector=4-6 expression=0-6) body=(int value=\x22\xff\x02\x22 expression=9-10) begin=7-8 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atANDDOT 2-4 &.\x0atIDENTIFIER 4-6 x\xff\x01\x0atLCURLY 7-8 {\x0atINTEGER 9-10 \xff\x02\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"v\xffa::x\xffa { \xffd }", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) body=(int value=\x22\xff\x02\x22))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-4 selector=4-6 expression=0-6) body=(int value=\x22\xff\x02\x22 expression=9-10) begin=7-8 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atIDENTIFIER 4-6 x\xff\x01\x0atLCURLY 7-8 {\x0atINTEGER 9-10 \xff\x02\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"v\xffa::X\xffb { \xffd }", shape: b"(int value=\x22\xff\x02\x22)", full: b"(int value=\x22\xff\x02\x22 expression=9-10)", diag: b"\x0aE 7-8 unexpected tLCURLY", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atCONSTANT 4-6 X\xff\x01\x0atLCURLY 7-8 {\x0atINTEGER 9-10 \xff\x02\x0atRCURLY 11-12 }" },
    Rec { t: b"v\xffa[\xffd] { x\xffa }", shape: b"(block call=(index recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(int value=\x22\xff\x01\x22)]) body=(send method_name=\x22x\xff\x02\x22 args=[]))", full: b"(block call=(index recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(int value=\x22\xff\x01\x22 expression=3-4)] begin=2-3 end=4-5 expression=0-5) body=(send method_name=\x22x\xff\x02\x22 args=[] selector=8-10 expression=8-10) begin=6-7 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atINTEGER 3-4 \xff\x01\x0atRBRACK 4-5 ]\x0atLCURLY 6-7 {\x0atIDENTIFIER 8-10 x\xff\x02\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"v\xffa.x\xffa { |zo| \xffd } .qo", shape: b"(send recv=(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22)])]) body=(int value=\x22\xff\x02\x22)) method_name=\x22qo\x22 args=[])", full: b"(send recv=(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-3 selector=3-5 expression=0-5) args=(args args=[(procarg0 args=[(arg name=\x22zo\x22 expression=9-11)] expression=9-11)] expression=8-12 begin=8-9 end=11-12) body=(int value=\x22\xff\x02\x22 expression=13-14) begin=6-7 end=15-16 expression=0-16) method_name=\x22qo\x22 args=[] dot=17-18 selector=18-20 expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atLCURLY 6-7 {\x0atPIPE 8-9 |\x0atIDENTIFIER 9-11 zo\x0atPIPE 11-12 |\x0atINTEGER 13-14 \xff\x02\x0atRCURLY 15-16 }\x0atDOT 17-18 .\x0atIDENTIFIER 18-20 qo\x0aEOF 20-20 " },
    Rec { t: b"v\xffa { break \xffd }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(break args=[(int value=\x22\xff\x01\x22)]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) body=(break args=[(int value=\x22\xff\x01\x22 expression=11-12)] keyword=5-10 expression=5-12) begin=3-4 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0akBREAK 5-10 break\x0atINTEGER 11-12 \xff\x01\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"v\xffa { next }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(next args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) body=(next args=[] keyword=5-9 expression=5-9) begin=3-4 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0akNEXT 5-9 next\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"v\xffa do x\xffa rescue \xffd end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x02\x22))]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x02\x22 expression=16-17) keyword=9-15 expression=9-17)] expression=6-17) begin=3-5 end=18-21 expression=0-21)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0atIDENTIFIER 6-8 x\xff\x01\x0akRESCUE_MOD 9-15 rescue\x0atINTEGER 16-17 \xff\x02\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"v\xffa do x\xffa; rescue; \xffd; end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x02\x22))]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x02\x22 expression=18-19) keyword=10-16 begin=16-17 expression=10-19)] expression=6-19) begin=3-5 end=21-24 expression=0-24)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0atIDENTIFIER 6-8 x\xff\x01\x0atSEMI 8-9 ;\x0akRESCUE 10-16 rescue\x0atSEMI 16-17 ;\x0atINTEGER 18-19 \xff\x02\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"v\xffa do x\xffa; rescue V\xffb => z\xffa; \xffd; else; \xffd; ensure; \xffd; end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(ensure body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x02\x22)]) exc_var=(lvasgn name=\x22z\xff\x03\x22) body=(int value=\x22\xff\x04\x22))] else_=(int value=\x22\xff\x05\x22)) ensure=(int value=\x22\xff\x06\x22)))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) body=(ensure body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x02\x22 name=17-19 expression=17-19)] expression=17-19) exc_var=(lvasgn name=\x22z\xff\x03\x22 name=23-25 expression=23-25) body=(int value=\x22\xff\x04\x22 expression=27-28) keyword=10-16 assoc=20-22 begin=25-26 expression=10-28)] else_=(int value=\x22\xff\x05\x22 expression=36-37) else=30-34 expression=6-37) ensure=(int value=\x22\xff\x06\x22 expression=47-48) keyword=39-45 expression=6-48) begin=3-5 end=50-53 expression=0-53)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0atIDENTIFIER 6-8 x\xff\x01\x0atSEMI 8-9 ;\x0akRESCUE 10-16 rescue\x0atCONSTANT 17-19 V\xff\x02\x0atASSOC 20-22 =>\x0atIDENTIFIER 23-25 z\xff\x03\x0atSEMI 25-26 ;\x0atINTEGER 27-28 \xff\x04\x0atSEMI 28-29 ;\x0akELSE 30-34 else\x0atSEMI 34-35 ;\x0atINTEGER 36-37 \xff\x05\x0atSEMI 37-38 ;\x0akENSURE 39-45 ensure\x0atSEMI 45-46 ;\x0atINTEGER 47-48 \xff\x06\x0atSEMI 48-49 ;\x0akEND 50-53 end\x0aEOF 53-53 " },
    Rec { t: b"v\xffa do x\xffa; ensure; \xffd; end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(ensure body=(send method_name=\x22x\xff\x01\x22 args=[]) ensure=(int value=\x22\xff\x02\x22)))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) body=(ensure body=(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8) ensure=(int value=\x22\xff\x02\x22 expression=18-19) keyword=10-16 expression=6-19) begin=3-5 end=21-24 expression=0-24)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0atIDENTIFIER 6-8 x\xff\x01\x0atSEMI 8-9 ;\x0akENSURE 10-16 ensure\x0atSEMI 16-17 ;\x0atINTEGER 18-19 \xff\x02\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"loop do break end", shape: b"(block call=(send method_name=\x22loop\x22 args=[]) body=(break args=[]))", full: b"(block call=(send method_name=\x22loop\x22 args=[] selector=0-4 expression=0-4) body=(break args=[] keyword=8-13 expression=8-13) begin=5-7 end=14-17 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-4 loop\x0akDO 5-7 do\x0akBREAK 8-13 break\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"return v\xffa { x\xffa }", shape: b"(return args=[(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(send method_name=\x22x\xff\x01\x22 args=[]))])", full: b"(return args=[(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) body=(send method_name=\x22x\xff\x01\x22 args=[] selector=12-14 expression=12-14) begin=10-11 end=15-16 expression=7-16)] keyword=0-6 expression=0-16)", diag: b"", toks: b"\x0akRETURN 0-6 return\x0atIDENTIFIER 7-9 v\xff\x00\x0atLCURLY 10-11 {\x0atIDENTIFIER 12-14 x\xff\x01\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"return v\xffa do x\xffa end", shape: b"(return args=[(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(send method_name=\x22x\xff\x01\x22 args=[]))])", full: b"(return args=[(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) body=(send method_name=\x22x\xff\x01\x22 args=[] selector=13-15 expression=13-15) begin=10-12 end=16-19 expression=7-19)] keyword=0-6 expression=0-19)", diag: b"", toks: b"\x0akRETURN 0-6 return\x0atIDENTIFIER 7-9 v\xff\x00\x0akDO 10-12 do\x0atIDENTIFIER 13-15 x\xff\x01\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"break v\xffa do x\xffa end", shape: b"(break args=[(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(send method_name=\x22x\xff\x01\x22 args=[]))])", full: b"(break args=[(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) body=(send method_name=\x22x\xff\x01\x22 args=[] selector=12-14 expression=12-14) begin=9-11 end=15-18 expression=6-18)] keyword=0-5 expression=0-18)", diag: b"", toks: b"\x0akBREAK 0-5 break\x0atIDENTIFIER 6-8 v\xff\x00\x0akDO 9-11 do\x0atIDENTIFIER 12-14 x\xff\x01\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"next v\xffa do x\xffa end", shape: b"(next args=[(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(send method_name=\x22x\xff\x01\x22 args=[]))])", full: b"(next args=[(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) body=(send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13) begin=8-10 end=14-17 expression=5-17)] keyword=0-4 expression=0-17)", diag: b"", toks: b"\x0akNEXT 0-4 next\x0atIDENTIFIER 5-7 v\xff\x00\x0akDO 8-10 do\x0atIDENTIFIER 11-13 x\xff\x01\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"super v\xffa do x\xffa end", shape: b"(block call=(super args=[(send method_name=\x22v\xff\x00\x22 args=[])]) body=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(block call=(super args=[(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8)] keyword=0-5 expression=0-8) body=(send method_name=\x22x\xff\x01\x22 args=[] selector=12-14 expression=12-14) begin=9-11 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atIDENTIFIER 6-8 v\xff\x00\x0akDO_BLOCK 9-11 do\x0atIDENTIFIER 12-14 x\xff\x01\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"yield v\xffa do x\xffa end", shape: b"none", full: b"none", diag: b"\x0aE 0-5 block given to yield", toks: b"\x0akYIELD 0-5 yield\x0atIDENTIFIER 6-8 v\xff\x00\x0akDO_BLOCK 9-11 do\x0atIDENTIFIER 12-14 x\xff\x01\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"-> { }", shape: b"(block call=(lambda))", full: b"(block call=(lambda expression=0-2) begin=3-4 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLAMBEG 3-4 {\x0atRCURLY 5-6 }\x0aEOF 6-6 " },
    Rec { t: b"-> {}", shape: b"(block call=(lambda))", full: b"(block call=(lambda expression=0-2) begin=3-4 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLAMBEG 3-4 {\x0atRCURLY 4-5 }\x0aEOF 5-5 " },
    Rec { t: b"-> { v\xffa }", shape: b"(block call=(lambda) body=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(block call=(lambda expression=0-2) body=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) begin=3-4 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLAMBEG 3-4 {\x0atIDENTIFIER 5-7 v\xff\x00\x0atRCURLY 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"->(v\xffa) { v\xfe\x00 }", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22v\xff\x00\x22)]) body=(lvar name=\x22v\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22v\xff\x00\x22 expression=3-5)] expression=2-6 begin=2-3 end=5-6) body=(lvar name=\x22v\xff\x00\x22 expression=9-11) begin=7-8 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 v\xff\x00\x0atRPAREN 5-6 )\x0atLAMBEG 7-8 {\x0atIDENTIFIER 9-11 v\xff\x00\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"->(v\xffa, x\xffa = \xffd) { v\xfe\x00 }", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22v\xff\x00\x22) (optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22))]) body=(lvar name=\x22v\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22v\xff\x00\x22 expression=3-5) (optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=12-13) name=7-9 operator=10-11 expression=7-13)] expression=2-14 begin=2-3 end=13-14) body=(lvar name=\x22v\xff\x00\x22 expression=17-19) begin=15-16 end=20-21 expression=0-21)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 v\xff\x00\x0atCOMMA 5-6 ,\x0atIDENTIFIER 7-9 x\xff\x01\x0atEQL 10-11 =\x0atINTEGER 12-13 \xff\x02\x0atRPAREN 13-14 )\x0atLAMBEG 15-16 {\x0atIDENTIFIER 17-19 v\xff\x00\x0atRCURLY 20-21 }\x0aEOF 21-21 " },
    Rec { t: b"-> v\xffa { v\xfe\x00 }", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22v\xff\x00\x22)]) body=(lvar name=\x22v\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22v\xff\x00\x22 expression=3-5)] expression=3-5) body=(lvar name=\x22v\xff\x00\x22 expression=8-10) begin=6-7 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atIDENTIFIER 3-5 v\xff\x00\x0atLAMBEG 6-7 {\x0atIDENTIFIER 8-10 v\xff\x00\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"-> v\xffa, x\xffa { v\xfe\x00 }", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22v\xff\x00\x22) (arg name=\x22x\xff\x01\x22)]) body=(lvar name=\x22v\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22v\xff\x00\x22 expression=3-5) (arg name=\x22x\xff\x01\x22 expression=7-9)] expression=3-9) body=(lvar name=\x22v\xff\x00\x22 expression=12-14) begin=10-11 end=15-16 expression=0-16)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atIDENTIFIER 3-5 v\xff\x00\x0atCOMMA 5-6 ,\x0atIDENTIFIER 7-9 x\xff\x01\x0atLAMBEG 10-11 {\x0atIDENTIFIER 12-14 v\xff\x00\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"-> (v\xffa; x\xffa) { v\xfe\x00 }", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22v\xff\x00\x22) (shadowarg name=\x22x\xff\x01\x22)]) body=(lvar name=\x22v\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22v\xff\x00\x22 expression=4-6) (shadowarg name=\x22x\xff\x01\x22 expression=8-10)] expression=3-11 begin=3-4 end=10-11) body=(lvar name=\x22v\xff\x00\x22 expression=14-16) begin=12-13 end=17-18 expression=0-18)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 3-4 (\x0atIDENTIFIER 4-6 v\xff\x00\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 x\xff\x01\x0atRPAREN 10-11 )\x0atLAMBEG 12-13 {\x0atIDENTIFIER 14-16 v\xff\x00\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"->(*v\xffa, &x\xffa) { \xffd }", shape: b"(block call=(lambda) args=(args args=[(restarg name=\x22v\xff\x00\x22) (blockarg name=\x22x\xff\x01\x22)]) body=(int value=\x22\xff\x02\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(restarg name=\x22v\xff\x00\x22 operator=3-4 name=4-6 expression=3-6) (blockarg name=\x22x\xff\x01\x22 operator=8-9 name=9-11 expression=8-11)] expression=2-12 begin=2-3 end=11-12) body=(int value=\x22\xff\x02\x22 expression=15-16) begin=13-14 end=17-18 expression=0-18)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atSTAR 3-4 *\x0atIDENTIFIER 4-6 v\xff\x00\x0atCOMMA 6-7 ,\x0atAMPER 8-9 &\x0atIDENTIFIER 9-11 x\xff\x01\x0atRPAREN 11-12 )\x0atLAMBEG 13-14 {\x0atINTEGER 15-16 \xff\x02\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"->(v\xffa:, x\xffa: \xffd, **zo) { \xffd }", shape: b"(block call=(lambda) args=(args args=[(kwarg name=\x22v\xff\x00\x22) (kwoptarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (kwrestarg name=\x22zo\x22)]) body=(int value=\x22\xff\x03\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(kwarg name=\x22v\xff\x00\x22 name=3-5 expression=3-6) (kwoptarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=12-13) name=8-10 expression=8-13) (kwrestarg name=\x22zo\x22 operator=15-17 name=17-19 expression=15-19)] expression=2-20 begin=2-3 end=19-20) body=(int value=\x22\xff\x03\x22 expression=23-24) begin=21-22 end=25-26 expression=0-26)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atLABEL 3-6 v\xff\x00\x0atCOMMA 6-7 ,\x0atLABEL 8-11 x\xff\x01\x0atINTEGER 12-13 \xff\x02\x0atCOMMA 13-14 ,\x0atDSTAR 15-17 **\x0atIDENTIFIER 17-19 zo\x0atRPAREN 19-20 )\x0atLAMBEG 21-22 {\x0atINTEGER 23-24 \xff\x03\x0atRCURLY 25-26 }\x0aEOF 26-26 " },
    Rec { t: b"->((v\xffa, x\xffa)) { \xffd }", shape: b"(block call=(lambda) args=(args args=[(mlhs items=[(arg name=\x22v\xff\x00\x22) (arg name=\x22x\xff\x01\x22)])]) body=(int value=\x22\xff\x02\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(mlhs items=[(arg name=\x22v\xff\x00\x22 expression=4-6) (arg name=\x22x\xff\x01\x22 expression=8-10)] begin=3-4 end=10-11 expression=3-11)] expression=2-12 begin=2-3 end=11-12) body=(int value=\x22\xff\x02\x22 expression=15-16) begin=13-14 end=17-18 expression=0-18)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atLPAREN 3-4 (\x0atIDENTIFIER 4-6 v\xff\x00\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-10 x\xff\x01\x0atRPAREN 10-11 )\x0atRPAREN 11-12 )\x0atLAMBEG 13-14 {\x0atINTEGER 15-16 \xff\x02\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"->() { \xffd }", shape: b"(block call=(lambda) args=(args args=[]) body=(int value=\x22\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[] expression=2-4 begin=2-3 end=3-4) body=(int value=\x22\xff\x00\x22 expression=7-8) begin=5-6 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atRPAREN 3-4 )\x0atLAMBEG 5-6 {\x0atINTEGER 7-8 \xff\x00\x0atRCURLY 9-10 }\x0aEOF 10-10 " },
    Rec { t: b"-> do v\xffa end", shape: b"(block call=(lambda) body=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(block call=(lambda expression=0-2) body=(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) begin=3-5 end=9-12 expression=0-12)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0akDO_LAMBDA 3-5 do\x0atIDENTIFIER 6-8 v\xff\x00\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"->(v\xffa) do v\xfe\x00 end", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22v\xff\x00\x22)]) body=(lvar name=\x22v\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22v\xff\x00\x22 expression=3-5)] expression=2-6 begin=2-3 end=5-6) body=(lvar name=\x22v\xff\x00\x22 expression=10-12) begin=7-9 end=13-16 expression=0-16)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 v\xff\x00\x0atRPAREN 5-6 )\x0akDO_LAMBDA 7-9 do\x0atIDENTIFIER 10-12 v\xff\x00\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"-> v\xffa do v\xfe\x00 end", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22v\xff\x00\x22)]) body=(lvar name=\x22v\xff\x00\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22v\xff\x00\x22 expression=3-5)] expression=3-5) body=(lvar name=\x22v\xff\x00\x22 expression=9-11) begin=6-8 end=12-15 expression=0-15)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atIDENTIFIER 3-5 v\xff\x00\x0akDO_LAMBDA 6-8 do\x0atIDENTIFIER 9-11 v\xff\x00\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"->(&v\xffa) { }", shape: b"(block call=(lambda) args=(args args=[(blockarg name=\x22v\xff\x00\x22)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(blockarg name=\x22v\xff\x00\x22 operator=3-4 name=4-6 expression=3-6)] expression=2-7 begin=2-3 end=6-7) begin=8-9 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atAMPER 3-4 &\x0atIDENTIFIER 4-6 v\xff\x00\x0atRPAREN 6-7 )\x0atLAMBEG 8-9 {\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"-> *v\xffa { }", shape: b"(block call=(lambda) args=(args args=[(restarg name=\x22v\xff\x00\x22)]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(restarg name=\x22v\xff\x00\x22 operator=3-4 name=4-6 expression=3-6)] expression=3-6) begin=7-8 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atSTAR2 3-4 *\x0atIDENTIFIER 4-6 v\xff\x00\x0atLAMBEG 7-8 {\x0atRCURLY 9-10 }\x0aEOF 10-10 " },
    Rec { t: b"-> do v\xffa; rescue; \xffd; end", shape: b"(block call=(lambda) body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x01\x22))]))", full: b"(block call=(lambda expression=0-2) body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x01\x22 expression=18-19) keyword=10-16 begin=16-17 expression=10-19)] expression=6-19) begin=3-5 end=21-24 expression=0-24)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0akDO_LAMBDA 3-5 do\x0atIDENTIFIER 6-8 v\xff\x00\x0atSEMI 8-9 ;\x0akRESCUE 10-16 rescue\x0atSEMI 16-17 ;\x0atINTEGER 18-19 \xff\x01\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"->(v\xffa) { ->(x\xffa) { v\xfe\x00 } }", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22v\xff\x00\x22)]) body=(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x01\x22)]) body=(lvar name=\x22v\xff\x00\x22)))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22v\xff\x00\x22 expression=3-5)] expression=2-6 begin=2-3 end=5-6) body=(block call=(lambda expression=9-11) args=(args args=[(arg name=\x22x\xff\x01\x22 expression=12-14)] expression=11-15 begin=11-12 end=14-15) body=(lvar name=\x22v\xff\x00\x22 expression=18-20) begin=16-17 end=21-22 expression=9-22) begin=7-8 end=23-24 expression=0-24)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 v\xff\x00\x0atRPAREN 5-6 )\x0atLAMBEG 7-8 {\x0atLAMBDA 9-11 ->\x0atLPAREN2 11-12 (\x0atIDENTIFIER 12-14 x\xff\x01\x0atRPAREN 14-15 )\x0atLAMBEG 16-17 {\x0atIDENTIFIER 18-20 v\xff\x00\x0atRCURLY 21-22 }\x0atRCURLY 23-24 }\x0aEOF 24-24 " },
    Rec { t: b"lambda { |v\xffa| v\xfe\x00 }", shape: b"(block call=(send method_name=\x22lambda\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22v\xff\x00\x22)])]) body=(lvar name=\x22v\xff\x00\x22))", full: b"(block call=(send method_name=\x22lambda\x22 args=[] selector=0-6 expression=0-6) args=(args args=[(procarg0 args=[(arg name=\x22v\xff\x00\x22 expression=10-12)] expression=10-12)] expression=9-13 begin=9-10 end=12-13) body=(lvar name=\x22v\xff\x00\x22 expression=14-16) begin=7-8 end=17-18 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-6 lambda\x0atLCURLY 7-8 {\x0atPIPE 9-10 |\x0atIDENTIFIER 10-12 v\xff\x00\x0atPIPE 12-13 |\x0atIDENTIFIER 14-16 v\xff\x00\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"lambda do |v\xffa| end", shape: b"(block call=(send method_name=\x22lambda\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22v\xff\x00\x22)])]))", full: b"(block call=(send method_name=\x22lambda\x22 args=[] selector=0-6 expression=0-6) args=(args args=[(procarg0 args=[(arg name=\x22v\xff\x00\x22 expression=11-13)] expression=11-13)] expression=10-14 begin=10-11 end=13-14) begin=7-9 end=15-18 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-6 lambda\x0akDO 7-9 do\x0atPIPE 10-11 |\x0atIDENTIFIER 11-13 v\xff\x00\x0atPIPE 13-14 |\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"proc { |v\xffa, (x\xffa)| }", shape: b"(block call=(send method_name=\x22proc\x22 args=[]) args=(args args=[(arg name=\x22v\xff\x00\x22) (mlhs items=[(arg name=\x22x\xff\x01\x22)])]))", full: b"(block call=(send method_name=\x22proc\x22 args=[] selector=0-4 expression=0-4) args=(args args=[(arg name=\x22v\xff\x00\x22 expression=8-10) (mlhs items=[(arg name=\x22x\xff\x01\x22 expression=13-15)] begin=12-13 end=15-16 expression=12-16)] expression=7-17 begin=7-8 end=16-17) begin=5-6 end=18-19 expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-4 proc\x0atLCURLY 5-6 {\x0atPIPE 7-8 |\x0atIDENTIFIER 8-10 v\xff\x00\x0atCOMMA 10-11 ,\x0atLPAREN 12-13 (\x0atIDENTIFIER 13-15 x\xff\x01\x0atRPAREN 15-16 )\x0atPIPE 16-17 |\x0atRCURLY 18-19 }\x0aEOF 19-19 " },
    Rec { t: b"v\xffa ->(x\xffa) { x\xfe\x01 }", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x01\x22)]) body=(lvar name=\x22x\xff\x01\x22))])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(block call=(lambda expression=3-5) args=(args args=[(arg name=\x22x\xff\x01\x22 expression=6-8)] expression=5-9 begin=5-6 end=8-9) body=(lvar name=\x22x\xff\x01\x22 expression=12-14) begin=10-11 end=15-16 expression=3-16)] selector=0-2 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLAMBDA 3-5 ->\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 x\xff\x01\x0atRPAREN 8-9 )\x0atLAMBEG 10-11 {\x0atIDENTIFIER 12-14 x\xff\x01\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"v\xffa ->(x\xffa) do x\xfe\x01 end", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x01\x22)]) body=(lvar name=\x22x\xff\x01\x22))])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(block call=(lambda expression=3-5) args=(args args=[(arg name=\x22x\xff\x01\x22 expression=6-8)] expression=5-9 begin=5-6 end=8-9) body=(lvar name=\x22x\xff\x01\x22 expression=13-15) begin=10-12 end=16-19 expression=3-19)] selector=0-2 expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLAMBDA 3-5 ->\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 x\xff\x01\x0atRPAREN 8-9 )\x0akDO_LAMBDA 10-12 do\x0atIDENTIFIER 13-15 x\xff\x01\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"v\xffa x\xffa, -> { \xffd }", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[]) (block call=(lambda) body=(int value=\x22\xff\x02\x22))])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) (block call=(lambda expression=7-9) body=(int value=\x22\xff\x02\x22 expression=12-13) begin=10-11 end=14-15 expression=7-15)] selector=0-2 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 x\xff\x01\x0atCOMMA 5-6 ,\x0atLAMBDA 7-9 ->\x0atLAMBEG 10-11 {\x0atINTEGER 12-13 \xff\x02\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"v\xffa(-> { \xffd }, &zo)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(block call=(lambda) body=(int value=\x22\xff\x01\x22)) (block_pass value=(send method_name=\x22zo\x22 args=[]))])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(block call=(lambda expression=3-5) body=(int value=\x22\xff\x01\x22 expression=8-9) begin=6-7 end=10-11 expression=3-11) (block_pass value=(send method_name=\x22zo\x22 args=[] selector=14-16 expression=14-16) operator=13-14 expression=13-16)] selector=0-2 begin=2-3 end=16-17 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atLAMBDA 3-5 ->\x0atLAMBEG 6-7 {\x0atINTEGER 8-9 \xff\x01\x0atRCURLY 10-11 }\x0atCOMMA 11-12 ,\x0atAMPER 13-14 &\x0atIDENTIFIER 14-16 zo\x0atRPAREN 16-17 )\x0aEOF 17-17 " },
    Rec { t: b"(-> { \xffd }).()", shape: b"(send recv=(begin statements=[(block call=(lambda) body=(int value=\x22\xff\x00\x22))]) method_name=\x22call\x22 args=[])", full: b"(send recv=(begin statements=[(block call=(lambda expression=1-3) body=(int value=\x22\xff\x00\x22 expression=6-7) begin=4-5 end=8-9 expression=1-9)] begin=0-1 end=9-10 expression=0-10) method_name=\x22call\x22 args=[] dot=10-11 begin=11-12 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atLAMBDA 1-3 ->\x0atLAMBEG 4-5 {\x0atINTEGER 6-7 \xff\x00\x0atRCURLY 8-9 }\x0atRPAREN 9-10 )\x0atDOT 10-11 .\x0atLPAREN2 11-12 (\x0atRPAREN 12-13 )\x0aEOF 13-13 " },
    Rec { t: b"-> { \xffd }.(\xffd)", shape: b"(send recv=(block call=(lambda) body=(int value=\x22\xff\x00\x22)) method_name=\x22call\x22 args=[(int value=\x22\xff\x01\x22)])", full: b"(send recv=(block call=(lambda expression=0-2) body=(int value=\x22\xff\x00\x22 expression=5-6) begin=3-4 end=7-8 expression=0-8) method_name=\x22call\x22 args=[(int value=\x22\xff\x01\x22 expression=10-11)] dot=8-9 begin=9-10 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLAMBEG 3-4 {\x0atINTEGER 5-6 \xff\x00\x0atRCURLY 7-8 }\x0atDOT 8-9 .\x0atLPAREN2 9-10 (\x0atINTEGER 10-11 \xff\x01\x0atRPAREN 11-12 )\x0aEOF 12-12 " },
    Rec { t: b"-> { \xffd }[\xffd]", shape: b"(index recv=(block call=(lambda) body=(int value=\x22\xff\x00\x22)) indexes=[(int value=\x22\xff\x01\x22)])", full: b"(index recv=(block call=(lambda expression=0-2) body=(int value=\x22\xff\x00\x22 expression=5-6) begin=3-4 end=7-8 expression=0-8) indexes=[(int value=\x22\xff\x01\x22 expression=9-10)] begin=8-9 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLAMBEG 3-4 {\x0atINTEGER 5-6 \xff\x00\x0atRCURLY 7-8 }\x0atLBRACK2 8-9 [\x0atINTEGER 9-10 \xff\x01\x0atRBRACK 10-11 ]\x0aEOF 11-11 " },
];
pub static DEF: &[Rec] = &[
    Rec { t: b"def v\xffa; end", shape: b"(def name=\x22v\xff\x00\x22)", full: b"(def name=\x22v\xff\x00\x22 keyword=0-3 name=4-6 end=8-11 expression=0-11)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atSEMI 6-7 ;\x0akEND 8-11 end\x0aEOF 11-11 " },
    Rec { t: b"def v\xffa(); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[] expression=6-8 begin=6-7 end=7-8) keyword=0-3 name=4-6 end=10-13 expression=0-13)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atRPAREN 7-8 )\x0atSEMI 8-9 ;\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"def v\xffa; x\xffa; end", shape: b"(def name=\x22v\xff\x00\x22 body=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(def name=\x22v\xff\x00\x22 body=(send method_name=\x22x\xff\x01\x22 args=[] selector=8-10 expression=8-10) keyword=0-3 name=4-6 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 x\xff\x01\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def v\xffa\x0ax\xffa\x0aend", shape: b"(def name=\x22v\xff\x00\x22 body=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(def name=\x22v\xff\x00\x22 body=(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9) keyword=0-3 name=4-6 end=10-13 expression=0-13)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atNL 6-7 \x0a\x0atIDENTIFIER 7-9 x\xff\x01\x0atNL 9-10 \x0a\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"def v\xffa(x\xffa); x\xfe\x01; end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22)]) body=(lvar name=\x22x\xff\x01\x22))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9)] expression=6-10 begin=6-7 end=9-10) body=(lvar name=\x22x\xff\x01\x22 expression=12-14) keyword=0-3 name=4-6 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atRPAREN 9-10 )\x0atSEMI 10-11 ;\x0atIDENTIFIER 12-14 x\xff\x01\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"def v\xffa x\xffa; x\xfe\x01; end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22)]) body=(lvar name=\x22x\xff\x01\x22))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9)] expression=7-9) body=(lvar name=\x22x\xff\x01\x22 expression=11-13) keyword=0-3 name=4-6 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atIDENTIFIER 7-9 x\xff\x01\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 x\xff\x01\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"def v\xffa x\xffa, zo\x0aend", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22) (arg name=\x22zo\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9) (arg name=\x22zo\x22 expression=11-13)] expression=7-13) keyword=0-3 name=4-6 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atIDENTIFIER 7-9 x\xff\x01\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 zo\x0atNL 13-14 \x0a\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"def v\xffa(x\xffa, zo); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22) (arg name=\x22zo\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9) (arg name=\x22zo\x22 expression=11-13)] expression=6-14 begin=6-7 end=13-14) keyword=0-3 name=4-6 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 zo\x0atRPAREN 13-14 )\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"def v\xffa(x\xffa = \xffd); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22))]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=12-13) name=7-9 operator=10-11 expression=7-13)] expression=6-14 begin=6-7 end=13-14) keyword=0-3 name=4-6 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atEQL 10-11 =\x0atINTEGER 12-13 \xff\x02\x0atRPAREN 13-14 )\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"def v\xffa(x\xffa, zo = \xffd); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22))]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22 expression=16-17) name=11-13 operator=14-15 expression=11-17)] expression=6-18 begin=6-7 end=17-18) keyword=0-3 name=4-6 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 zo\x0atEQL 14-15 =\x0atINTEGER 16-17 \xff\x02\x0atRPAREN 17-18 )\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"def v\xffa(x\xffa = \xffd, zo); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (arg name=\x22zo\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=12-13) name=7-9 operator=10-11 expression=7-13) (arg name=\x22zo\x22 expression=15-17)] expression=6-18 begin=6-7 end=17-18) keyword=0-3 name=4-6 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atEQL 10-11 =\x0atINTEGER 12-13 \xff\x02\x0atCOMMA 13-14 ,\x0atIDENTIFIER 15-17 zo\x0atRPAREN 17-18 )\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"def v\xffa(*x\xffa); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(restarg name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(restarg name=\x22x\xff\x01\x22 operator=7-8 name=8-10 expression=7-10)] expression=6-11 begin=6-7 end=10-11) keyword=0-3 name=4-6 end=13-16 expression=0-16)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atSTAR 7-8 *\x0atIDENTIFIER 8-10 x\xff\x01\x0atRPAREN 10-11 )\x0atSEMI 11-12 ;\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"def v\xffa(*); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(restarg)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(restarg operator=7-8 expression=7-8)] expression=6-9 begin=6-7 end=8-9) keyword=0-3 name=4-6 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atSTAR 7-8 *\x0atRPAREN 8-9 )\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def v\xffa(x\xffa, *zo); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22) (restarg name=\x22zo\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9) (restarg name=\x22zo\x22 operator=11-12 name=12-14 expression=11-14)] expression=6-15 begin=6-7 end=14-15) keyword=0-3 name=4-6 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atCOMMA 9-10 ,\x0atSTAR 11-12 *\x0atIDENTIFIER 12-14 zo\x0atRPAREN 14-15 )\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"def v\xffa(x\xffa, *zo, qo); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22) (restarg name=\x22zo\x22) (arg name=\x22qo\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9) (restarg name=\x22zo\x22 operator=11-12 name=12-14 expression=11-14) (arg name=\x22qo\x22 expression=16-18)] expression=6-19 begin=6-7 end=18-19) keyword=0-3 name=4-6 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atCOMMA 9-10 ,\x0atSTAR 11-12 *\x0atIDENTIFIER 12-14 zo\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-18 qo\x0atRPAREN 18-19 )\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"def v\xffa(x\xffa = \xffd, *zo, qo); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (restarg name=\x22zo\x22) (arg name=\x22qo\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=12-13) name=7-9 operator=10-11 expression=7-13) (restarg name=\x22zo\x22 operator=15-16 name=16-18 expression=15-18) (arg name=\x22qo\x22 expression=20-22)] expression=6-23 begin=6-7 end=22-23) keyword=0-3 name=4-6 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atEQL 10-11 =\x0atINTEGER 12-13 \xff\x02\x0atCOMMA 13-14 ,\x0atSTAR 15-16 *\x0atIDENTIFIER 16-18 zo\x0atCOMMA 18-19 ,\x0atIDENTIFIER 20-22 qo\x0atRPAREN 22-23 )\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"def v\xffa(x\xffa:); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(kwarg name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(kwarg name=\x22x\xff\x01\x22 name=7-9 expression=7-10)] expression=6-11 begin=6-7 end=10-11) keyword=0-3 name=4-6 end=13-16 expression=0-16)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atLABEL 7-10 x\xff\x01\x0atRPAREN 10-11 )\x0atSEMI 11-12 ;\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"def v\xffa(x\xffa: \xffd); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(kwoptarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22))]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(kwoptarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=11-12) name=7-9 expression=7-12)] expression=6-13 begin=6-7 end=12-13) keyword=0-3 name=4-6 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atLABEL 7-10 x\xff\x01\x0atINTEGER 11-12 \xff\x02\x0atRPAREN 12-13 )\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"def v\xffa(x\xffa:, zo: \xffd); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(kwarg name=\x22x\xff\x01\x22) (kwoptarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22))]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(kwarg name=\x22x\xff\x01\x22 name=7-9 expression=7-10) (kwoptarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22 expression=16-17) name=12-14 expression=12-17)] expression=6-18 begin=6-7 end=17-18) keyword=0-3 name=4-6 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atLABEL 7-10 x\xff\x01\x0atCOMMA 10-11 ,\x0atLABEL 12-15 zo\x0atINTEGER 16-17 \xff\x02\x0atRPAREN 17-18 )\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"def v\xffa x\xffa:\x0aend", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(kwarg name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(kwarg name=\x22x\xff\x01\x22 name=7-9 expression=7-10)] expression=7-10) keyword=0-3 name=4-6 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLABEL 7-10 x\xff\x01\x0atNL 10-11 \x0a\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def v\xffa x\xffa: \xffd, zo:\x0aend", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(kwoptarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (kwarg name=\x22zo\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(kwoptarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=11-12) name=7-9 expression=7-12) (kwarg name=\x22zo\x22 name=14-16 expression=14-17)] expression=7-17) keyword=0-3 name=4-6 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLABEL 7-10 x\xff\x01\x0atINTEGER 11-12 \xff\x02\x0atCOMMA 12-13 ,\x0atLABEL 14-17 zo\x0atNL 17-18 \x0a\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"def v\xffa(**x\xffa); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(kwrestarg name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(kwrestarg name=\x22x\xff\x01\x22 operator=7-9 name=9-11 expression=7-11)] expression=6-12 begin=6-7 end=11-12) keyword=0-3 name=4-6 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atDSTAR 7-9 **\x0atIDENTIFIER 9-11 x\xff\x01\x0atRPAREN 11-12 )\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"def v\xffa(**); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(kwrestarg)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(kwrestarg operator=7-9 expression=7-9)] expression=6-10 begin=6-7 end=9-10) keyword=0-3 name=4-6 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atDSTAR 7-9 **\x0atRPAREN 9-10 )\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def v\xffa(**nil); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(kwnilarg)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(kwnilarg name=9-12 expression=7-12)] expression=6-13 begin=6-7 end=12-13) keyword=0-3 name=4-6 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atDSTAR 7-9 **\x0akNIL 9-12 nil\x0atRPAREN 12-13 )\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"def v\xffa(&x\xffa); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(blockarg name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(blockarg name=\x22x\xff\x01\x22 operator=7-8 name=8-10 expression=7-10)] expression=6-11 begin=6-7 end=10-11) keyword=0-3 name=4-6 end=13-16 expression=0-16)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atAMPER 7-8 &\x0atIDENTIFIER 8-10 x\xff\x01\x0atRPAREN 10-11 )\x0atSEMI 11-12 ;\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"def v\xffa(&); x\xffa(&); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(blockarg)]) body=(send method_name=\x22x\xff\x01\x22 args=[(block_pass)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(blockarg operator=7-8 expression=7-8)] expression=6-9 begin=6-7 end=8-9) body=(send method_name=\x22x\xff\x01\x22 args=[(block_pass operator=14-15 expression=14-15)] selector=11-13 begin=13-14 end=15-16 expression=11-16) keyword=0-3 name=4-6 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atAMPER 7-8 &\x0atRPAREN 8-9 )\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 x\xff\x01\x0atLPAREN2 13-14 (\x0atAMPER 14-15 &\x0atRPAREN 15-16 )\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"def v\xffa(...); x\xffa(...); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(forward_arg)]) body=(send method_name=\x22x\xff\x01\x22 args=[(forwarded_args)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(forward_arg expression=7-10)] expression=6-11 begin=6-7 end=10-11) body=(send method_name=\x22x\xff\x01\x22 args=[(forwarded_args expression=16-19)] selector=13-15 begin=15-16 end=19-20 expression=13-20) keyword=0-3 name=4-6 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atBDOT3 7-10 ...\x0atRPAREN 10-11 )\x0atSEMI 11-12 ;\x0atIDENTIFIER 13-15 x\xff\x01\x0atLPAREN2 15-16 (\x0atBDOT3 16-19 ...\x0atRPAREN 19-20 )\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"def v\xffa(x\xffa, ...); zo(x\xfe\x01, ...); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22) (forward_arg)]) body=(send method_name=\x22zo\x22 args=[(lvar name=\x22x\xff\x01\x22) (forwarded_args)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9) (forward_arg expression=11-14)] expression=6-15 begin=6-7 end=14-15) body=(send method_name=\x22zo\x22 args=[(lvar name=\x22x\xff\x01\x22 expression=20-22) (forwarded_args expression=24-27)] selector=17-19 begin=19-20 end=27-28 expression=17-28) keyword=0-3 name=4-6 end=30-33 expression=0-33)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atCOMMA 9-10 ,\x0atBDOT3 11-14 ...\x0atRPAREN 14-15 )\x0atSEMI 15-16 ;\x0atIDENTIFIER 17-19 zo\x0atLPAREN2 19-20 (\x0atIDENTIFIER 20-22 x\xff\x01\x0atCOMMA 22-23 ,\x0atBDOT3 24-27 ...\x0atRPAREN 27-28 )\x0atSEMI 28-29 ;\x0akEND 30-33 end\x0aEOF 33-33 " },
    Rec { t: b"def v\xffa ...\x0ax\xffa(...)\x0aend", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(forward_arg)]) body=(send method_name=\x22x\xff\x01\x22 args=[(forwarded_args)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(forward_arg expression=7-10)] expression=7-10) body=(send method_name=\x22x\xff\x01\x22 args=[(forwarded_args expression=14-17)] selector=11-13 begin=13-14 end=17-18 expression=11-18) keyword=0-3 name=4-6 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atBDOT3 7-10 ...\x0atNL 10-11 \x0a\x0atIDENTIFIER 11-13 x\xff\x01\x0atLPAREN2 13-14 (\x0atBDOT3 14-17 ...\x0atRPAREN 17-18 )\x0atNL 18-19 \x0a\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"def v\xffa(x\xffa, zo = \xffd, *qo, ko, jo:, ho: \xffd, **yo, &wo); \xffd; end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22)) (restarg name=\x22qo\x22) (arg name=\x22ko\x22) (kwarg name=\x22jo\x22) (kwoptarg name=\x22ho\x22 default=(int value=\x22\xff\x03\x22)) (kwrestarg name=\x22yo\x22) (blockarg name=\x22wo\x22)]) body=(int value=\x22\xff\x04\x22))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22 expression=16-17) name=11-13 operator=14-15 expression=11-17) (restarg name=\x22qo\x22 operator=19-20 name=20-22 expression=19-22) (arg name=\x22ko\x22 expression=24-26) (kwarg name=\x22jo\x22 name=28-30 expression=28-31) (kwoptarg name=\x22ho\x22 default=(int value=\x22\xff\x03\x22 expression=37-38) name=33-35 expression=33-38) (kwrestarg name=\x22yo\x22 operator=40-42 name=42-44 expression=40-44) (blockarg name=\x22wo\x22 operator=46-47 name=47-49 expression=46-49)] expression=6-50 begin=6-7 end=49-50) body=(int value=\x22\xff\x04\x22 expression=52-53) keyword=0-3 name=4-6 end=55-58 expression=0-58)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 zo\x0atEQL 14-15 =\x0atINTEGER 16-17 \xff\x02\x0atCOMMA 17-18 ,\x0atSTAR 19-20 *\x0atIDENTIFIER 20-22 qo\x0atCOMMA 22-23 ,\x0atIDENTIFIER 24-26 ko\x0atCOMMA 26-27 ,\x0atLABEL 28-31 jo\x0atCOMMA 31-32 ,\x0atLABEL 33-36 ho\x0atINTEGER 37-38 \xff\x03\x0atCOMMA 38-39 ,\x0atDSTAR 40-42 **\x0atIDENTIFIER 42-44 yo\x0atCOMMA 44-45 ,\x0atAMPER 46-47 &\x0atIDENTIFIER 47-49 wo\x0atRPAREN 49-50 )\x0atSEMI 50-51 ;\x0atINTEGER 52-53 \xff\x04\x0atSEMI 53-54 ;\x0akEND 55-58 end\x0aEOF 58-58 " },
    Rec { t: b"def v\xffa((x\xffa, zo)); x\xfe\x01; end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(mlhs items=[(arg name=\x22x\xff\x01\x22) (arg name=\x22zo\x22)])]) body=(lvar name=\x22x\xff\x01\x22))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(mlhs items=[(arg name=\x22x\xff\x01\x22 expression=8-10) (arg name=\x22zo\x22 expression=12-14)] begin=7-8 end=14-15 expression=7-15)] expression=6-16 begin=6-7 end=15-16) body=(lvar name=\x22x\xff\x01\x22 expression=18-20) keyword=0-3 name=4-6 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atLPAREN 7-8 (\x0atIDENTIFIER 8-10 x\xff\x01\x0atCOMMA 10-11 ,\x0atIDENTIFIER 12-14 zo\x0atRPAREN 14-15 )\x0atRPAREN 15-16 )\x0atSEMI 16-17 ;\x0atIDENTIFIER 18-20 x\xff\x01\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"def v\xffa((x\xffa, *zo), qo); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(mlhs items=[(arg name=\x22x\xff\x01\x22) (restarg name=\x22zo\x22)]) (arg name=\x22qo\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(mlhs items=[(arg name=\x22x\xff\x01\x22 expression=8-10) (restarg name=\x22zo\x22 operator=12-13 name=13-15 expression=12-15)] begin=7-8 end=15-16 expression=7-16) (arg name=\x22qo\x22 expression=18-20)] expression=6-21 begin=6-7 end=20-21) keyword=0-3 name=4-6 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atLPAREN 7-8 (\x0atIDENTIFIER 8-10 x\xff\x01\x0atCOMMA 10-11 ,\x0atSTAR 12-13 *\x0atIDENTIFIER 13-15 zo\x0atRPAREN 15-16 )\x0atCOMMA 16-17 ,\x0atIDENTIFIER 18-20 qo\x0atRPAREN 20-21 )\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"def v\xffa((*x\xffa)); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(mlhs items=[(restarg name=\x22x\xff\x01\x22)])]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(mlhs items=[(restarg name=\x22x\xff\x01\x22 operator=8-9 name=9-11 expression=8-11)] begin=7-8 end=11-12 expression=7-12)] expression=6-13 begin=6-7 end=12-13) keyword=0-3 name=4-6 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atLPAREN 7-8 (\x0atSTAR 8-9 *\x0atIDENTIFIER 9-11 x\xff\x01\x0atRPAREN 11-12 )\x0atRPAREN 12-13 )\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"def v\xffa(\x0ax\xffa,\x0azo\x0a); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22) (arg name=\x22zo\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=8-10) (arg name=\x22zo\x22 expression=12-14)] expression=6-16 begin=6-7 end=15-16) keyword=0-3 name=4-6 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 8-10 x\xff\x01\x0atCOMMA 10-11 ,\x0atIDENTIFIER 12-14 zo\x0atNL 14-15 \x0a\x0atRPAREN 15-16 )\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"def v\xffa?; end", shape: b"(def name=\x22v\xff\x00?\x22)", full: b"(def name=\x22v\xff\x00?\x22 keyword=0-3 name=4-7 end=9-12 expression=0-12)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atFID 4-7 v\xff\x00?\x0atSEMI 7-8 ;\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"def v\xffa!; end", shape: b"(def name=\x22v\xff\x00!\x22)", full: b"(def name=\x22v\xff\x00!\x22 keyword=0-3 name=4-7 end=9-12 expression=0-12)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atFID 4-7 v\xff\x00!\x0atSEMI 7-8 ;\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"def v\xffa=(x\xffa); end", shape: b"(def name=\x22v\xff\x00=\x22 args=(args args=[(arg name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22v\xff\x00=\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=8-10)] expression=7-11 begin=7-8 end=10-11) keyword=0-3 name=4-7 end=13-16 expression=0-16)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-7 v\xff\x00=\x0atLPAREN2 7-8 (\x0atIDENTIFIER 8-10 x\xff\x01\x0atRPAREN 10-11 )\x0atSEMI 11-12 ;\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"def V\xffb; end", shape: b"(def name=\x22V\xff\x00\x22)", full: b"(def name=\x22V\xff\x00\x22 keyword=0-3 name=4-6 end=8-11 expression=0-11)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atCONSTANT 4-6 V\xff\x00\x0atSEMI 6-7 ;\x0akEND 8-11 end\x0aEOF 11-11 " },
    Rec { t: b"def +(x\xffa); end", shape: b"(def name=\x22+\x22 args=(args args=[(arg name=\x22x\xff\x00\x22)]))", full: b"(def name=\x22+\x22 args=(args args=[(arg name=\x22x\xff\x00\x22 expression=6-8)] expression=5-9 begin=5-6 end=8-9) keyword=0-3 name=4-5 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atPLUS 4-5 +\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 x\xff\x00\x0atRPAREN 8-9 )\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def -@; end", shape: b"(def name=\x22-@\x22)", full: b"(def name=\x22-@\x22 keyword=0-3 name=4-6 end=8-11 expression=0-11)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atUMINUS 4-6 -@\x0atSEMI 6-7 ;\x0akEND 8-11 end\x0aEOF 11-11 " },
    Rec { t: b"def +@; end", shape: b"(def name=\x22+@\x22)", full: b"(def name=\x22+@\x22 keyword=0-3 name=4-6 end=8-11 expression=0-11)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atUPLUS 4-6 +@\x0atSEMI 6-7 ;\x0akEND 8-11 end\x0aEOF 11-11 " },
    Rec { t: b"def !; end", shape: b"(def name=\x22!\x22)", full: b"(def name=\x22!\x22 keyword=0-3 name=4-5 end=7-10 expression=0-10)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atBANG 4-5 !\x0atSEMI 5-6 ;\x0akEND 7-10 end\x0aEOF 10-10 " },
    Rec { t: b"def ~; end", shape: b"(def name=\x22~\x22)", full: b"(def name=\x22~\x22 keyword=0-3 name=4-5 end=7-10 expression=0-10)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atTILDE 4-5 ~\x0atSEMI 5-6 ;\x0akEND 7-10 end\x0aEOF 10-10 " },
    Rec { t: b"def [](x\xffa); end", shape: b"(def name=\x22[]\x22 args=(args args=[(arg name=\x22x\xff\x00\x22)]))", full: b"(def name=\x22[]\x22 args=(args args=[(arg name=\x22x\xff\x00\x22 expression=7-9)] expression=6-10 begin=6-7 end=9-10) keyword=0-3 name=4-6 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atAREF 4-6 []\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x00\x0atRPAREN 9-10 )\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def []=(x\xffa, zo); end", shape: b"(def name=\x22[]=\x22 args=(args args=[(arg name=\x22x\xff\x00\x22) (arg name=\x22zo\x22)]))", full: b"(def name=\x22[]=\x22 args=(args args=[(arg name=\x22x\xff\x00\x22 expression=8-10) (arg name=\x22zo\x22 expression=12-14)] expression=7-15 begin=7-8 end=14-15) keyword=0-3 name=4-7 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atASET 4-7 []=\x0atLPAREN2 7-8 (\x0atIDENTIFIER 8-10 x\xff\x00\x0atCOMMA 10-11 ,\x0atIDENTIFIER 12-14 zo\x0atRPAREN 14-15 )\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"def ==(x\xffa); end", shape: b"(def name=\x22==\x22 args=(args args=[(arg name=\x22x\xff\x00\x22)]))", full: b"(def name=\x22==\x22 args=(args args=[(arg name=\x22x\xff\x00\x22 expression=7-9)] expression=6-10 begin=6-7 end=9-10) keyword=0-3 name=4-6 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atEQ 4-6 ==\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x00\x0atRPAREN 9-10 )\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def <=>(x\xffa); end", shape: b"(def name=\x22<=>\x22 args=(args args=[(arg name=\x22x\xff\x00\x22)]))", full: b"(def name=\x22<=>\x22 args=(args args=[(arg name=\x22x\xff\x00\x22 expression=8-10)] expression=7-11 begin=7-8 end=10-11) keyword=0-3 name=4-7 end=13-16 expression=0-16)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atCMP 4-7 <=>\x0atLPAREN2 7-8 (\x0atIDENTIFIER 8-10 x\xff\x00\x0atRPAREN 10-11 )\x0atSEMI 11-12 ;\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"def =~(x\xffa); end", shape: b"(def name=\x22=~\x22 args=(args args=[(arg name=\x22x\xff\x00\x22)]))", full: b"(def name=\x22=~\x22 args=(args args=[(arg name=\x22x\xff\x00\x22 expression=7-9)] expression=6-10 begin=6-7 end=9-10) keyword=0-3 name=4-6 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atMATCH 4-6 =~\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x00\x0atRPAREN 9-10 )\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def `(x\xffa); end", shape: b"(def name=\x22`\x22 args=(args args=[(arg name=\x22x\xff\x00\x22)]))", full: b"(def name=\x22`\x22 args=(args args=[(arg name=\x22x\xff\x00\x22 expression=6-8)] expression=5-9 begin=5-6 end=8-9) keyword=0-3 name=4-5 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atBACK_REF2 4-5 `\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 x\xff\x00\x0atRPAREN 8-9 )\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def %(x\xffa); end", shape: b"(def name=\x22%\x22 args=(args args=[(arg name=\x22x\xff\x00\x22)]))", full: b"(def name=\x22%\x22 args=(args args=[(arg name=\x22x\xff\x00\x22 expression=6-8)] expression=5-9 begin=5-6 end=8-9) keyword=0-3 name=4-5 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atPERCENT 4-5 %\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 x\xff\x00\x0atRPAREN 8-9 )\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def **(x\xffa); end", shape: b"(def name=\x22**\x22 args=(args args=[(arg name=\x22x\xff\x00\x22)]))", full: b"(def name=\x22**\x22 args=(args args=[(arg name=\x22x\xff\x00\x22 expression=7-9)] expression=6-10 begin=6-7 end=9-10) keyword=0-3 name=4-6 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atPOW 4-6 **\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x00\x0atRPAREN 9-10 )\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def <<(x\xffa); end", shape: b"(def name=\x22<<\x22 args=(args args=[(arg name=\x22x\xff\x00\x22)]))", full: b"(def name=\x22<<\x22 args=(args args=[(arg name=\x22x\xff\x00\x22 expression=7-9)] expression=6-10 begin=6-7 end=9-10) keyword=0-3 name=4-6 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atLSHFT 4-6 <<\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x00\x0atRPAREN 9-10 )\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def ===(x\xffa); end", shape: b"(def name=\x22===\x22 args=(args args=[(arg name=\x22x\xff\x00\x22)]))", full: b"(def name=\x22===\x22 args=(args args=[(arg name=\x22x\xff\x00\x22 expression=8-10)] expression=7-11 begin=7-8 end=10-11) keyword=0-3 name=4-7 end=13-16 expression=0-16)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atEQQ 4-7 ===\x0atLPAREN2 7-8 (\x0atIDENTIFIER 8-10 x\xff\x00\x0atRPAREN 10-11 )\x0atSEMI 11-12 ;\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"def !=(x\xffa); end", shape: b"(def name=\x22!=\x22 args=(args args=[(arg name=\x22x\xff\x00\x22)]))", full: b"(def name=\x22!=\x22 args=(args args=[(arg name=\x22x\xff\x00\x22 expression=7-9)] expression=6-10 begin=6-7 end=9-10) keyword=0-3 name=4-6 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atNEQ 4-6 !=\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x00\x0atRPAREN 9-10 )\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def class; end", shape: b"(def name=\x22class\x22)", full: b"(def name=\x22class\x22 keyword=0-3 name=4-9 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akCLASS 4-9 class\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def if; end", shape: b"(def name=\x22if\x22)", full: b"(def name=\x22if\x22 keyword=0-3 name=4-6 end=8-11 expression=0-11)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akIF 4-6 if\x0atSEMI 6-7 ;\x0akEND 8-11 end\x0aEOF 11-11 " },
    Rec { t: b"def nil; end", shape: b"(def name=\x22nil\x22)", full: b"(def name=\x22nil\x22 keyword=0-3 name=4-7 end=9-12 expression=0-12)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akNIL 4-7 nil\x0atSEMI 7-8 ;\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"def end; end", shape: b"(def name=\x22end\x22)", full: b"(def name=\x22end\x22 keyword=0-3 name=4-7 end=9-12 expression=0-12)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akEND 4-7 end\x0atSEMI 7-8 ;\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"def self; end", shape: b"(def name=\x22self\x22)", full: b"(def name=\x22self\x22 keyword=0-3 name=4-8 end=10-13 expression=0-13)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atSEMI 8-9 ;\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"def self.v\xffa; end", shape: b"(defs definee=(self_) name=\x22v\xff\x00\x22)", full: b"(defs definee=(self_ expression=4-8) name=\x22v\xff\x00\x22 keyword=0-3 operator=8-9 name=9-11 end=13-16 expression=0-16)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 v\xff\x00\x0atSEMI 11-12 ;\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"def self.v\xffa(x\xffa); x\xfe\x01; end", shape: b"(defs definee=(self_) name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22)]) body=(lvar name=\x22x\xff\x01\x22))", full: b"(defs definee=(self_ expression=4-8) name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=12-14)] expression=11-15 begin=11-12 end=14-15) body=(lvar name=\x22x\xff\x01\x22 expression=17-19) keyword=0-3 operator=8-9 name=9-11 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 v\xff\x00\x0atLPAREN2 11-12 (\x0atIDENTIFIER 12-14 x\xff\x01\x0atRPAREN 14-15 )\x0atSEMI 15-16 ;\x0atIDENTIFIER 17-19 x\xff\x01\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"def self.v\xffa x\xffa\x0aend", shape: b"(defs definee=(self_) name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=12-14)] expression=12-14) keyword=0-3 operator=8-9 name=9-11 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 v\xff\x00\x0atIDENTIFIER 12-14 x\xff\x01\x0atNL 14-15 \x0a\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"def self.v\xffa=(x\xffa); end", shape: b"(defs definee=(self_) name=\x22v\xff\x00=\x22 args=(args args=[(arg name=\x22x\xff\x01\x22)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22v\xff\x00=\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=13-15)] expression=12-16 begin=12-13 end=15-16) keyword=0-3 operator=8-9 name=9-12 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-12 v\xff\x00=\x0atLPAREN2 12-13 (\x0atIDENTIFIER 13-15 x\xff\x01\x0atRPAREN 15-16 )\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"def self.+(x\xffa); end", shape: b"(defs definee=(self_) name=\x22+\x22 args=(args args=[(arg name=\x22x\xff\x00\x22)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22+\x22 args=(args args=[(arg name=\x22x\xff\x00\x22 expression=11-13)] expression=10-14 begin=10-11 end=13-14) keyword=0-3 operator=8-9 name=9-10 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atPLUS 9-10 +\x0atLPAREN2 10-11 (\x0atIDENTIFIER 11-13 x\xff\x00\x0atRPAREN 13-14 )\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"def self.class; end", shape: b"(defs definee=(self_) name=\x22class\x22)", full: b"(defs definee=(self_ expression=4-8) name=\x22class\x22 keyword=0-3 operator=8-9 name=9-14 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0akCLASS 9-14 class\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"def self::v\xffa; end", shape: b"(defs definee=(self_) name=\x22v\xff\x00\x22)", full: b"(defs definee=(self_ expression=4-8) name=\x22v\xff\x00\x22 keyword=0-3 operator=8-10 name=10-12 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atCOLON2 8-10 ::\x0atIDENTIFIER 10-12 v\xff\x00\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"def v\xffa.x\xffa; end", shape: b"(defs definee=(send method_name=\x22v\xff\x00\x22 args=[]) name=\x22x\xff\x01\x22)", full: b"(defs definee=(send method_name=\x22v\xff\x00\x22 args=[] selector=4-6 expression=4-6) name=\x22x\xff\x01\x22 keyword=0-3 operator=6-7 name=7-9 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atDOT 6-7 .\x0atIDENTIFIER 7-9 x\xff\x01\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def @v\xffa.x\xffa; end", shape: b"(defs definee=(ivar name=\x22@v\xff\x00\x22) name=\x22x\xff\x01\x22)", full: b"(defs definee=(ivar name=\x22@v\xff\x00\x22 expression=4-7) name=\x22x\xff\x01\x22 keyword=0-3 operator=7-8 name=8-10 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIVAR 4-7 @v\xff\x00\x0atDOT 7-8 .\x0atIDENTIFIER 8-10 x\xff\x01\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def V\xffb.x\xffa; end", shape: b"(defs definee=(const name=\x22V\xff\x00\x22) name=\x22x\xff\x01\x22)", full: b"(defs definee=(const name=\x22V\xff\x00\x22 name=4-6 expression=4-6) name=\x22x\xff\x01\x22 keyword=0-3 operator=6-7 name=7-9 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atCONSTANT 4-6 V\xff\x00\x0atDOT 6-7 .\x0atIDENTIFIER 7-9 x\xff\x01\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def (v\xffa).x\xffa; end", shape: b"(defs definee=(send method_name=\x22v\xff\x00\x22 args=[]) name=\x22x\xff\x01\x22)", full: b"(defs definee=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) name=\x22x\xff\x01\x22 keyword=0-3 operator=8-9 name=9-11 end=13-16 expression=0-16)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atLPAREN2 4-5 (\x0atIDENTIFIER 5-7 v\xff\x00\x0atRPAREN 7-8 )\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 x\xff\x01\x0atSEMI 11-12 ;\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"def (v\xffa.zo).x\xffa; end", shape: b"(defs definee=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22zo\x22 args=[]) name=\x22x\xff\x01\x22)", full: b"(defs definee=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) method_name=\x22zo\x22 args=[] dot=7-8 selector=8-10 expression=5-10) name=\x22x\xff\x01\x22 keyword=0-3 operator=11-12 name=12-14 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atLPAREN2 4-5 (\x0atIDENTIFIER 5-7 v\xff\x00\x0atDOT 7-8 .\x0atIDENTIFIER 8-10 zo\x0atRPAREN 10-11 )\x0atDOT 11-12 .\x0atIDENTIFIER 12-14 x\xff\x01\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"def $v\xffa.x\xffa; end", shape: b"(defs definee=(gvar name=\x22$v\xff\x00\x22) name=\x22x\xff\x01\x22)", full: b"(defs definee=(gvar name=\x22$v\xff\x00\x22 expression=4-7) name=\x22x\xff\x01\x22 keyword=0-3 operator=7-8 name=8-10 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atGVAR 4-7 $v\xff\x00\x0atDOT 7-8 .\x0atIDENTIFIER 8-10 x\xff\x01\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def @@v\xffa.x\xffa; end", shape: b"(defs definee=(cvar name=\x22@@v\xff\x00\x22) name=\x22x\xff\x01\x22)", full: b"(defs definee=(cvar name=\x22@@v\xff\x00\x22 expression=4-8) name=\x22x\xff\x01\x22 keyword=0-3 operator=8-9 name=9-11 end=13-16 expression=0-16)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atCVAR 4-8 @@v\xff\x00\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 x\xff\x01\x0atSEMI 11-12 ;\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"def v\xffa() = \xffd", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[]) body=(int value=\x22\xff\x01\x22))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[] expression=6-8 begin=6-7 end=7-8) body=(int value=\x22\xff\x01\x22 expression=11-12) keyword=0-3 name=4-6 assignment=9-10 expression=0-12)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atRPAREN 7-8 )\x0atEQL 9-10 =\x0atINTEGER 11-12 \xff\x01\x0aEOF 12-12 " },
    Rec { t: b"def v\xffa = \xffd", shape: b"(def name=\x22v\xff\x00\x22 body=(int value=\x22\xff\x01\x22))", full: b"(def name=\x22v\xff\x00\x22 body=(int value=\x22\xff\x01\x22 expression=9-10) keyword=0-3 name=4-6 assignment=7-8 expression=0-10)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atEQL 7-8 =\x0atINTEGER 9-10 \xff\x01\x0aEOF 10-10 " },
    Rec { t: b"def v\xffa(x\xffa) = x\xfe\x01", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22)]) body=(lvar name=\x22x\xff\x01\x22))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9)] expression=6-10 begin=6-7 end=9-10) body=(lvar name=\x22x\xff\x01\x22 expression=13-15) keyword=0-3 name=4-6 assignment=11-12 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atRPAREN 9-10 )\x0atEQL 11-12 =\x0atIDENTIFIER 13-15 x\xff\x01\x0aEOF 15-15 " },
    Rec { t: b"def v\xffa(x\xffa) = x\xfe\x01.zo", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22)]) body=(send recv=(lvar name=\x22x\xff\x01\x22) method_name=\x22zo\x22 args=[]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9)] expression=6-10 begin=6-7 end=9-10) body=(send recv=(lvar name=\x22x\xff\x01\x22 expression=13-15) method_name=\x22zo\x22 args=[] dot=15-16 selector=16-18 expression=13-18) keyword=0-3 name=4-6 assignment=11-12 expression=0-18)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atRPAREN 9-10 )\x0atEQL 11-12 =\x0atIDENTIFIER 13-15 x\xff\x01\x0atDOT 15-16 .\x0atIDENTIFIER 16-18 zo\x0aEOF 18-18 " },
    Rec { t: b"def v\xffa(x\xffa) = zo rescue \xffd", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22)]) body=(rescue body=(send method_name=\x22zo\x22 args=[]) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x02\x22))]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9)] expression=6-10 begin=6-7 end=9-10) body=(rescue body=(send method_name=\x22zo\x22 args=[] selector=13-15 expression=13-15) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x02\x22 expression=23-24) keyword=16-22 expression=16-24)] expression=13-24) keyword=0-3 name=4-6 assignment=11-12 expression=0-24)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atRPAREN 9-10 )\x0atEQL 11-12 =\x0atIDENTIFIER 13-15 zo\x0akRESCUE_MOD 16-22 rescue\x0atINTEGER 23-24 \xff\x02\x0aEOF 24-24 " },
    Rec { t: b"def v\xffa = x\xffa zo", shape: b"(def name=\x22v\xff\x00\x22 body=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22zo\x22 args=[])]))", full: b"(def name=\x22v\xff\x00\x22 body=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22zo\x22 args=[] selector=12-14 expression=12-14)] selector=9-11 expression=9-14) keyword=0-3 name=4-6 assignment=7-8 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atEQL 7-8 =\x0atIDENTIFIER 9-11 x\xff\x01\x0atIDENTIFIER 12-14 zo\x0aEOF 14-14 " },
    Rec { t: b"def v\xffa(x\xffa) = zo x\xfe\x01", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22)]) body=(send method_name=\x22zo\x22 args=[(lvar name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9)] expression=6-10 begin=6-7 end=9-10) body=(send method_name=\x22zo\x22 args=[(lvar name=\x22x\xff\x01\x22 expression=16-18)] selector=13-15 expression=13-18) keyword=0-3 name=4-6 assignment=11-12 expression=0-18)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atRPAREN 9-10 )\x0atEQL 11-12 =\x0atIDENTIFIER 13-15 zo\x0atIDENTIFIER 16-18 x\xff\x01\x0aEOF 18-18 " },
    Rec { t: b"def self.v\xffa = \xffd", shape: b"(defs definee=(self_) name=\x22v\xff\x00\x22 body=(int value=\x22\xff\x01\x22))", full: b"(defs definee=(self_ expression=4-8) name=\x22v\xff\x00\x22 body=(int value=\x22\xff\x01\x22 expression=14-15) keyword=0-3 operator=8-9 name=9-11 assignment=12-13 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 v\xff\x00\x0atEQL 12-13 =\x0atINTEGER 14-15 \xff\x01\x0aEOF 15-15 " },
    Rec { t: b"def self.v\xffa(x\xffa) = x\xfe\x01", shape: b"(defs definee=(self_) name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22)]) body=(lvar name=\x22x\xff\x01\x22))", full: b"(defs definee=(self_ expression=4-8) name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=12-14)] expression=11-15 begin=11-12 end=14-15) body=(lvar name=\x22x\xff\x01\x22 expression=18-20) keyword=0-3 operator=8-9 name=9-11 assignment=16-17 expression=0-20)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 v\xff\x00\x0atLPAREN2 11-12 (\x0atIDENTIFIER 12-14 x\xff\x01\x0atRPAREN 14-15 )\x0atEQL 16-17 =\x0atIDENTIFIER 18-20 x\xff\x01\x0aEOF 20-20 " },
    Rec { t: b"def self.v\xffa(x\xffa) = zo x\xfe\x01", shape: b"(defs definee=(self_) name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22)]) body=(send method_name=\x22zo\x22 args=[(lvar name=\x22x\xff\x01\x22)]))", full: b"(defs definee=(self_ expression=4-8) name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=12-14)] expression=11-15 begin=11-12 end=14-15) body=(send method_name=\x22zo\x22 args=[(lvar name=\x22x\xff\x01\x22 expression=21-23)] selector=18-20 expression=18-23) keyword=0-3 operator=8-9 name=9-11 assignment=16-17 expression=0-23)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 v\xff\x00\x0atLPAREN2 11-12 (\x0atIDENTIFIER 12-14 x\xff\x01\x0atRPAREN 14-15 )\x0atEQL 16-17 =\x0atIDENTIFIER 18-20 zo\x0atIDENTIFIER 21-23 x\xff\x01\x0aEOF 23-23 " },
    Rec { t: b"def self.v\xffa = x\xffa rescue \xffd", shape: b"(defs definee=(self_) name=\x22v\xff\x00\x22 body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x02\x22))]))", full: b"(defs definee=(self_ expression=4-8) name=\x22v\xff\x00\x22 body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[] selector=14-16 expression=14-16) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x02\x22 expression=24-25) keyword=17-23 expression=17-25)] expression=14-25) keyword=0-3 operator=8-9 name=9-11 assignment=12-13 expression=0-25)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 v\xff\x00\x0atEQL 12-13 =\x0atIDENTIFIER 14-16 x\xff\x01\x0akRESCUE_MOD 17-23 rescue\x0atINTEGER 24-25 \xff\x02\x0aEOF 25-25 " },
    Rec { t: b"def v\xffa = begin; \xffd; end", shape: b"(def name=\x22v\xff\x00\x22 body=(kw_begin statements=[(int value=\x22\xff\x01\x22)]))", full: b"(def name=\x22v\xff\x00\x22 body=(kw_begin statements=[(int value=\x22\xff\x01\x22 expression=16-17)] begin=9-14 end=19-22 expression=9-22) keyword=0-3 name=4-6 assignment=7-8 expression=0-22)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atEQL 7-8 =\x0akBEGIN 9-14 begin\x0atSEMI 14-15 ;\x0atINTEGER 16-17 \xff\x01\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"def v\xffa; x\xffa; rescue; zo; end", shape: b"(def name=\x22v\xff\x00\x22 body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22zo\x22 args=[]))]))", full: b"(def name=\x22v\xff\x00\x22 body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[] selector=8-10 expression=8-10) rescue_bodies=[(rescue_body body=(send method_name=\x22zo\x22 args=[] selector=20-22 expression=20-22) keyword=12-18 begin=18-19 expression=12-22)] expression=8-22) keyword=0-3 name=4-6 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 x\xff\x01\x0atSEMI 10-11 ;\x0akRESCUE 12-18 rescue\x0atSEMI 18-19 ;\x0atIDENTIFIER 20-22 zo\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"def v\xffa; x\xffa; rescue V\xffb; zo; end", shape: b"(def name=\x22v\xff\x00\x22 body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x02\x22)]) body=(send method_name=\x22zo\x22 args=[]))]))", full: b"(def name=\x22v\xff\x00\x22 body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[] selector=8-10 expression=8-10) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x02\x22 name=19-21 expression=19-21)] expression=19-21) body=(send method_name=\x22zo\x22 args=[] selector=23-25 expression=23-25) keyword=12-18 begin=21-22 expression=12-25)] expression=8-25) keyword=0-3 name=4-6 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 x\xff\x01\x0atSEMI 10-11 ;\x0akRESCUE 12-18 rescue\x0atCONSTANT 19-21 V\xff\x02\x0atSEMI 21-22 ;\x0atIDENTIFIER 23-25 zo\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"def v\xffa; x\xffa; rescue V\xffb => ko; zo; end", shape: b"(def name=\x22v\xff\x00\x22 body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x02\x22)]) exc_var=(lvasgn name=\x22ko\x22) body=(send method_name=\x22zo\x22 args=[]))]))", full: b"(def name=\x22v\xff\x00\x22 body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[] selector=8-10 expression=8-10) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x02\x22 name=19-21 expression=19-21)] expression=19-21) exc_var=(lvasgn name=\x22ko\x22 name=25-27 expression=25-27) body=(send method_name=\x22zo\x22 args=[] selector=29-31 expression=29-31) keyword=12-18 assoc=22-24 begin=27-28 expression=12-31)] expression=8-31) keyword=0-3 name=4-6 end=33-36 expression=0-36)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 x\xff\x01\x0atSEMI 10-11 ;\x0akRESCUE 12-18 rescue\x0atCONSTANT 19-21 V\xff\x02\x0atASSOC 22-24 =>\x0atIDENTIFIER 25-27 ko\x0atSEMI 27-28 ;\x0atIDENTIFIER 29-31 zo\x0atSEMI 31-32 ;\x0akEND 33-36 end\x0aEOF 36-36 " },
    Rec { t: b"def v\xffa; x\xffa; rescue V\xffb, W\xffb => ko; zo; end", shape: b"(def name=\x22v\xff\x00\x22 body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x02\x22) (const name=\x22W\xff\x03\x22)]) exc_var=(lvasgn name=\x22ko\x22) body=(send method_name=\x22zo\x22 args=[]))]))", full: b"(def name=\x22v\xff\x00\x22 body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[] selector=8-10 expression=8-10) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x02\x22 name=19-21 expression=19-21) (const name=\x22W\xff\x03\x22 name=23-25 expression=23-25)] expression=19-25) exc_var=(lvasgn name=\x22ko\x22 name=29-31 expression=29-31) body=(send method_name=\x22zo\x22 args=[] selector=33-35 expression=33-35) keyword=12-18 assoc=26-28 begin=31-32 expression=12-35)] expression=8-35) keyword=0-3 name=4-6 end=37-40 expression=0-40)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 x\xff\x01\x0atSEMI 10-11 ;\x0akRESCUE 12-18 rescue\x0atCONSTANT 19-21 V\xff\x02\x0atCOMMA 21-22 ,\x0atCONSTANT 23-25 W\xff\x03\x0atASSOC 26-28 =>\x0atIDENTIFIER 29-31 ko\x0atSEMI 31-32 ;\x0atIDENTIFIER 33-35 zo\x0atSEMI 35-36 ;\x0akEND 37-40 end\x0aEOF 40-40 " },
    Rec { t: b"def v\xffa; x\xffa; rescue => ko; zo; end", shape: b"(def name=\x22v\xff\x00\x22 body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body exc_var=(lvasgn name=\x22ko\x22) body=(send method_name=\x22zo\x22 args=[]))]))", full: b"(def name=\x22v\xff\x00\x22 body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[] selector=8-10 expression=8-10) rescue_bodies=[(rescue_body exc_var=(lvasgn name=\x22ko\x22 name=22-24 expression=22-24) body=(send method_name=\x22zo\x22 args=[] selector=26-28 expression=26-28) keyword=12-18 assoc=19-21 begin=24-25 expression=12-28)] expression=8-28) keyword=0-3 name=4-6 end=30-33 expression=0-33)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 x\xff\x01\x0atSEMI 10-11 ;\x0akRESCUE 12-18 rescue\x0atASSOC 19-21 =>\x0atIDENTIFIER 22-24 ko\x0atSEMI 24-25 ;\x0atIDENTIFIER 26-28 zo\x0atSEMI 28-29 ;\x0akEND 30-33 end\x0aEOF 33-33 " },
    Rec { t: b"def v\xffa; x\xffa; rescue *zo; \xffd; end", shape: b"(def name=\x22v\xff\x00\x22 body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(splat value=(send method_name=\x22zo\x22 args=[]))]) body=(int value=\x22\xff\x02\x22))]))", full: b"(def name=\x22v\xff\x00\x22 body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[] selector=8-10 expression=8-10) rescue_bodies=[(rescue_body exc_list=(array elements=[(splat value=(send method_name=\x22zo\x22 args=[] selector=20-22 expression=20-22) operator=19-20 expression=19-22)] expression=19-22) body=(int value=\x22\xff\x02\x22 expression=24-25) keyword=12-18 begin=22-23 expression=12-25)] expression=8-25) keyword=0-3 name=4-6 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 x\xff\x01\x0atSEMI 10-11 ;\x0akRESCUE 12-18 rescue\x0atSTAR 19-20 *\x0atIDENTIFIER 20-22 zo\x0atSEMI 22-23 ;\x0atINTEGER 24-25 \xff\x02\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"def v\xffa; x\xffa; rescue; \xffd; rescue; \xffd; end", shape: b"(def name=\x22v\xff\x00\x22 body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x02\x22)) (rescue_body body=(int value=\x22\xff\x03\x22))]))", full: b"(def name=\x22v\xff\x00\x22 body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[] selector=8-10 expression=8-10) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x02\x22 expression=20-21) keyword=12-18 begin=18-19 expression=12-21) (rescue_body body=(int value=\x22\xff\x03\x22 expression=31-32) keyword=23-29 begin=29-30 expression=23-32)] expression=8-32) keyword=0-3 name=4-6 end=34-37 expression=0-37)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 x\xff\x01\x0atSEMI 10-11 ;\x0akRESCUE 12-18 rescue\x0atSEMI 18-19 ;\x0atINTEGER 20-21 \xff\x02\x0atSEMI 21-22 ;\x0akRESCUE 23-29 rescue\x0atSEMI 29-30 ;\x0atINTEGER 31-32 \xff\x03\x0atSEMI 32-33 ;\x0akEND 34-37 end\x0aEOF 37-37 " },
    Rec { t: b"def v\xffa; x\xffa; rescue; \xffd; else; \xffd; end", shape: b"(def name=\x22v\xff\x00\x22 body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x02\x22))] else_=(int value=\x22\xff\x03\x22)))", full: b"(def name=\x22v\xff\x00\x22 body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[] selector=8-10 expression=8-10) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x02\x22 expression=20-21) keyword=12-18 begin=18-19 expression=12-21)] else_=(int value=\x22\xff\x03\x22 expression=29-30) else=23-27 expression=8-30) keyword=0-3 name=4-6 end=32-35 expression=0-35)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 x\xff\x01\x0atSEMI 10-11 ;\x0akRESCUE 12-18 rescue\x0atSEMI 18-19 ;\x0atINTEGER 20-21 \xff\x02\x0atSEMI 21-22 ;\x0akELSE 23-27 else\x0atSEMI 27-28 ;\x0atINTEGER 29-30 \xff\x03\x0atSEMI 30-31 ;\x0akEND 32-35 end\x0aEOF 35-35 " },
    Rec { t: b"def v\xffa; x\xffa; rescue; \xffd; else; \xffd; ensure; \xffd; end", shape: b"(def name=\x22v\xff\x00\x22 body=(ensure body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x02\x22))] else_=(int value=\x22\xff\x03\x22)) ensure=(int value=\x22\xff\x04\x22)))", full: b"(def name=\x22v\xff\x00\x22 body=(ensure body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[] selector=8-10 expression=8-10) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x02\x22 expression=20-21) keyword=12-18 begin=18-19 expression=12-21)] else_=(int value=\x22\xff\x03\x22 expression=29-30) else=23-27 expression=8-30) ensure=(int value=\x22\xff\x04\x22 expression=40-41) keyword=32-38 expression=8-41) keyword=0-3 name=4-6 end=43-46 expression=0-46)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 x\xff\x01\x0atSEMI 10-11 ;\x0akRESCUE 12-18 rescue\x0atSEMI 18-19 ;\x0atINTEGER 20-21 \xff\x02\x0atSEMI 21-22 ;\x0akELSE 23-27 else\x0atSEMI 27-28 ;\x0atINTEGER 29-30 \xff\x03\x0atSEMI 30-31 ;\x0akENSURE 32-38 ensure\x0atSEMI 38-39 ;\x0atINTEGER 40-41 \xff\x04\x0atSEMI 41-42 ;\x0akEND 43-46 end\x0aEOF 46-46 " },
    Rec { t: b"def v\xffa; x\xffa; ensure; \xffd; end", shape: b"(def name=\x22v\xff\x00\x22 body=(ensure body=(send method_name=\x22x\xff\x01\x22 args=[]) ensure=(int value=\x22\xff\x02\x22)))", full: b"(def name=\x22v\xff\x00\x22 body=(ensure body=(send method_name=\x22x\xff\x01\x22 args=[] selector=8-10 expression=8-10) ensure=(int value=\x22\xff\x02\x22 expression=20-21) keyword=12-18 expression=8-21) keyword=0-3 name=4-6 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 x\xff\x01\x0atSEMI 10-11 ;\x0akENSURE 12-18 ensure\x0atSEMI 18-19 ;\x0atINTEGER 20-21 \xff\x02\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"def v\xffa; rescue; end", shape: b"(def name=\x22v\xff\x00\x22 body=(rescue rescue_bodies=[(rescue_body)]))", full: b"(def name=\x22v\xff\x00\x22 body=(rescue rescue_bodies=[(rescue_body keyword=8-14 begin=14-15 expression=8-15)] expression=8-15) keyword=0-3 name=4-6 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atSEMI 6-7 ;\x0akRESCUE 8-14 rescue\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"def v\xffa; ensure; end", shape: b"(def name=\x22v\xff\x00\x22 body=(ensure))", full: b"(def name=\x22v\xff\x00\x22 body=(ensure keyword=8-14 expression=8-14) keyword=0-3 name=4-6 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atSEMI 6-7 ;\x0akENSURE 8-14 ensure\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"def v\xffa; yield; end", shape: b"(def name=\x22v\xff\x00\x22 body=(yield args=[]))", full: b"(def name=\x22v\xff\x00\x22 body=(yield args=[] keyword=8-13 expression=8-13) keyword=0-3 name=4-6 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atSEMI 6-7 ;\x0akYIELD 8-13 yield\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"def v\xffa; yield \xffd, x\xffa; end", shape: b"(def name=\x22v\xff\x00\x22 body=(yield args=[(int value=\x22\xff\x01\x22) (send method_name=\x22x\xff\x02\x22 args=[])]))", full: b"(def name=\x22v\xff\x00\x22 body=(yield args=[(int value=\x22\xff\x01\x22 expression=14-15) (send method_name=\x22x\xff\x02\x22 args=[] selector=17-19 expression=17-19)] keyword=8-13 expression=8-19) keyword=0-3 name=4-6 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atSEMI 6-7 ;\x0akYIELD 8-13 yield\x0atINTEGER 14-15 \xff\x01\x0atCOMMA 15-16 ,\x0atIDENTIFIER 17-19 x\xff\x02\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"def v\xffa; super; end", shape: b"(def name=\x22v\xff\x00\x22 body=(z_super))", full: b"(def name=\x22v\xff\x00\x22 body=(z_super expression=8-13) keyword=0-3 name=4-6 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atSEMI 6-7 ;\x0akSUPER 8-13 super\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"def v\xffa; return \xffd; end", shape: b"(def name=\x22v\xff\x00\x22 body=(return args=[(int value=\x22\xff\x01\x22)]))", full: b"(def name=\x22v\xff\x00\x22 body=(return args=[(int value=\x22\xff\x01\x22 expression=15-16)] keyword=8-14 expression=8-16) keyword=0-3 name=4-6 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atSEMI 6-7 ;\x0akRETURN 8-14 return\x0atINTEGER 15-16 \xff\x01\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"def v\xffa; def x\xffa; end; end", shape: b"(def name=\x22v\xff\x00\x22 body=(def name=\x22x\xff\x01\x22))", full: b"(def name=\x22v\xff\x00\x22 body=(def name=\x22x\xff\x01\x22 keyword=8-11 name=12-14 end=16-19 expression=8-19) keyword=0-3 name=4-6 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atSEMI 6-7 ;\x0akDEF 8-11 def\x0atIDENTIFIER 12-14 x\xff\x01\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"def v\xffa; v\xfe\x00; end", shape: b"(def name=\x22v\xff\x00\x22 body=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(def name=\x22v\xff\x00\x22 body=(send method_name=\x22v\xff\x00\x22 args=[] selector=8-10 expression=8-10) keyword=0-3 name=4-6 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 v\xff\x00\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def v\xffa x\xffa = \xffd\x0aend", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22))]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=12-13) name=7-9 operator=10-11 expression=7-13)] expression=7-13) keyword=0-3 name=4-6 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atIDENTIFIER 7-9 x\xff\x01\x0atEQL 10-11 =\x0atINTEGER 12-13 \xff\x02\x0atNL 13-14 \x0a\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"def v\xffa(x\xffa, zo = x\xfe\x01); zo; end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22) (optarg name=\x22zo\x22 default=(lvar name=\x22x\xff\x01\x22))]) body=(lvar name=\x22zo\x22))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9) (optarg name=\x22zo\x22 default=(lvar name=\x22x\xff\x01\x22 expression=16-18) name=11-13 operator=14-15 expression=11-18)] expression=6-19 begin=6-7 end=18-19) body=(lvar name=\x22zo\x22 expression=21-23) keyword=0-3 name=4-6 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 zo\x0atEQL 14-15 =\x0atIDENTIFIER 16-18 x\xff\x01\x0atRPAREN 18-19 )\x0atSEMI 19-20 ;\x0atIDENTIFIER 21-23 zo\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"class V\xffb; end", shape: b"(class name=(const name=\x22V\xff\x00\x22))", full: b"(class name=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) keyword=0-5 end=10-13 expression=0-13)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atSEMI 8-9 ;\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"class V\xffb; v\xffa; end", shape: b"(class name=(const name=\x22V\xff\x00\x22) body=(send method_name=\x22v\xff\x01\x22 args=[]))", full: b"(class name=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) body=(send method_name=\x22v\xff\x01\x22 args=[] selector=10-12 expression=10-12) keyword=0-5 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atSEMI 8-9 ;\x0atIDENTIFIER 10-12 v\xff\x01\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"class V\xffb < W\xffb; end", shape: b"(class name=(const name=\x22V\xff\x00\x22) superclass=(const name=\x22W\xff\x01\x22))", full: b"(class name=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) superclass=(const name=\x22W\xff\x01\x22 name=11-13 expression=11-13) keyword=0-5 operator=9-10 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atLT 9-10 <\x0atCONSTANT 11-13 W\xff\x01\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"class V\xffb < W\xffb::X\xffb\x0av\xffa\x0aend", shape: b"(class name=(const name=\x22V\xff\x00\x22) superclass=(const scope=(const name=\x22W\xff\x01\x22) name=\x22X\xff\x02\x22) body=(send method_name=\x22v\xff\x03\x22 args=[]))", full: b"(class name=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) superclass=(const scope=(const name=\x22W\xff\x01\x22 name=11-13 expression=11-13) name=\x22X\xff\x02\x22 double_colon=13-15 name=15-17 expression=11-17) body=(send method_name=\x22v\xff\x03\x22 args=[] selector=18-20 expression=18-20) keyword=0-5 operator=9-10 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atLT 9-10 <\x0atCONSTANT 11-13 W\xff\x01\x0atCOLON2 13-15 ::\x0atCONSTANT 15-17 X\xff\x02\x0atNL 17-18 \x0a\x0atIDENTIFIER 18-20 v\xff\x03\x0atNL 20-21 \x0a\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"class V\xffb::W\xffb; end", shape: b"(class name=(const scope=(const name=\x22V\xff\x00\x22) name=\x22W\xff\x01\x22))", full: b"(class name=(const scope=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) name=\x22W\xff\x01\x22 double_colon=8-10 name=10-12 expression=6-12) keyword=0-5 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atCOLON2 8-10 ::\x0atCONSTANT 10-12 W\xff\x01\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"class ::V\xffb; end", shape: b"(class name=(const scope=(cbase) name=\x22V\xff\x00\x22))", full: b"(class name=(const scope=(cbase expression=6-8) name=\x22V\xff\x00\x22 double_colon=6-8 name=8-10 expression=6-10) keyword=0-5 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCOLON3 6-8 ::\x0atCONSTANT 8-10 V\xff\x00\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"class v\xffa::W\xffb; end", shape: b"(class name=(const scope=(send method_name=\x22v\xff\x00\x22 args=[]) name=\x22W\xff\x01\x22))", full: b"(class name=(const scope=(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) name=\x22W\xff\x01\x22 double_colon=8-10 name=10-12 expression=6-12) keyword=0-5 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atIDENTIFIER 6-8 v\xff\x00\x0atCOLON2 8-10 ::\x0atCONSTANT 10-12 W\xff\x01\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"class V\xffb < (v\xffa; x\xffa); end", shape: b"(class name=(const name=\x22V\xff\x00\x22) superclass=(begin statements=[(send method_name=\x22v\xff\x01\x22 args=[]) (send method_name=\x22x\xff\x02\x22 args=[])]))", full: b"(class name=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) superclass=(begin statements=[(send method_name=\x22v\xff\x01\x22 args=[] selector=12-14 expression=12-14) (send method_name=\x22x\xff\x02\x22 args=[] selector=16-18 expression=16-18)] begin=11-12 end=18-19 expression=11-19) keyword=0-5 operator=9-10 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atLT 9-10 <\x0atLPAREN 11-12 (\x0atIDENTIFIER 12-14 v\xff\x01\x0atSEMI 14-15 ;\x0atIDENTIFIER 16-18 x\xff\x02\x0atRPAREN 18-19 )\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"class << self; end", shape: b"(s_class expr=(self_))", full: b"(s_class expr=(self_ expression=9-13) keyword=0-5 operator=6-8 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atLSHFT 6-8 <<\x0akSELF 9-13 self\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"class << self; v\xffa; end", shape: b"(s_class expr=(self_) body=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(s_class expr=(self_ expression=9-13) body=(send method_name=\x22v\xff\x00\x22 args=[] selector=15-17 expression=15-17) keyword=0-5 operator=6-8 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atLSHFT 6-8 <<\x0akSELF 9-13 self\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 v\xff\x00\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"class << v\xffa\x0ax\xffa\x0aend", shape: b"(s_class expr=(send method_name=\x22v\xff\x00\x22 args=[]) body=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(s_class expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=9-11 expression=9-11) body=(send method_name=\x22x\xff\x01\x22 args=[] selector=12-14 expression=12-14) keyword=0-5 operator=6-8 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atLSHFT 6-8 <<\x0atIDENTIFIER 9-11 v\xff\x00\x0atNL 11-12 \x0a\x0atIDENTIFIER 12-14 x\xff\x01\x0atNL 14-15 \x0a\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"class V\xffb; def v\xffa; end; end", shape: b"(class name=(const name=\x22V\xff\x00\x22) body=(def name=\x22v\xff\x01\x22))", full: b"(class name=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) body=(def name=\x22v\xff\x01\x22 keyword=10-13 name=14-16 end=18-21 expression=10-21) keyword=0-5 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atSEMI 8-9 ;\x0akDEF 10-13 def\x0atIDENTIFIER 14-16 v\xff\x01\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"class V\xffb; v\xffa; rescue; \xffd; end", shape: b"(class name=(const name=\x22V\xff\x00\x22) body=(rescue body=(send method_name=\x22v\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x02\x22))]))", full: b"(class name=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) body=(rescue body=(send method_name=\x22v\xff\x01\x22 args=[] selector=10-12 expression=10-12) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x02\x22 expression=22-23) keyword=14-20 begin=20-21 expression=14-23)] expression=10-23) keyword=0-5 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atSEMI 8-9 ;\x0atIDENTIFIER 10-12 v\xff\x01\x0atSEMI 12-13 ;\x0akRESCUE 14-20 rescue\x0atSEMI 20-21 ;\x0atINTEGER 22-23 \xff\x02\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"class V\xffb < v\xffa.x\xffa; end", shape: b"(class name=(const name=\x22V\xff\x00\x22) superclass=(send recv=(send method_name=\x22v\xff\x01\x22 args=[]) method_name=\x22x\xff\x02\x22 args=[]))", full: b"(class name=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) superclass=(send recv=(send method_name=\x22v\xff\x01\x22 args=[] selector=11-13 expression=11-13) method_name=\x22x\xff\x02\x22 args=[] dot=13-14 selector=14-16 expression=11-16) keyword=0-5 operator=9-10 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atLT 9-10 <\x0atIDENTIFIER 11-13 v\xff\x01\x0atDOT 13-14 .\x0atIDENTIFIER 14-16 x\xff\x02\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"module V\xffb; end", shape: b"(module name=(const name=\x22V\xff\x00\x22))", full: b"(module name=(const name=\x22V\xff\x00\x22 name=7-9 expression=7-9) keyword=0-6 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akMODULE 0-6 module\x0atCONSTANT 7-9 V\xff\x00\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"module V\xffb; v\xffa; end", shape: b"(module name=(const name=\x22V\xff\x00\x22) body=(send method_name=\x22v\xff\x01\x22 args=[]))", full: b"(module name=(const name=\x22V\xff\x00\x22 name=7-9 expression=7-9) body=(send method_name=\x22v\xff\x01\x22 args=[] selector=11-13 expression=11-13) keyword=0-6 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akMODULE 0-6 module\x0atCONSTANT 7-9 V\xff\x00\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 v\xff\x01\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"module V\xffb::W\xffb; end", shape: b"(module name=(const scope=(const name=\x22V\xff\x00\x22) name=\x22W\xff\x01\x22))", full: b"(module name=(const scope=(const name=\x22V\xff\x00\x22 name=7-9 expression=7-9) name=\x22W\xff\x01\x22 double_colon=9-11 name=11-13 expression=7-13) keyword=0-6 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akMODULE 0-6 module\x0atCONSTANT 7-9 V\xff\x00\x0atCOLON2 9-11 ::\x0atCONSTANT 11-13 W\xff\x01\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"module ::V\xffb; end", shape: b"(module name=(const scope=(cbase) name=\x22V\xff\x00\x22))", full: b"(module name=(const scope=(cbase expression=7-9) name=\x22V\xff\x00\x22 double_colon=7-9 name=9-11 expression=7-11) keyword=0-6 end=13-16 expression=0-16)", diag: b"", toks: b"\x0akMODULE 0-6 module\x0atCOLON3 7-9 ::\x0atCONSTANT 9-11 V\xff\x00\x0atSEMI 11-12 ;\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"module V\xffb; module W\xffb; end; end", shape: b"(module name=(const name=\x22V\xff\x00\x22) body=(module name=(const name=\x22W\xff\x01\x22)))", full: b"(module name=(const name=\x22V\xff\x00\x22 name=7-9 expression=7-9) body=(module name=(const name=\x22W\xff\x01\x22 name=18-20 expression=18-20) keyword=11-17 end=22-25 expression=11-25) keyword=0-6 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akMODULE 0-6 module\x0atCONSTANT 7-9 V\xff\x00\x0atSEMI 9-10 ;\x0akMODULE 11-17 module\x0atCONSTANT 18-20 W\xff\x01\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"module V\xffb\x0av\xffa\x0ax\xffa\x0aend", shape: b"(module name=(const name=\x22V\xff\x00\x22) body=(begin statements=[(send method_name=\x22v\xff\x01\x22 args=[]) (send method_name=\x22x\xff\x02\x22 args=[])]))", full: b"(module name=(const name=\x22V\xff\x00\x22 name=7-9 expression=7-9) body=(begin statements=[(send method_name=\x22v\xff\x01\x22 args=[] selector=10-12 expression=10-12) (send method_name=\x22x\xff\x02\x22 args=[] selector=13-15 expression=13-15)] expression=10-15) keyword=0-6 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akMODULE 0-6 module\x0atCONSTANT 7-9 V\xff\x00\x0atNL 9-10 \x0a\x0atIDENTIFIER 10-12 v\xff\x01\x0atNL 12-13 \x0a\x0atIDENTIFIER 13-15 x\xff\x02\x0atNL 15-16 \x0a\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"class V\xffb\x0a\x0av\xffa\x0a\x0aend", shape: b"(class name=(const name=\x22V\xff\x00\x22) body=(send method_name=\x22v\xff\x01\x22 args=[]))", full: b"(class name=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) body=(send method_name=\x22v\xff\x01\x22 args=[] selector=10-12 expression=10-12) keyword=0-5 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atNL 8-9 \x0a\x0atIDENTIFIER 10-12 v\xff\x01\x0atNL 12-13 \x0a\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"class V\xffb; @v\xffa = \xffd; end", shape: b"(class name=(const name=\x22V\xff\x00\x22) body=(ivasgn name=\x22@v\xff\x01\x22 value=(int value=\x22\xff\x02\x22)))", full: b"(class name=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) body=(ivasgn name=\x22@v\xff\x01\x22 value=(int value=\x22\xff\x02\x22 expression=16-17) name=10-13 operator=14-15 expression=10-17) keyword=0-5 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atSEMI 8-9 ;\x0atIVAR 10-13 @v\xff\x01\x0atEQL 14-15 =\x0atINTEGER 16-17 \xff\x02\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
];
pub static CONTROL: &[Rec] = &[
    Rec { t: b"if v\xffa; x\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9) keyword=0-2 begin=5-6 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 x\xff\x01\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"if v\xffa then x\xffa end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13) keyword=0-2 begin=6-10 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0akTHEN 6-10 then\x0atIDENTIFIER 11-13 x\xff\x01\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"if v\xffa\x0ax\xffa\x0aend", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8) keyword=0-2 begin=5-6 end=9-12 expression=0-12)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atNL 5-6 \x0a\x0atIDENTIFIER 6-8 x\xff\x01\x0atNL 8-9 \x0a\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"if v\xffa\x0athen x\xffa end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13) keyword=0-2 begin=6-10 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atNL 5-6 \x0a\x0akTHEN 6-10 then\x0atIDENTIFIER 11-13 x\xff\x01\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"if v\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) keyword=0-2 begin=5-6 end=7-10 expression=0-10)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0akEND 7-10 end\x0aEOF 10-10 " },
    Rec { t: b"if v\xffa; x\xffa; else; z\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]) if_false=(send method_name=\x22z\xff\x02\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9) if_false=(send method_name=\x22z\xff\x02\x22 args=[] selector=17-19 expression=17-19) keyword=0-2 begin=5-6 else=11-15 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 x\xff\x01\x0atSEMI 9-10 ;\x0akELSE 11-15 else\x0atSEMI 15-16 ;\x0atIDENTIFIER 17-19 z\xff\x02\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"if v\xffa; x\xffa else z\xffa end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]) if_false=(send method_name=\x22z\xff\x02\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9) if_false=(send method_name=\x22z\xff\x02\x22 args=[] selector=15-17 expression=15-17) keyword=0-2 begin=5-6 else=10-14 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 x\xff\x01\x0akELSE 10-14 else\x0atIDENTIFIER 15-17 z\xff\x02\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"if v\xffa; else; z\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_false=(send method_name=\x22z\xff\x01\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_false=(send method_name=\x22z\xff\x01\x22 args=[] selector=13-15 expression=13-15) keyword=0-2 begin=5-6 else=7-11 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0akELSE 7-11 else\x0atSEMI 11-12 ;\x0atIDENTIFIER 13-15 z\xff\x01\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"if v\xffa; x\xffa; elsif z\xffa; q\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[]) if_true=(send method_name=\x22q\xff\x03\x22 args=[])))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[] selector=17-19 expression=17-19) if_true=(send method_name=\x22q\xff\x03\x22 args=[] selector=21-23 expression=21-23) keyword=11-16 begin=19-20 expression=11-23) keyword=0-2 begin=5-6 else=11-16 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 x\xff\x01\x0atSEMI 9-10 ;\x0akELSIF 11-16 elsif\x0atIDENTIFIER 17-19 z\xff\x02\x0atSEMI 19-20 ;\x0atIDENTIFIER 21-23 q\xff\x03\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"if v\xffa; x\xffa; elsif z\xffa; q\xffa; else; k\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[]) if_true=(send method_name=\x22q\xff\x03\x22 args=[]) if_false=(send method_name=\x22k\xff\x04\x22 args=[])))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[] selector=17-19 expression=17-19) if_true=(send method_name=\x22q\xff\x03\x22 args=[] selector=21-23 expression=21-23) if_false=(send method_name=\x22k\xff\x04\x22 args=[] selector=31-33 expression=31-33) keyword=11-16 begin=19-20 else=25-29 expression=11-33) keyword=0-2 begin=5-6 else=11-16 end=35-38 expression=0-38)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 x\xff\x01\x0atSEMI 9-10 ;\x0akELSIF 11-16 elsif\x0atIDENTIFIER 17-19 z\xff\x02\x0atSEMI 19-20 ;\x0atIDENTIFIER 21-23 q\xff\x03\x0atSEMI 23-24 ;\x0akELSE 25-29 else\x0atSEMI 29-30 ;\x0atIDENTIFIER 31-33 k\xff\x04\x0atSEMI 33-34 ;\x0akEND 35-38 end\x0aEOF 38-38 " },
    Rec { t: b"if v\xffa then x\xffa elsif z\xffa then q\xffa else k\xffa end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[]) if_true=(send method_name=\x22q\xff\x03\x22 args=[]) if_false=(send method_name=\x22k\xff\x04\x22 args=[])))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13) if_false=(if cond=(send method_name=\x22z\xff\x02\x22 args=[] selector=20-22 expression=20-22) if_true=(send method_name=\x22q\xff\x03\x22 args=[] selector=28-30 expression=28-30) if_false=(send method_name=\x22k\xff\x04\x22 args=[] selector=36-38 expression=36-38) keyword=14-19 begin=23-27 else=31-35 expression=14-38) keyword=0-2 begin=6-10 else=14-19 end=39-42 expression=0-42)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0akTHEN 6-10 then\x0atIDENTIFIER 11-13 x\xff\x01\x0akELSIF 14-19 elsif\x0atIDENTIFIER 20-22 z\xff\x02\x0akTHEN 23-27 then\x0atIDENTIFIER 28-30 q\xff\x03\x0akELSE 31-35 else\x0atIDENTIFIER 36-38 k\xff\x04\x0akEND 39-42 end\x0aEOF 42-42 " },
    Rec { t: b"if (v\xffa); x\xffa; end", shape: b"(if cond=(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(if cond=(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=4-6 expression=4-6)] begin=3-4 end=6-7 expression=3-7) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=9-11 expression=9-11) keyword=0-2 begin=7-8 end=13-16 expression=0-16)", diag: b"", toks: b"\x0akIF 0-2 if\x0atLPAREN 3-4 (\x0atIDENTIFIER 4-6 v\xff\x00\x0atRPAREN 6-7 )\x0atSEMI 7-8 ;\x0atIDENTIFIER 9-11 x\xff\x01\x0atSEMI 11-12 ;\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"if v\xffa && x\xffa; z\xffa; end", shape: b"(if cond=(and lhs=(send method_name=\x22v\xff\x00\x22 args=[]) rhs=(send method_name=\x22x\xff\x01\x22 args=[])) if_true=(send method_name=\x22z\xff\x02\x22 args=[]))", full: b"(if cond=(and lhs=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) rhs=(send method_name=\x22x\xff\x01\x22 args=[] selector=9-11 expression=9-11) operator=6-8 expression=3-11) if_true=(send method_name=\x22z\xff\x02\x22 args=[] selector=13-15 expression=13-15) keyword=0-2 begin=11-12 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atANDOP 6-8 &&\x0atIDENTIFIER 9-11 x\xff\x01\x0atSEMI 11-12 ;\x0atIDENTIFIER 13-15 z\xff\x02\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"if v\xffa = \xffd; end", shape: b"(if cond=(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22)))", full: b"(if cond=(lvasgn name=\x22v\xff\x00\x22 value=(int value=\x22\xff\x01\x22 expression=8-9) name=3-5 operator=6-7 expression=3-9) keyword=0-2 begin=9-10 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atEQL 6-7 =\x0atINTEGER 8-9 \xff\x01\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"if not v\xffa; x\xffa; end", shape: b"(if cond=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22!\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(if cond=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) method_name=\x22!\x22 args=[] selector=3-6 expression=3-9) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13) keyword=0-2 begin=9-10 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akIF 0-2 if\x0akNOT 3-6 not\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 x\xff\x01\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"unless v\xffa; x\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_false=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) if_false=(send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13) keyword=0-6 begin=9-10 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akUNLESS 0-6 unless\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 x\xff\x01\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"unless v\xffa then x\xffa end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_false=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) if_false=(send method_name=\x22x\xff\x01\x22 args=[] selector=15-17 expression=15-17) keyword=0-6 begin=10-14 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akUNLESS 0-6 unless\x0atIDENTIFIER 7-9 v\xff\x00\x0akTHEN 10-14 then\x0atIDENTIFIER 15-17 x\xff\x01\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"unless v\xffa; x\xffa; else; z\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22z\xff\x02\x22 args=[]) if_false=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) if_true=(send method_name=\x22z\xff\x02\x22 args=[] selector=21-23 expression=21-23) if_false=(send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13) keyword=0-6 begin=9-10 else=15-19 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akUNLESS 0-6 unless\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 x\xff\x01\x0atSEMI 13-14 ;\x0akELSE 15-19 else\x0atSEMI 19-20 ;\x0atIDENTIFIER 21-23 z\xff\x02\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"unless v\xffa; else z\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22z\xff\x01\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) if_true=(send method_name=\x22z\xff\x01\x22 args=[] selector=16-18 expression=16-18) keyword=0-6 begin=9-10 else=11-15 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akUNLESS 0-6 unless\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akELSE 11-15 else\x0atIDENTIFIER 16-18 z\xff\x01\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"while v\xffa; x\xffa; end", shape: b"(while cond=(send method_name=\x22v\xff\x00\x22 args=[]) body=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(while cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) body=(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12) keyword=0-5 begin=8-9 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akWHILE 0-5 while\x0atIDENTIFIER 6-8 v\xff\x00\x0atSEMI 8-9 ;\x0atIDENTIFIER 10-12 x\xff\x01\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"while v\xffa do x\xffa end", shape: b"(while cond=(send method_name=\x22v\xff\x00\x22 args=[]) body=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(while cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) body=(send method_name=\x22x\xff\x01\x22 args=[] selector=12-14 expression=12-14) keyword=0-5 begin=9-11 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akWHILE 0-5 while\x0atIDENTIFIER 6-8 v\xff\x00\x0akDO_COND 9-11 do\x0atIDENTIFIER 12-14 x\xff\x01\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"while v\xffa\x0ax\xffa\x0aend", shape: b"(while cond=(send method_name=\x22v\xff\x00\x22 args=[]) body=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(while cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) body=(send method_name=\x22x\xff\x01\x22 args=[] selector=9-11 expression=9-11) keyword=0-5 begin=8-9 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akWHILE 0-5 while\x0atIDENTIFIER 6-8 v\xff\x00\x0atNL 8-9 \x0a\x0atIDENTIFIER 9-11 x\xff\x01\x0atNL 11-12 \x0a\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"while v\xffa; end", shape: b"(while cond=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(while cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) keyword=0-5 begin=8-9 end=10-13 expression=0-13)", diag: b"", toks: b"\x0akWHILE 0-5 while\x0atIDENTIFIER 6-8 v\xff\x00\x0atSEMI 8-9 ;\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"while v\xffa do end", shape: b"(while cond=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(while cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) keyword=0-5 begin=9-11 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akWHILE 0-5 while\x0atIDENTIFIER 6-8 v\xff\x00\x0akDO_COND 9-11 do\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"while v\xffa.x\xffa { \xffd } do z\xffa end", shape: b"(while cond=(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) body=(int value=\x22\xff\x02\x22)) body=(send method_name=\x22z\xff\x03\x22 args=[]))", full: b"(while cond=(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) method_name=\x22x\xff\x01\x22 args=[] dot=8-9 selector=9-11 expression=6-11) body=(int value=\x22\xff\x02\x22 expression=14-15) begin=12-13 end=16-17 expression=6-17) body=(send method_name=\x22z\xff\x03\x22 args=[] selector=21-23 expression=21-23) keyword=0-5 begin=18-20 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akWHILE 0-5 while\x0atIDENTIFIER 6-8 v\xff\x00\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 x\xff\x01\x0atLCURLY 12-13 {\x0atINTEGER 14-15 \xff\x02\x0atRCURLY 16-17 }\x0akDO_COND 18-20 do\x0atIDENTIFIER 21-23 z\xff\x03\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"while (v\xffa do x\xffa end) do \xffd end", shape: b"(while cond=(begin statements=[(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(send method_name=\x22x\xff\x01\x22 args=[]))]) body=(int value=\x22\xff\x02\x22))", full: b"(while cond=(begin statements=[(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) body=(send method_name=\x22x\xff\x01\x22 args=[] selector=13-15 expression=13-15) begin=10-12 end=16-19 expression=7-19)] begin=6-7 end=19-20 expression=6-20) body=(int value=\x22\xff\x02\x22 expression=24-25) keyword=0-5 begin=21-23 end=26-29 expression=0-29)", diag: b"", toks: b"\x0akWHILE 0-5 while\x0atLPAREN 6-7 (\x0atIDENTIFIER 7-9 v\xff\x00\x0akDO 10-12 do\x0atIDENTIFIER 13-15 x\xff\x01\x0akEND 16-19 end\x0atRPAREN 19-20 )\x0akDO_COND 21-23 do\x0atINTEGER 24-25 \xff\x02\x0akEND 26-29 end\x0aEOF 29-29 " },
    Rec { t: b"until v\xffa; x\xffa; end", shape: b"(until cond=(send method_name=\x22v\xff\x00\x22 args=[]) body=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(until cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) body=(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12) keyword=0-5 begin=8-9 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akUNTIL 0-5 until\x0atIDENTIFIER 6-8 v\xff\x00\x0atSEMI 8-9 ;\x0atIDENTIFIER 10-12 x\xff\x01\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"until v\xffa do x\xffa end", shape: b"(until cond=(send method_name=\x22v\xff\x00\x22 args=[]) body=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(until cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) body=(send method_name=\x22x\xff\x01\x22 args=[] selector=12-14 expression=12-14) keyword=0-5 begin=9-11 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akUNTIL 0-5 until\x0atIDENTIFIER 6-8 v\xff\x00\x0akDO_COND 9-11 do\x0atIDENTIFIER 12-14 x\xff\x01\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"until v\xffa\x0a\x0aend", shape: b"(until cond=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(until cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) keyword=0-5 begin=8-9 end=10-13 expression=0-13)", diag: b"", toks: b"\x0akUNTIL 0-5 until\x0atIDENTIFIER 6-8 v\xff\x00\x0atNL 8-9 \x0a\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"for v\xffa in x\xffa; z\xffa; end", shape: b"(for iterator=(lvasgn name=\x22v\xff\x00\x22) iteratee=(send method_name=\x22x\xff\x01\x22 args=[]) body=(send method_name=\x22z\xff\x02\x22 args=[]))", full: b"(for iterator=(lvasgn name=\x22v\xff\x00\x22 name=4-6 expression=4-6) iteratee=(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12) body=(send method_name=\x22z\xff\x02\x22 args=[] selector=14-16 expression=14-16) keyword=0-3 operator=7-9 begin=12-13 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atIDENTIFIER 4-6 v\xff\x00\x0akIN 7-9 in\x0atIDENTIFIER 10-12 x\xff\x01\x0atSEMI 12-13 ;\x0atIDENTIFIER 14-16 z\xff\x02\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"for v\xffa in x\xffa do z\xffa end", shape: b"(for iterator=(lvasgn name=\x22v\xff\x00\x22) iteratee=(send method_name=\x22x\xff\x01\x22 args=[]) body=(send method_name=\x22z\xff\x02\x22 args=[]))", full: b"(for iterator=(lvasgn name=\x22v\xff\x00\x22 name=4-6 expression=4-6) iteratee=(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12) body=(send method_name=\x22z\xff\x02\x22 args=[] selector=16-18 expression=16-18) keyword=0-3 operator=7-9 begin=13-15 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atIDENTIFIER 4-6 v\xff\x00\x0akIN 7-9 in\x0atIDENTIFIER 10-12 x\xff\x01\x0akDO_COND 13-15 do\x0atIDENTIFIER 16-18 z\xff\x02\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"for v\xffa, z\xffa in x\xffa; \xffd; end", shape: b"(for iterator=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (lvasgn name=\x22z\xff\x01\x22)]) iteratee=(send method_name=\x22x\xff\x02\x22 args=[]) body=(int value=\x22\xff\x03\x22))", full: b"(for iterator=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=4-6 expression=4-6) (lvasgn name=\x22z\xff\x01\x22 name=8-10 expression=8-10)] expression=4-10) iteratee=(send method_name=\x22x\xff\x02\x22 args=[] selector=14-16 expression=14-16) body=(int value=\x22\xff\x03\x22 expression=18-19) keyword=0-3 operator=11-13 begin=16-17 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atIDENTIFIER 4-6 v\xff\x00\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-10 z\xff\x01\x0akIN 11-13 in\x0atIDENTIFIER 14-16 x\xff\x02\x0atSEMI 16-17 ;\x0atINTEGER 18-19 \xff\x03\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"for v\xffa, in x\xffa; \xffd; end", shape: b"(for iterator=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22)]) iteratee=(send method_name=\x22x\xff\x01\x22 args=[]) body=(int value=\x22\xff\x02\x22))", full: b"(for iterator=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=4-6 expression=4-6)] expression=4-6) iteratee=(send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13) body=(int value=\x22\xff\x02\x22 expression=15-16) keyword=0-3 operator=8-10 begin=13-14 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atIDENTIFIER 4-6 v\xff\x00\x0atCOMMA 6-7 ,\x0akIN 8-10 in\x0atIDENTIFIER 11-13 x\xff\x01\x0atSEMI 13-14 ;\x0atINTEGER 15-16 \xff\x02\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"for (v\xffa, z\xffa) in x\xffa; \xffd; end", shape: b"(for iterator=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (lvasgn name=\x22z\xff\x01\x22)]) iteratee=(send method_name=\x22x\xff\x02\x22 args=[]) body=(int value=\x22\xff\x03\x22))", full: b"(for iterator=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=5-7 expression=5-7) (lvasgn name=\x22z\xff\x01\x22 name=9-11 expression=9-11)] begin=4-5 end=11-12 expression=4-12) iteratee=(send method_name=\x22x\xff\x02\x22 args=[] selector=16-18 expression=16-18) body=(int value=\x22\xff\x03\x22 expression=20-21) keyword=0-3 operator=13-15 begin=18-19 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atLPAREN 4-5 (\x0atIDENTIFIER 5-7 v\xff\x00\x0atCOMMA 7-8 ,\x0atIDENTIFIER 9-11 z\xff\x01\x0atRPAREN 11-12 )\x0akIN 13-15 in\x0atIDENTIFIER 16-18 x\xff\x02\x0atSEMI 18-19 ;\x0atINTEGER 20-21 \xff\x03\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"for *v\xffa in x\xffa; \xffd; end", shape: b"(for iterator=(mlhs items=[(splat value=(lvasgn name=\x22v\xff\x00\x22))]) iteratee=(send method_name=\x22x\xff\x01\x22 args=[]) body=(int value=\x22\xff\x02\x22))", full: b"(for iterator=(mlhs items=[(splat value=(lvasgn name=\x22v\xff\x00\x22 name=5-7 expression=5-7) operator=4-5 expression=4-7)] expression=4-7) iteratee=(send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13) body=(int value=\x22\xff\x02\x22 expression=15-16) keyword=0-3 operator=8-10 begin=13-14 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atSTAR 4-5 *\x0atIDENTIFIER 5-7 v\xff\x00\x0akIN 8-10 in\x0atIDENTIFIER 11-13 x\xff\x01\x0atSEMI 13-14 ;\x0atINTEGER 15-16 \xff\x02\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"for @v\xffa in x\xffa; \xffd; end", shape: b"(for iterator=(ivasgn name=\x22@v\xff\x00\x22) iteratee=(send method_name=\x22x\xff\x01\x22 args=[]) body=(int value=\x22\xff\x02\x22))", full: b"(for iterator=(ivasgn name=\x22@v\xff\x00\x22 name=4-7 expression=4-7) iteratee=(send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13) body=(int value=\x22\xff\x02\x22 expression=15-16) keyword=0-3 operator=8-10 begin=13-14 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atIVAR 4-7 @v\xff\x00\x0akIN 8-10 in\x0atIDENTIFIER 11-13 x\xff\x01\x0atSEMI 13-14 ;\x0atINTEGER 15-16 \xff\x02\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"for v\xffa.z\xffa in x\xffa; \xffd; end", shape: b"(for iterator=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22z\xff\x01=\x22 args=[]) iteratee=(send method_name=\x22x\xff\x02\x22 args=[]) body=(int value=\x22\xff\x03\x22))", full: b"(for iterator=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=4-6 expression=4-6) method_name=\x22z\xff\x01=\x22 args=[] dot=6-7 selector=7-9 expression=4-9) iteratee=(send method_name=\x22x\xff\x02\x22 args=[] selector=13-15 expression=13-15) body=(int value=\x22\xff\x03\x22 expression=17-18) keyword=0-3 operator=10-12 begin=15-16 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atIDENTIFIER 4-6 v\xff\x00\x0atDOT 6-7 .\x0atIDENTIFIER 7-9 z\xff\x01\x0akIN 10-12 in\x0atIDENTIFIER 13-15 x\xff\x02\x0atSEMI 15-16 ;\x0atINTEGER 17-18 \xff\x03\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"for v\xffa[\xffd] in x\xffa; \xffd; end", shape: b"(for iterator=(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(int value=\x22\xff\x01\x22)]) iteratee=(send method_name=\x22x\xff\x02\x22 args=[]) body=(int value=\x22\xff\x03\x22))", full: b"(for iterator=(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=4-6 expression=4-6) indexes=[(int value=\x22\xff\x01\x22 expression=7-8)] begin=6-7 end=8-9 expression=4-9) iteratee=(send method_name=\x22x\xff\x02\x22 args=[] selector=13-15 expression=13-15) body=(int value=\x22\xff\x03\x22 expression=17-18) keyword=0-3 operator=10-12 begin=15-16 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atIDENTIFIER 4-6 v\xff\x00\x0atLBRACK2 6-7 [\x0atINTEGER 7-8 \xff\x01\x0atRBRACK 8-9 ]\x0akIN 10-12 in\x0atIDENTIFIER 13-15 x\xff\x02\x0atSEMI 15-16 ;\x0atINTEGER 17-18 \xff\x03\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"for v\xffa, *z\xffa in x\xffa do\x0a\xffd\x0aend", shape: b"(for iterator=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (splat value=(lvasgn name=\x22z\xff\x01\x22))]) iteratee=(send method_name=\x22x\xff\x02\x22 args=[]) body=(int value=\x22\xff\x03\x22))", full: b"(for iterator=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=4-6 expression=4-6) (splat value=(lvasgn name=\x22z\xff\x01\x22 name=9-11 expression=9-11) operator=8-9 expression=8-11)] expression=4-11) iteratee=(send method_name=\x22x\xff\x02\x22 args=[] selector=15-17 expression=15-17) body=(int value=\x22\xff\x03\x22 expression=21-22) keyword=0-3 operator=12-14 begin=18-20 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atIDENTIFIER 4-6 v\xff\x00\x0atCOMMA 6-7 ,\x0atSTAR 8-9 *\x0atIDENTIFIER 9-11 z\xff\x01\x0akIN 12-14 in\x0atIDENTIFIER 15-17 x\xff\x02\x0akDO_COND 18-20 do\x0atINTEGER 21-22 \xff\x03\x0atNL 22-23 \x0a\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"for v\xffa in x\xffa do end", shape: b"(for iterator=(lvasgn name=\x22v\xff\x00\x22) iteratee=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(for iterator=(lvasgn name=\x22v\xff\x00\x22 name=4-6 expression=4-6) iteratee=(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12) keyword=0-3 operator=7-9 begin=13-15 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atIDENTIFIER 4-6 v\xff\x00\x0akIN 7-9 in\x0atIDENTIFIER 10-12 x\xff\x01\x0akDO_COND 13-15 do\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"for v\xffa in x\xffa.z\xffa { \xffd } do q\xffa end", shape: b"(for iterator=(lvasgn name=\x22v\xff\x00\x22) iteratee=(block call=(send recv=(send method_name=\x22x\xff\x01\x22 args=[]) method_name=\x22z\xff\x02\x22 args=[]) body=(int value=\x22\xff\x03\x22)) body=(send method_name=\x22q\xff\x04\x22 args=[]))", full: b"(for iterator=(lvasgn name=\x22v\xff\x00\x22 name=4-6 expression=4-6) iteratee=(block call=(send recv=(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12) method_name=\x22z\xff\x02\x22 args=[] dot=12-13 selector=13-15 expression=10-15) body=(int value=\x22\xff\x03\x22 expression=18-19) begin=16-17 end=20-21 expression=10-21) body=(send method_name=\x22q\xff\x04\x22 args=[] selector=25-27 expression=25-27) keyword=0-3 operator=7-9 begin=22-24 end=28-31 expression=0-31)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atIDENTIFIER 4-6 v\xff\x00\x0akIN 7-9 in\x0atIDENTIFIER 10-12 x\xff\x01\x0atDOT 12-13 .\x0atIDENTIFIER 13-15 z\xff\x02\x0atLCURLY 16-17 {\x0atINTEGER 18-19 \xff\x03\x0atRCURLY 20-21 }\x0akDO_COND 22-24 do\x0atIDENTIFIER 25-27 q\xff\x04\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"for v\xffa in \xffd..\xffd; z\xffa; end", shape: b"(for iterator=(lvasgn name=\x22v\xff\x00\x22) iteratee=(irange left=(int value=\x22\xff\x01\x22) right=(int value=\x22\xff\x02\x22)) body=(send method_name=\x22z\xff\x03\x22 args=[]))", full: b"(for iterator=(lvasgn name=\x22v\xff\x00\x22 name=4-6 expression=4-6) iteratee=(irange left=(int value=\x22\xff\x01\x22 expression=10-11) right=(int value=\x22\xff\x02\x22 expression=13-14) operator=11-13 expression=10-14) body=(send method_name=\x22z\xff\x03\x22 args=[] selector=16-18 expression=16-18) keyword=0-3 operator=7-9 begin=14-15 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atIDENTIFIER 4-6 v\xff\x00\x0akIN 7-9 in\x0atINTEGER 10-11 \xff\x01\x0atDOT2 11-13 ..\x0atINTEGER 13-14 \xff\x02\x0atSEMI 14-15 ;\x0atIDENTIFIER 16-18 z\xff\x03\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"case v\xffa; when x\xffa; z\xffa; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(send method_name=\x22x\xff\x01\x22 args=[])] body=(send method_name=\x22z\xff\x02\x22 args=[]))])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(send method_name=\x22x\xff\x01\x22 args=[] selector=14-16 expression=14-16)] body=(send method_name=\x22z\xff\x02\x22 args=[] selector=18-20 expression=18-20) keyword=9-13 begin=16-17 expression=9-20)] keyword=0-4 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atIDENTIFIER 14-16 x\xff\x01\x0atSEMI 16-17 ;\x0atIDENTIFIER 18-20 z\xff\x02\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"case v\xffa; when x\xffa then z\xffa; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(send method_name=\x22x\xff\x01\x22 args=[])] body=(send method_name=\x22z\xff\x02\x22 args=[]))])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(send method_name=\x22x\xff\x01\x22 args=[] selector=14-16 expression=14-16)] body=(send method_name=\x22z\xff\x02\x22 args=[] selector=22-24 expression=22-24) keyword=9-13 begin=17-21 expression=9-24)] keyword=0-4 end=26-29 expression=0-29)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atIDENTIFIER 14-16 x\xff\x01\x0akTHEN 17-21 then\x0atIDENTIFIER 22-24 z\xff\x02\x0atSEMI 24-25 ;\x0akEND 26-29 end\x0aEOF 29-29 " },
    Rec { t: b"case v\xffa; when x\xffa, \xffd; z\xffa; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(send method_name=\x22x\xff\x01\x22 args=[]) (int value=\x22\xff\x02\x22)] body=(send method_name=\x22z\xff\x03\x22 args=[]))])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(send method_name=\x22x\xff\x01\x22 args=[] selector=14-16 expression=14-16) (int value=\x22\xff\x02\x22 expression=18-19)] body=(send method_name=\x22z\xff\x03\x22 args=[] selector=21-23 expression=21-23) keyword=9-13 begin=19-20 expression=9-23)] keyword=0-4 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atIDENTIFIER 14-16 x\xff\x01\x0atCOMMA 16-17 ,\x0atINTEGER 18-19 \xff\x02\x0atSEMI 19-20 ;\x0atIDENTIFIER 21-23 z\xff\x03\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"case v\xffa; when *x\xffa; z\xffa; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[]))] body=(send method_name=\x22z\xff\x02\x22 args=[]))])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[] selector=15-17 expression=15-17) operator=14-15 expression=14-17)] body=(send method_name=\x22z\xff\x02\x22 args=[] selector=19-21 expression=19-21) keyword=9-13 begin=17-18 expression=9-21)] keyword=0-4 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atSTAR 14-15 *\x0atIDENTIFIER 15-17 x\xff\x01\x0atSEMI 17-18 ;\x0atIDENTIFIER 19-21 z\xff\x02\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"case v\xffa; when x\xffa, *z\xffa; \xffd; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(send method_name=\x22x\xff\x01\x22 args=[]) (splat value=(send method_name=\x22z\xff\x02\x22 args=[]))] body=(int value=\x22\xff\x03\x22))])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(send method_name=\x22x\xff\x01\x22 args=[] selector=14-16 expression=14-16) (splat value=(send method_name=\x22z\xff\x02\x22 args=[] selector=19-21 expression=19-21) operator=18-19 expression=18-21)] body=(int value=\x22\xff\x03\x22 expression=23-24) keyword=9-13 begin=21-22 expression=9-24)] keyword=0-4 end=26-29 expression=0-29)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atIDENTIFIER 14-16 x\xff\x01\x0atCOMMA 16-17 ,\x0atSTAR 18-19 *\x0atIDENTIFIER 19-21 z\xff\x02\x0atSEMI 21-22 ;\x0atINTEGER 23-24 \xff\x03\x0atSEMI 24-25 ;\x0akEND 26-29 end\x0aEOF 29-29 " },
    Rec { t: b"case v\xffa; when x\xffa; when z\xffa; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(send method_name=\x22x\xff\x01\x22 args=[])]) (when patterns=[(send method_name=\x22z\xff\x02\x22 args=[])])])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(send method_name=\x22x\xff\x01\x22 args=[] selector=14-16 expression=14-16)] keyword=9-13 begin=16-17 expression=9-16) (when patterns=[(send method_name=\x22z\xff\x02\x22 args=[] selector=23-25 expression=23-25)] keyword=18-22 begin=25-26 expression=18-25)] keyword=0-4 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atIDENTIFIER 14-16 x\xff\x01\x0atSEMI 16-17 ;\x0akWHEN 18-22 when\x0atIDENTIFIER 23-25 z\xff\x02\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"case v\xffa; when x\xffa; \xffd; else; \xffd; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(send method_name=\x22x\xff\x01\x22 args=[])] body=(int value=\x22\xff\x02\x22))] else_body=(int value=\x22\xff\x03\x22))", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(send method_name=\x22x\xff\x01\x22 args=[] selector=14-16 expression=14-16)] body=(int value=\x22\xff\x02\x22 expression=18-19) keyword=9-13 begin=16-17 expression=9-19)] else_body=(int value=\x22\xff\x03\x22 expression=27-28) keyword=0-4 else=21-25 end=30-33 expression=0-33)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atIDENTIFIER 14-16 x\xff\x01\x0atSEMI 16-17 ;\x0atINTEGER 18-19 \xff\x02\x0atSEMI 19-20 ;\x0akELSE 21-25 else\x0atSEMI 25-26 ;\x0atINTEGER 27-28 \xff\x03\x0atSEMI 28-29 ;\x0akEND 30-33 end\x0aEOF 33-33 " },
    Rec { t: b"case v\xffa; when x\xffa; \xffd; else \xffd end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(send method_name=\x22x\xff\x01\x22 args=[])] body=(int value=\x22\xff\x02\x22))] else_body=(int value=\x22\xff\x03\x22))", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(send method_name=\x22x\xff\x01\x22 args=[] selector=14-16 expression=14-16)] body=(int value=\x22\xff\x02\x22 expression=18-19) keyword=9-13 begin=16-17 expression=9-19)] else_body=(int value=\x22\xff\x03\x22 expression=26-27) keyword=0-4 else=21-25 end=28-31 expression=0-31)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atIDENTIFIER 14-16 x\xff\x01\x0atSEMI 16-17 ;\x0atINTEGER 18-19 \xff\x02\x0atSEMI 19-20 ;\x0akELSE 21-25 else\x0atINTEGER 26-27 \xff\x03\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"case v\xffa; when x\xffa; else; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(send method_name=\x22x\xff\x01\x22 args=[])])])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(send method_name=\x22x\xff\x01\x22 args=[] selector=14-16 expression=14-16)] keyword=9-13 begin=16-17 expression=9-16)] keyword=0-4 else=18-22 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atIDENTIFIER 14-16 x\xff\x01\x0atSEMI 16-17 ;\x0akELSE 18-22 else\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"case v\xffa\x0awhen x\xffa\x0a\xffd\x0awhen z\xffa then \xffd\x0aelse \xffd\x0aend", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(send method_name=\x22x\xff\x01\x22 args=[])] body=(int value=\x22\xff\x02\x22)) (when patterns=[(send method_name=\x22z\xff\x03\x22 args=[])] body=(int value=\x22\xff\x04\x22))] else_body=(int value=\x22\xff\x05\x22))", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(send method_name=\x22x\xff\x01\x22 args=[] selector=13-15 expression=13-15)] body=(int value=\x22\xff\x02\x22 expression=16-17) keyword=8-12 begin=15-16 expression=8-17) (when patterns=[(send method_name=\x22z\xff\x03\x22 args=[] selector=23-25 expression=23-25)] body=(int value=\x22\xff\x04\x22 expression=31-32) keyword=18-22 begin=26-30 expression=18-32)] else_body=(int value=\x22\xff\x05\x22 expression=38-39) keyword=0-4 else=33-37 end=40-43 expression=0-43)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atNL 7-8 \x0a\x0akWHEN 8-12 when\x0atIDENTIFIER 13-15 x\xff\x01\x0atNL 15-16 \x0a\x0atINTEGER 16-17 \xff\x02\x0atNL 17-18 \x0a\x0akWHEN 18-22 when\x0atIDENTIFIER 23-25 z\xff\x03\x0akTHEN 26-30 then\x0atINTEGER 31-32 \xff\x04\x0atNL 32-33 \x0a\x0akELSE 33-37 else\x0atINTEGER 38-39 \xff\x05\x0atNL 39-40 \x0a\x0akEND 40-43 end\x0aEOF 43-43 " },
    Rec { t: b"case; when v\xffa; \xffd; end", shape: b"(case when_bodies=[(when patterns=[(send method_name=\x22v\xff\x00\x22 args=[])] body=(int value=\x22\xff\x01\x22))])", full: b"(case when_bodies=[(when patterns=[(send method_name=\x22v\xff\x00\x22 args=[] selector=11-13 expression=11-13)] body=(int value=\x22\xff\x01\x22 expression=15-16) keyword=6-10 begin=13-14 expression=6-16)] keyword=0-4 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atSEMI 4-5 ;\x0akWHEN 6-10 when\x0atIDENTIFIER 11-13 v\xff\x00\x0atSEMI 13-14 ;\x0atINTEGER 15-16 \xff\x01\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"case; when v\xffa then \xffd; else \xffd; end", shape: b"(case when_bodies=[(when patterns=[(send method_name=\x22v\xff\x00\x22 args=[])] body=(int value=\x22\xff\x01\x22))] else_body=(int value=\x22\xff\x02\x22))", full: b"(case when_bodies=[(when patterns=[(send method_name=\x22v\xff\x00\x22 args=[] selector=11-13 expression=11-13)] body=(int value=\x22\xff\x01\x22 expression=19-20) keyword=6-10 begin=14-18 expression=6-20)] else_body=(int value=\x22\xff\x02\x22 expression=27-28) keyword=0-4 else=22-26 end=30-33 expression=0-33)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atSEMI 4-5 ;\x0akWHEN 6-10 when\x0atIDENTIFIER 11-13 v\xff\x00\x0akTHEN 14-18 then\x0atINTEGER 19-20 \xff\x01\x0atSEMI 20-21 ;\x0akELSE 22-26 else\x0atINTEGER 27-28 \xff\x02\x0atSEMI 28-29 ;\x0akEND 30-33 end\x0aEOF 33-33 " },
    Rec { t: b"case\x0awhen v\xffa\x0aend", shape: b"(case when_bodies=[(when patterns=[(send method_name=\x22v\xff\x00\x22 args=[])])])", full: b"(case when_bodies=[(when patterns=[(send method_name=\x22v\xff\x00\x22 args=[] selector=10-12 expression=10-12)] keyword=5-9 begin=12-13 expression=5-12)] keyword=0-4 end=13-16 expression=0-16)", diag: b"", toks: b"\x0akCASE 0-4 case\x0akWHEN 5-9 when\x0atIDENTIFIER 10-12 v\xff\x00\x0atNL 12-13 \x0a\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"case v\xffa; when ->(x\xffa) { \xffd }; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x01\x22)]) body=(int value=\x22\xff\x02\x22))])])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(block call=(lambda expression=14-16) args=(args args=[(arg name=\x22x\xff\x01\x22 expression=17-19)] expression=16-20 begin=16-17 end=19-20) body=(int value=\x22\xff\x02\x22 expression=23-24) begin=21-22 end=25-26 expression=14-26)] keyword=9-13 begin=26-27 expression=9-26)] keyword=0-4 end=28-31 expression=0-31)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atLAMBDA 14-16 ->\x0atLPAREN2 16-17 (\x0atIDENTIFIER 17-19 x\xff\x01\x0atRPAREN 19-20 )\x0atLAMBEG 21-22 {\x0atINTEGER 23-24 \xff\x02\x0atRCURLY 25-26 }\x0atSEMI 26-27 ;\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"case v\xffa when x\xffa then \xffd end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(send method_name=\x22x\xff\x01\x22 args=[])] body=(int value=\x22\xff\x02\x22))])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(send method_name=\x22x\xff\x01\x22 args=[] selector=13-15 expression=13-15)] body=(int value=\x22\xff\x02\x22 expression=21-22) keyword=8-12 begin=16-20 expression=8-22)] keyword=0-4 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0akWHEN 8-12 when\x0atIDENTIFIER 13-15 x\xff\x01\x0akTHEN 16-20 then\x0atINTEGER 21-22 \xff\x02\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"begin; end", shape: b"(kw_begin statements=[])", full: b"(kw_begin statements=[] begin=0-5 end=7-10 expression=0-10)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akEND 7-10 end\x0aEOF 10-10 " },
    Rec { t: b"begin; v\xffa; end", shape: b"(kw_begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])])", full: b"(kw_begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9)] begin=0-5 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"begin; v\xffa; x\xffa; end", shape: b"(kw_begin statements=[(send method_name=\x22v\xff\x00\x22 args=[]) (send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(kw_begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) (send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13)] begin=0-5 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 x\xff\x01\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"begin\x0av\xffa\x0aend", shape: b"(kw_begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])])", full: b"(kw_begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8)] begin=0-5 end=9-12 expression=0-12)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atIDENTIFIER 6-8 v\xff\x00\x0atNL 8-9 \x0a\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"begin; v\xffa; rescue; x\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x01\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x01\x22 args=[] selector=19-21 expression=19-21) keyword=11-17 begin=17-18 expression=11-21)] expression=7-21)] begin=0-5 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSEMI 17-18 ;\x0atIDENTIFIER 19-21 x\xff\x01\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"begin; v\xffa; rescue then x\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x01\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x01\x22 args=[] selector=23-25 expression=23-25) keyword=11-17 begin=18-22 expression=11-25)] expression=7-25)] begin=0-5 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0akTHEN 18-22 then\x0atIDENTIFIER 23-25 x\xff\x01\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"begin; v\xffa; rescue V\xffb; x\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22)]) body=(send method_name=\x22x\xff\x02\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22 name=18-20 expression=18-20)] expression=18-20) body=(send method_name=\x22x\xff\x02\x22 args=[] selector=22-24 expression=22-24) keyword=11-17 begin=20-21 expression=11-24)] expression=7-24)] begin=0-5 end=26-29 expression=0-29)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atCONSTANT 18-20 V\xff\x01\x0atSEMI 20-21 ;\x0atIDENTIFIER 22-24 x\xff\x02\x0atSEMI 24-25 ;\x0akEND 26-29 end\x0aEOF 29-29 " },
    Rec { t: b"begin; v\xffa; rescue V\xffb then x\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22)]) body=(send method_name=\x22x\xff\x02\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22 name=18-20 expression=18-20)] expression=18-20) body=(send method_name=\x22x\xff\x02\x22 args=[] selector=26-28 expression=26-28) keyword=11-17 begin=21-25 expression=11-28)] expression=7-28)] begin=0-5 end=30-33 expression=0-33)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atCONSTANT 18-20 V\xff\x01\x0akTHEN 21-25 then\x0atIDENTIFIER 26-28 x\xff\x02\x0atSEMI 28-29 ;\x0akEND 30-33 end\x0aEOF 33-33 " },
    Rec { t: b"begin; v\xffa; rescue V\xffb, W\xffb; x\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22) (const name=\x22W\xff\x02\x22)]) body=(send method_name=\x22x\xff\x03\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22 name=18-20 expression=18-20) (const name=\x22W\xff\x02\x22 name=22-24 expression=22-24)] expression=18-24) body=(send method_name=\x22x\xff\x03\x22 args=[] selector=26-28 expression=26-28) keyword=11-17 begin=24-25 expression=11-28)] expression=7-28)] begin=0-5 end=30-33 expression=0-33)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atCONSTANT 18-20 V\xff\x01\x0atCOMMA 20-21 ,\x0atCONSTANT 22-24 W\xff\x02\x0atSEMI 24-25 ;\x0atIDENTIFIER 26-28 x\xff\x03\x0atSEMI 28-29 ;\x0akEND 30-33 end\x0aEOF 33-33 " },
    Rec { t: b"begin; v\xffa; rescue V\xffb => k\xffa; x\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22)]) exc_var=(lvasgn name=\x22k\xff\x02\x22) body=(send method_name=\x22x\xff\x03\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22 name=18-20 expression=18-20)] expression=18-20) exc_var=(lvasgn name=\x22k\xff\x02\x22 name=24-26 expression=24-26) body=(send method_name=\x22x\xff\x03\x22 args=[] selector=28-30 expression=28-30) keyword=11-17 assoc=21-23 begin=26-27 expression=11-30)] expression=7-30)] begin=0-5 end=32-35 expression=0-35)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atCONSTANT 18-20 V\xff\x01\x0atASSOC 21-23 =>\x0atIDENTIFIER 24-26 k\xff\x02\x0atSEMI 26-27 ;\x0atIDENTIFIER 28-30 x\xff\x03\x0atSEMI 30-31 ;\x0akEND 32-35 end\x0aEOF 35-35 " },
    Rec { t: b"begin; v\xffa; rescue V\xffb => @k\xffa; x\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22)]) exc_var=(ivasgn name=\x22@k\xff\x02\x22) body=(send method_name=\x22x\xff\x03\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22 name=18-20 expression=18-20)] expression=18-20) exc_var=(ivasgn name=\x22@k\xff\x02\x22 name=24-27 expression=24-27) body=(send method_name=\x22x\xff\x03\x22 args=[] selector=29-31 expression=29-31) keyword=11-17 assoc=21-23 begin=27-28 expression=11-31)] expression=7-31)] begin=0-5 end=33-36 expression=0-36)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atCONSTANT 18-20 V\xff\x01\x0atASSOC 21-23 =>\x0atIVAR 24-27 @k\xff\x02\x0atSEMI 27-28 ;\x0atIDENTIFIER 29-31 x\xff\x03\x0atSEMI 31-32 ;\x0akEND 33-36 end\x0aEOF 36-36 " },
    Rec { t: b"begin; v\xffa; rescue V\xffb => k\xffa.j\xffa; x\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22)]) exc_var=(send recv=(send method_name=\x22k\xff\x02\x22 args=[]) method_name=\x22j\xff\x03=\x22 args=[]) body=(send method_name=\x22x\xff\x04\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22 name=18-20 expression=18-20)] expression=18-20) exc_var=(send recv=(send method_name=\x22k\xff\x02\x22 args=[] selector=24-26 expression=24-26) method_name=\x22j\xff\x03=\x22 args=[] dot=26-27 selector=27-29 expression=24-29) body=(send method_name=\x22x\xff\x04\x22 args=[] selector=31-33 expression=31-33) keyword=11-17 assoc=21-23 begin=29-30 expression=11-33)] expression=7-33)] begin=0-5 end=35-38 expression=0-38)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atCONSTANT 18-20 V\xff\x01\x0atASSOC 21-23 =>\x0atIDENTIFIER 24-26 k\xff\x02\x0atDOT 26-27 .\x0atIDENTIFIER 27-29 j\xff\x03\x0atSEMI 29-30 ;\x0atIDENTIFIER 31-33 x\xff\x04\x0atSEMI 33-34 ;\x0akEND 35-38 end\x0aEOF 38-38 " },
    Rec { t: b"begin; v\xffa; rescue V\xffb => k\xffa[\xffd]; x\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22)]) exc_var=(index_asgn recv=(send method_name=\x22k\xff\x02\x22 args=[]) indexes=[(int value=\x22\xff\x03\x22)]) body=(send method_name=\x22x\xff\x04\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22 name=18-20 expression=18-20)] expression=18-20) exc_var=(index_asgn recv=(send method_name=\x22k\xff\x02\x22 args=[] selector=24-26 expression=24-26) indexes=[(int value=\x22\xff\x03\x22 expression=27-28)] begin=26-27 end=28-29 expression=24-29) body=(send method_name=\x22x\xff\x04\x22 args=[] selector=31-33 expression=31-33) keyword=11-17 assoc=21-23 begin=29-30 expression=11-33)] expression=7-33)] begin=0-5 end=35-38 expression=0-38)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atCONSTANT 18-20 V\xff\x01\x0atASSOC 21-23 =>\x0atIDENTIFIER 24-26 k\xff\x02\x0atLBRACK2 26-27 [\x0atINTEGER 27-28 \xff\x03\x0atRBRACK 28-29 ]\x0atSEMI 29-30 ;\x0atIDENTIFIER 31-33 x\xff\x04\x0atSEMI 33-34 ;\x0akEND 35-38 end\x0aEOF 38-38 " },
    Rec { t: b"begin; v\xffa; rescue V\xffb => $k\xffa; x\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22)]) exc_var=(gvasgn name=\x22$k\xff\x02\x22) body=(send method_name=\x22x\xff\x03\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22 name=18-20 expression=18-20)] expression=18-20) exc_var=(gvasgn name=\x22$k\xff\x02\x22 name=24-27 expression=24-27) body=(send method_name=\x22x\xff\x03\x22 args=[] selector=29-31 expression=29-31) keyword=11-17 assoc=21-23 begin=27-28 expression=11-31)] expression=7-31)] begin=0-5 end=33-36 expression=0-36)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atCONSTANT 18-20 V\xff\x01\x0atASSOC 21-23 =>\x0atGVAR 24-27 $k\xff\x02\x0atSEMI 27-28 ;\x0atIDENTIFIER 29-31 x\xff\x03\x0atSEMI 31-32 ;\x0akEND 33-36 end\x0aEOF 36-36 " },
    Rec { t: b"begin; v\xffa; rescue V\xffb => K\xffb; x\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22)]) exc_var=(casgn name=\x22K\xff\x02\x22) body=(send method_name=\x22x\xff\x03\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22 name=18-20 expression=18-20)] expression=18-20) exc_var=(casgn name=\x22K\xff\x02\x22 name=24-26 expression=24-26) body=(send method_name=\x22x\xff\x03\x22 args=[] selector=28-30 expression=28-30) keyword=11-17 assoc=21-23 begin=26-27 expression=11-30)] expression=7-30)] begin=0-5 end=32-35 expression=0-35)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atCONSTANT 18-20 V\xff\x01\x0atASSOC 21-23 =>\x0atCONSTANT 24-26 K\xff\x02\x0atSEMI 26-27 ;\x0atIDENTIFIER 28-30 x\xff\x03\x0atSEMI 30-31 ;\x0akEND 32-35 end\x0aEOF 35-35 " },
    Rec { t: b"begin; v\xffa; rescue => k\xffa; x\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_var=(lvasgn name=\x22k\xff\x01\x22) body=(send method_name=\x22x\xff\x02\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_var=(lvasgn name=\x22k\xff\x01\x22 name=21-23 expression=21-23) body=(send method_name=\x22x\xff\x02\x22 args=[] selector=25-27 expression=25-27) keyword=11-17 assoc=18-20 begin=23-24 expression=11-27)] expression=7-27)] begin=0-5 end=29-32 expression=0-32)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atASSOC 18-20 =>\x0atIDENTIFIER 21-23 k\xff\x01\x0atSEMI 23-24 ;\x0atIDENTIFIER 25-27 x\xff\x02\x0atSEMI 27-28 ;\x0akEND 29-32 end\x0aEOF 32-32 " },
    Rec { t: b"begin; v\xffa; rescue *z\xffa; x\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(splat value=(send method_name=\x22z\xff\x01\x22 args=[]))]) body=(send method_name=\x22x\xff\x02\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_list=(array elements=[(splat value=(send method_name=\x22z\xff\x01\x22 args=[] selector=19-21 expression=19-21) operator=18-19 expression=18-21)] expression=18-21) body=(send method_name=\x22x\xff\x02\x22 args=[] selector=23-25 expression=23-25) keyword=11-17 begin=21-22 expression=11-25)] expression=7-25)] begin=0-5 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSTAR 18-19 *\x0atIDENTIFIER 19-21 z\xff\x01\x0atSEMI 21-22 ;\x0atIDENTIFIER 23-25 x\xff\x02\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"begin; v\xffa; rescue V\xffb, *z\xffa => k\xffa; x\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22) (splat value=(send method_name=\x22z\xff\x02\x22 args=[]))]) exc_var=(lvasgn name=\x22k\xff\x03\x22) body=(send method_name=\x22x\xff\x04\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22 name=18-20 expression=18-20) (splat value=(send method_name=\x22z\xff\x02\x22 args=[] selector=23-25 expression=23-25) operator=22-23 expression=22-25)] expression=18-25) exc_var=(lvasgn name=\x22k\xff\x03\x22 name=29-31 expression=29-31) body=(send method_name=\x22x\xff\x04\x22 args=[] selector=33-35 expression=33-35) keyword=11-17 assoc=26-28 begin=31-32 expression=11-35)] expression=7-35)] begin=0-5 end=37-40 expression=0-40)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atCONSTANT 18-20 V\xff\x01\x0atCOMMA 20-21 ,\x0atSTAR 22-23 *\x0atIDENTIFIER 23-25 z\xff\x02\x0atASSOC 26-28 =>\x0atIDENTIFIER 29-31 k\xff\x03\x0atSEMI 31-32 ;\x0atIDENTIFIER 33-35 x\xff\x04\x0atSEMI 35-36 ;\x0akEND 37-40 end\x0aEOF 40-40 " },
    Rec { t: b"begin; v\xffa; rescue *z\xffa, V\xffb; x\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(splat value=(send method_name=\x22z\xff\x01\x22 args=[])) (const name=\x22V\xff\x02\x22)]) body=(send method_name=\x22x\xff\x03\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_list=(array elements=[(splat value=(send method_name=\x22z\xff\x01\x22 args=[] selector=19-21 expression=19-21) operator=18-19 expression=18-21) (const name=\x22V\xff\x02\x22 name=23-25 expression=23-25)] expression=18-25) body=(send method_name=\x22x\xff\x03\x22 args=[] selector=27-29 expression=27-29) keyword=11-17 begin=25-26 expression=11-29)] expression=7-29)] begin=0-5 end=31-34 expression=0-34)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSTAR 18-19 *\x0atIDENTIFIER 19-21 z\xff\x01\x0atCOMMA 21-22 ,\x0atCONSTANT 23-25 V\xff\x02\x0atSEMI 25-26 ;\x0atIDENTIFIER 27-29 x\xff\x03\x0atSEMI 29-30 ;\x0akEND 31-34 end\x0aEOF 34-34 " },
    Rec { t: b"begin; v\xffa; rescue z\xffa.q\xffa; x\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(send recv=(send method_name=\x22z\xff\x01\x22 args=[]) method_name=\x22q\xff\x02\x22 args=[])]) body=(send method_name=\x22x\xff\x03\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_list=(array elements=[(send recv=(send method_name=\x22z\xff\x01\x22 args=[] selector=18-20 expression=18-20) method_name=\x22q\xff\x02\x22 args=[] dot=20-21 selector=21-23 expression=18-23)] expression=18-23) body=(send method_name=\x22x\xff\x03\x22 args=[] selector=25-27 expression=25-27) keyword=11-17 begin=23-24 expression=11-27)] expression=7-27)] begin=0-5 end=29-32 expression=0-32)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atIDENTIFIER 18-20 z\xff\x01\x0atDOT 20-21 .\x0atIDENTIFIER 21-23 q\xff\x02\x0atSEMI 23-24 ;\x0atIDENTIFIER 25-27 x\xff\x03\x0atSEMI 27-28 ;\x0akEND 29-32 end\x0aEOF 32-32 " },
    Rec { t: b"begin; v\xffa; rescue; \xffd; rescue V\xffb; \xffd; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x01\x22)) (rescue_body exc_list=(array elements=[(const name=\x22V\xff\x02\x22)]) body=(int value=\x22\xff\x03\x22))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x01\x22 expression=19-20) keyword=11-17 begin=17-18 expression=11-20) (rescue_body exc_list=(array elements=[(const name=\x22V\xff\x02\x22 name=29-31 expression=29-31)] expression=29-31) body=(int value=\x22\xff\x03\x22 expression=33-34) keyword=22-28 begin=31-32 expression=22-34)] expression=7-34)] begin=0-5 end=36-39 expression=0-39)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSEMI 17-18 ;\x0atINTEGER 19-20 \xff\x01\x0atSEMI 20-21 ;\x0akRESCUE 22-28 rescue\x0atCONSTANT 29-31 V\xff\x02\x0atSEMI 31-32 ;\x0atINTEGER 33-34 \xff\x03\x0atSEMI 34-35 ;\x0akEND 36-39 end\x0aEOF 39-39 " },
    Rec { t: b"begin; v\xffa; rescue; \xffd; else; \xffd; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x01\x22))] else_=(int value=\x22\xff\x02\x22))])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x01\x22 expression=19-20) keyword=11-17 begin=17-18 expression=11-20)] else_=(int value=\x22\xff\x02\x22 expression=28-29) else=22-26 expression=7-29)] begin=0-5 end=31-34 expression=0-34)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSEMI 17-18 ;\x0atINTEGER 19-20 \xff\x01\x0atSEMI 20-21 ;\x0akELSE 22-26 else\x0atSEMI 26-27 ;\x0atINTEGER 28-29 \xff\x02\x0atSEMI 29-30 ;\x0akEND 31-34 end\x0aEOF 34-34 " },
    Rec { t: b"begin; v\xffa; rescue; \xffd; else; \xffd; ensure; \xffd; end", shape: b"(kw_begin statements=[(ensure body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x01\x22))] else_=(int value=\x22\xff\x02\x22)) ensure=(int value=\x22\xff\x03\x22))])", full: b"(kw_begin statements=[(ensure body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x01\x22 expression=19-20) keyword=11-17 begin=17-18 expression=11-20)] else_=(int value=\x22\xff\x02\x22 expression=28-29) else=22-26 expression=7-29) ensure=(int value=\x22\xff\x03\x22 expression=39-40) keyword=31-37 expression=7-40)] begin=0-5 end=42-45 expression=0-45)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSEMI 17-18 ;\x0atINTEGER 19-20 \xff\x01\x0atSEMI 20-21 ;\x0akELSE 22-26 else\x0atSEMI 26-27 ;\x0atINTEGER 28-29 \xff\x02\x0atSEMI 29-30 ;\x0akENSURE 31-37 ensure\x0atSEMI 37-38 ;\x0atINTEGER 39-40 \xff\x03\x0atSEMI 40-41 ;\x0akEND 42-45 end\x0aEOF 45-45 " },
    Rec { t: b"begin; v\xffa; rescue; \xffd; ensure; \xffd; end", shape: b"(kw_begin statements=[(ensure body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x01\x22))]) ensure=(int value=\x22\xff\x02\x22))])", full: b"(kw_begin statements=[(ensure body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x01\x22 expression=19-20) keyword=11-17 begin=17-18 expression=11-20)] expression=7-20) ensure=(int value=\x22\xff\x02\x22 expression=30-31) keyword=22-28 expression=7-31)] begin=0-5 end=33-36 expression=0-36)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSEMI 17-18 ;\x0atINTEGER 19-20 \xff\x01\x0atSEMI 20-21 ;\x0akENSURE 22-28 ensure\x0atSEMI 28-29 ;\x0atINTEGER 30-31 \xff\x02\x0atSEMI 31-32 ;\x0akEND 33-36 end\x0aEOF 36-36 " },
    Rec { t: b"begin; v\xffa; ensure; x\xffa; end", shape: b"(kw_begin statements=[(ensure body=(send method_name=\x22v\xff\x00\x22 args=[]) ensure=(send method_name=\x22x\xff\x01\x22 args=[]))])", full: b"(kw_begin statements=[(ensure body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) ensure=(send method_name=\x22x\xff\x01\x22 args=[] selector=19-21 expression=19-21) keyword=11-17 expression=7-21)] begin=0-5 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akENSURE 11-17 ensure\x0atSEMI 17-18 ;\x0atIDENTIFIER 19-21 x\xff\x01\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"begin; ensure; end", shape: b"(kw_begin statements=[(ensure)])", full: b"(kw_begin statements=[(ensure keyword=7-13 expression=7-13)] begin=0-5 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akENSURE 7-13 ensure\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"begin; rescue; end", shape: b"(kw_begin statements=[(rescue rescue_bodies=[(rescue_body)])])", full: b"(kw_begin statements=[(rescue rescue_bodies=[(rescue_body keyword=7-13 begin=13-14 expression=7-14)] expression=7-14)] begin=0-5 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0akRESCUE 7-13 rescue\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"begin; v\xffa; ensure; end", shape: b"(kw_begin statements=[(ensure body=(send method_name=\x22v\xff\x00\x22 args=[]))])", full: b"(kw_begin statements=[(ensure body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) keyword=11-17 expression=7-17)] begin=0-5 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akENSURE 11-17 ensure\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"begin; v\xffa; rescue; else; ensure; end", shape: b"(kw_begin statements=[(ensure body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body)]))])", full: b"(kw_begin statements=[(ensure body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body keyword=11-17 begin=17-18 expression=11-18)] else=19-23 expression=7-23) keyword=25-31 expression=7-31)] begin=0-5 end=33-36 expression=0-36)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSEMI 17-18 ;\x0akELSE 19-23 else\x0atSEMI 23-24 ;\x0akENSURE 25-31 ensure\x0atSEMI 31-32 ;\x0akEND 33-36 end\x0aEOF 36-36 " },
    Rec { t: b"begin; v\xffa; end.x\xffa", shape: b"(send recv=(kw_begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])]) method_name=\x22x\xff\x01\x22 args=[])", full: b"(send recv=(kw_begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9)] begin=0-5 end=11-14 expression=0-14) method_name=\x22x\xff\x01\x22 args=[] dot=14-15 selector=15-17 expression=0-17)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0atDOT 14-15 .\x0atIDENTIFIER 15-17 x\xff\x01\x0aEOF 17-17 " },
    Rec { t: b"begin; v\xffa; end rescue x\xffa", shape: b"(rescue body=(kw_begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])]) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x01\x22 args=[]))])", full: b"(rescue body=(kw_begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9)] begin=0-5 end=11-14 expression=0-14) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x01\x22 args=[] selector=22-24 expression=22-24) keyword=15-21 expression=15-24)] expression=0-24)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0akRESCUE_MOD 15-21 rescue\x0atIDENTIFIER 22-24 x\xff\x01\x0aEOF 24-24 " },
    Rec { t: b"begin; v\xffa; retry; rescue; retry; end", shape: b"(kw_begin statements=[(rescue body=(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[]) (retry)]) rescue_bodies=[(rescue_body body=(retry))])])", full: b"(kw_begin statements=[(rescue body=(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) (retry expression=11-16)] expression=7-16) rescue_bodies=[(rescue_body body=(retry expression=26-31) keyword=18-24 begin=24-25 expression=18-31)] expression=7-31)] begin=0-5 end=33-36 expression=0-36)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRETRY 11-16 retry\x0atSEMI 16-17 ;\x0akRESCUE 18-24 rescue\x0atSEMI 24-25 ;\x0akRETRY 26-31 retry\x0atSEMI 31-32 ;\x0akEND 33-36 end\x0aEOF 36-36 " },
    Rec { t: b"v\xffa = begin; \xffd; rescue; \xffd; end", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(kw_begin statements=[(rescue body=(int value=\x22\xff\x01\x22) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x02\x22))])]))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(kw_begin statements=[(rescue body=(int value=\x22\xff\x01\x22 expression=12-13) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x02\x22 expression=23-24) keyword=15-21 begin=21-22 expression=15-24)] expression=12-24)] begin=5-10 end=26-29 expression=5-29) name=0-2 operator=3-4 expression=0-29)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0akBEGIN 5-10 begin\x0atSEMI 10-11 ;\x0atINTEGER 12-13 \xff\x01\x0atSEMI 13-14 ;\x0akRESCUE 15-21 rescue\x0atSEMI 21-22 ;\x0atINTEGER 23-24 \xff\x02\x0atSEMI 24-25 ;\x0akEND 26-29 end\x0aEOF 29-29 " },
    Rec { t: b"if v\xffa then x\xffa; z\xffa else q\xffa; k\xffa end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[]) (send method_name=\x22z\xff\x02\x22 args=[])]) if_false=(begin statements=[(send method_name=\x22q\xff\x03\x22 args=[]) (send method_name=\x22k\xff\x04\x22 args=[])]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13) (send method_name=\x22z\xff\x02\x22 args=[] selector=15-17 expression=15-17)] expression=11-17) if_false=(begin statements=[(send method_name=\x22q\xff\x03\x22 args=[] selector=23-25 expression=23-25) (send method_name=\x22k\xff\x04\x22 args=[] selector=27-29 expression=27-29)] expression=23-29) keyword=0-2 begin=6-10 else=18-22 end=30-33 expression=0-33)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0akTHEN 6-10 then\x0atIDENTIFIER 11-13 x\xff\x01\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 z\xff\x02\x0akELSE 18-22 else\x0atIDENTIFIER 23-25 q\xff\x03\x0atSEMI 25-26 ;\x0atIDENTIFIER 27-29 k\xff\x04\x0akEND 30-33 end\x0aEOF 33-33 " },
    Rec { t: b"if v\xffa\x0a  x\xffa\x0a  z\xffa\x0aelse\x0a  q\xffa\x0a  k\xffa\x0aend", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[]) (send method_name=\x22z\xff\x02\x22 args=[])]) if_false=(begin statements=[(send method_name=\x22q\xff\x03\x22 args=[]) (send method_name=\x22k\xff\x04\x22 args=[])]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[] selector=8-10 expression=8-10) (send method_name=\x22z\xff\x02\x22 args=[] selector=13-15 expression=13-15)] expression=8-15) if_false=(begin statements=[(send method_name=\x22q\xff\x03\x22 args=[] selector=23-25 expression=23-25) (send method_name=\x22k\xff\x04\x22 args=[] selector=28-30 expression=28-30)] expression=23-30) keyword=0-2 begin=5-6 else=16-20 end=31-34 expression=0-34)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atNL 5-6 \x0a\x0atIDENTIFIER 8-10 x\xff\x01\x0atNL 10-11 \x0a\x0atIDENTIFIER 13-15 z\xff\x02\x0atNL 15-16 \x0a\x0akELSE 16-20 else\x0atIDENTIFIER 23-25 q\xff\x03\x0atNL 25-26 \x0a\x0atIDENTIFIER 28-30 k\xff\x04\x0atNL 30-31 \x0a\x0akEND 31-34 end\x0aEOF 34-34 " },
    Rec { t: b"while v\xffa do break; next; redo end", shape: b"(while cond=(send method_name=\x22v\xff\x00\x22 args=[]) body=(begin statements=[(break args=[]) (next args=[]) (redo)]))", full: b"(while cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) body=(begin statements=[(break args=[] keyword=12-17 expression=12-17) (next args=[] keyword=19-23 expression=19-23) (redo expression=25-29)] expression=12-29) keyword=0-5 begin=9-11 end=30-33 expression=0-33)", diag: b"", toks: b"\x0akWHILE 0-5 while\x0atIDENTIFIER 6-8 v\xff\x00\x0akDO_COND 9-11 do\x0akBREAK 12-17 break\x0atSEMI 17-18 ;\x0akNEXT 19-23 next\x0atSEMI 23-24 ;\x0akREDO 25-29 redo\x0akEND 30-33 end\x0aEOF 33-33 " },
    Rec { t: b"if v\xffa; if x\xffa; \xffd; end; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(if cond=(send method_name=\x22x\xff\x01\x22 args=[]) if_true=(int value=\x22\xff\x02\x22)))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(if cond=(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12) if_true=(int value=\x22\xff\x02\x22 expression=14-15) keyword=7-9 begin=12-13 end=17-20 expression=7-20) keyword=0-2 begin=5-6 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0akIF 7-9 if\x0atIDENTIFIER 10-12 x\xff\x01\x0atSEMI 12-13 ;\x0atINTEGER 14-15 \xff\x02\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"v\xffa if (x\xffa; z\xffa)", shape: b"(if_mod cond=(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[]) (send method_name=\x22z\xff\x02\x22 args=[])]) if_true=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(if_mod cond=(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9) (send method_name=\x22z\xff\x02\x22 args=[] selector=11-13 expression=11-13)] begin=6-7 end=13-14 expression=6-14) if_true=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) keyword=3-5 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akIF_MOD 3-5 if\x0atLPAREN 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 z\xff\x02\x0atRPAREN 13-14 )\x0aEOF 14-14 " },
    Rec { t: b"BEGIN { }", shape: b"(preexe)", full: b"(preexe keyword=0-5 begin=6-7 end=8-9 expression=0-9)", diag: b"", toks: b"\x0aklBEGIN 0-5 BEGIN\x0atLCURLY 6-7 {\x0atRCURLY 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"BEGIN { v\xffa; x\xffa }; z\xffa", shape: b"(begin statements=[(preexe body=(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[]) (send method_name=\x22x\xff\x01\x22 args=[])])) (send method_name=\x22z\xff\x02\x22 args=[])])", full: b"(begin statements=[(preexe body=(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=8-10 expression=8-10) (send method_name=\x22x\xff\x01\x22 args=[] selector=12-14 expression=12-14)] expression=8-14) keyword=0-5 begin=6-7 end=15-16 expression=0-16) (send method_name=\x22z\xff\x02\x22 args=[] selector=18-20 expression=18-20)] expression=0-20)", diag: b"", toks: b"\x0aklBEGIN 0-5 BEGIN\x0atLCURLY 6-7 {\x0atIDENTIFIER 8-10 v\xff\x00\x0atSEMI 10-11 ;\x0atIDENTIFIER 12-14 x\xff\x01\x0atRCURLY 15-16 }\x0atSEMI 16-17 ;\x0atIDENTIFIER 18-20 z\xff\x02\x0aEOF 20-20 " },
    Rec { t: b"__END__\x0a\xfft\xfft", shape: b"none", full: b"none", diag: b"", toks: b"\x0aEOF 0-1 _" },
];
pub static PATTERN: &[Rec] = &[
    Rec { t: b"case v\xffa; in x\xffa; \xffd; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(match_var name=\x22x\xff\x01\x22) body=(int value=\x22\xff\x02\x22))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(match_var name=\x22x\xff\x01\x22 name=12-14 expression=12-14) body=(int value=\x22\xff\x02\x22 expression=16-17) keyword=9-11 begin=14-15 expression=9-17)] keyword=0-4 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atIDENTIFIER 12-14 x\xff\x01\x0atSEMI 14-15 ;\x0atINTEGER 16-17 \xff\x02\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"case v\xffa; in x\xffa then \xffd; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(match_var name=\x22x\xff\x01\x22) body=(int value=\x22\xff\x02\x22))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(match_var name=\x22x\xff\x01\x22 name=12-14 expression=12-14) body=(int value=\x22\xff\x02\x22 expression=20-21) keyword=9-11 begin=15-19 expression=9-21)] keyword=0-4 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atIDENTIFIER 12-14 x\xff\x01\x0akTHEN 15-19 then\x0atINTEGER 20-21 \xff\x02\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"case v\xffa; in x\xffa if \xffd; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(match_var name=\x22x\xff\x01\x22) guard=(if_guard cond=(int value=\x22\xff\x02\x22)))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(match_var name=\x22x\xff\x01\x22 name=12-14 expression=12-14) guard=(if_guard cond=(int value=\x22\xff\x02\x22 expression=18-19) keyword=15-17 expression=15-19) keyword=9-11 begin=19-20 expression=9-19)] keyword=0-4 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atIDENTIFIER 12-14 x\xff\x01\x0akIF_MOD 15-17 if\x0atINTEGER 18-19 \xff\x02\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"case v\xffa; in x\xffa unless \xffd; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(match_var name=\x22x\xff\x01\x22) guard=(unless_guard cond=(int value=\x22\xff\x02\x22)))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(match_var name=\x22x\xff\x01\x22 name=12-14 expression=12-14) guard=(unless_guard cond=(int value=\x22\xff\x02\x22 expression=22-23) keyword=15-21 expression=15-23) keyword=9-11 begin=23-24 expression=9-23)] keyword=0-4 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atIDENTIFIER 12-14 x\xff\x01\x0akUNLESS_MOD 15-21 unless\x0atINTEGER 22-23 \xff\x02\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"case v\xffa; in x\xffa if z\xffa then \xffd; else; \xffd; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(match_var name=\x22x\xff\x01\x22) guard=(if_guard cond=(send method_name=\x22z\xff\x02\x22 args=[])) body=(int value=\x22\xff\x03\x22))] else_body=(int value=\x22\xff\x04\x22))", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(match_var name=\x22x\xff\x01\x22 name=12-14 expression=12-14) guard=(if_guard cond=(send method_name=\x22z\xff\x02\x22 args=[] selector=18-20 expression=18-20) keyword=15-17 expression=15-20) body=(int value=\x22\xff\x03\x22 expression=26-27) keyword=9-11 begin=21-25 expression=9-27)] else_body=(int value=\x22\xff\x04\x22 expression=35-36) keyword=0-4 else=29-33 end=38-41 expression=0-41)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atIDENTIFIER 12-14 x\xff\x01\x0akIF_MOD 15-17 if\x0atIDENTIFIER 18-20 z\xff\x02\x0akTHEN 21-25 then\x0atINTEGER 26-27 \xff\x03\x0atSEMI 27-28 ;\x0akELSE 29-33 else\x0atSEMI 33-34 ;\x0atINTEGER 35-36 \xff\x04\x0atSEMI 36-37 ;\x0akEND 38-41 end\x0aEOF 41-41 " },
    Rec { t: b"case v\xffa; in \xffd; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22 expression=12-13) keyword=9-11 begin=13-14 expression=9-13)] keyword=0-4 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atINTEGER 12-13 \xff\x01\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"case v\xffa; in -\xffd; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(int value=\x22-\xff\x01\x22))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(int value=\x22-\xff\x01\x22 operator=12-13 expression=12-14) keyword=9-11 begin=14-15 expression=9-14)] keyword=0-4 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atUMINUS_NUM 12-13 -\x0atINTEGER 13-14 \xff\x01\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"case v\xffa; in \xffd.\xffd; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(float value=\x22\xff\x01.\xff\x02\x22))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(float value=\x22\xff\x01.\xff\x02\x22 expression=12-15) keyword=9-11 begin=15-16 expression=9-15)] keyword=0-4 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atFLOAT 12-15 \xff\x01.\xff\x02\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"case v\xffa; in nil; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(nil))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(nil expression=12-15) keyword=9-11 begin=15-16 expression=9-15)] keyword=0-4 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0akNIL 12-15 nil\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"case v\xffa; in self; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(self_))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(self_ expression=12-16) keyword=9-11 begin=16-17 expression=9-16)] keyword=0-4 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0akSELF 12-16 self\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"case v\xffa; in '\xfft'; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(str value=\x22\xff\x01\x22))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(str value=\x22\xff\x01\x22 begin=12-13 end=14-15 expression=12-15) keyword=9-11 begin=15-16 expression=9-15)] keyword=0-4 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atSTRING_BEG 12-13 '\x0atSTRING_CONTENT 13-14 \xff\x01\x0atSTRING_END 14-15 '\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"case v\xffa; in \x22\xfft#{v\xfe\x00}\x22; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(dstr parts=[(str value=\x22\xff\x01\x22) (begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])])]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(dstr parts=[(str value=\x22\xff\x01\x22 expression=13-14) (begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=16-18 expression=16-18)] begin=14-16 end=18-19 expression=14-19)] begin=12-13 end=19-20 expression=12-20) keyword=9-11 begin=20-21 expression=9-20)] keyword=0-4 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atSTRING_BEG 12-13 \x22\x0atSTRING_CONTENT 13-14 \xff\x01\x0atSTRING_DBEG 14-16 #{\x0atIDENTIFIER 16-18 v\xff\x00\x0atSTRING_DEND 18-19 }\x0atSTRING_END 19-20 \x22\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"case v\xffa; in :x\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(sym name=\x22x\xff\x01\x22))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(sym name=\x22x\xff\x01\x22 begin=12-13 expression=12-15) keyword=9-11 begin=15-16 expression=9-15)] keyword=0-4 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atSYMBEG 12-13 :\x0atIDENTIFIER 13-15 x\xff\x01\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"case v\xffa; in /\xfft/; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(regexp parts=[(str value=\x22\xff\x01\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(regexp parts=[(str value=\x22\xff\x01\x22 expression=13-14)] begin=12-13 end=14-15 expression=12-15) keyword=9-11 begin=15-16 expression=9-15)] keyword=0-4 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atREGEXP_BEG 12-13 /\x0atSTRING_CONTENT 13-14 \xff\x01\x0atREGEXP_END 14-15 /\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"case v\xffa; in %w[\xfft]; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array elements=[(str value=\x22\xff\x01\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array elements=[(str value=\x22\xff\x01\x22 expression=15-16)] begin=12-15 end=16-17 expression=12-17) keyword=9-11 begin=17-18 expression=9-17)] keyword=0-4 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atQWORDS_BEG 12-15 %w[\x0atSPACE 15-15 \x0atSTRING_CONTENT 15-16 \xff\x01\x0atSPACE 16-16 \x0atSTRING_END 16-17 ]\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"case v\xffa; in V\xffb; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(const name=\x22V\xff\x01\x22))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(const name=\x22V\xff\x01\x22 name=12-14 expression=12-14) keyword=9-11 begin=14-15 expression=9-14)] keyword=0-4 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atCONSTANT 12-14 V\xff\x01\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"case v\xffa; in ::V\xffb; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(const scope=(cbase) name=\x22V\xff\x01\x22))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(const scope=(cbase expression=12-14) name=\x22V\xff\x01\x22 double_colon=12-14 name=14-16 expression=12-16) keyword=9-11 begin=16-17 expression=9-16)] keyword=0-4 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atCOLON3 12-14 ::\x0atCONSTANT 14-16 V\xff\x01\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"case v\xffa; in V\xffb::W\xffb; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(const scope=(const name=\x22V\xff\x01\x22) name=\x22W\xff\x02\x22))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(const scope=(const name=\x22V\xff\x01\x22 name=12-14 expression=12-14) name=\x22W\xff\x02\x22 double_colon=14-16 name=16-18 expression=12-18) keyword=9-11 begin=18-19 expression=9-18)] keyword=0-4 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atCONSTANT 12-14 V\xff\x01\x0atCOLON2 14-16 ::\x0atCONSTANT 16-18 W\xff\x02\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"case v\xffa; in ->(x\xffa) { \xffd }; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x01\x22)]) body=(int value=\x22\xff\x02\x22)))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(block call=(lambda expression=12-14) args=(args args=[(arg name=\x22x\xff\x01\x22 expression=15-17)] expression=14-18 begin=14-15 end=17-18) body=(int value=\x22\xff\x02\x22 expression=21-22) begin=19-20 end=23-24 expression=12-24) keyword=9-11 begin=24-25 expression=9-24)] keyword=0-4 end=26-29 expression=0-29)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLAMBDA 12-14 ->\x0atLPAREN2 14-15 (\x0atIDENTIFIER 15-17 x\xff\x01\x0atRPAREN 17-18 )\x0atLAMBEG 19-20 {\x0atINTEGER 21-22 \xff\x02\x0atRCURLY 23-24 }\x0atSEMI 24-25 ;\x0akEND 26-29 end\x0aEOF 29-29 " },
    Rec { t: b"case v\xffa; in \xffd..\xffd; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(irange left=(int value=\x22\xff\x01\x22) right=(int value=\x22\xff\x02\x22)))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(irange left=(int value=\x22\xff\x01\x22 expression=12-13) right=(int value=\x22\xff\x02\x22 expression=15-16) operator=13-15 expression=12-16) keyword=9-11 begin=16-17 expression=9-16)] keyword=0-4 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atINTEGER 12-13 \xff\x01\x0atDOT2 13-15 ..\x0atINTEGER 15-16 \xff\x02\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"case v\xffa; in \xffd..; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(irange left=(int value=\x22\xff\x01\x22)))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(irange left=(int value=\x22\xff\x01\x22 expression=12-13) operator=13-15 expression=12-15) keyword=9-11 begin=15-16 expression=9-15)] keyword=0-4 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atINTEGER 12-13 \xff\x01\x0atDOT2 13-15 ..\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"case v\xffa; in ..\xffd; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(irange right=(int value=\x22\xff\x01\x22)))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(irange right=(int value=\x22\xff\x01\x22 expression=14-15) operator=12-14 expression=12-15) keyword=9-11 begin=15-16 expression=9-15)] keyword=0-4 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atBDOT2 12-14 ..\x0atINTEGER 14-15 \xff\x01\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"case v\xffa; in \xffd...\xffd; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(erange left=(int value=\x22\xff\x01\x22) right=(int value=\x22\xff\x02\x22)))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(erange left=(int value=\x22\xff\x01\x22 expression=12-13) right=(int value=\x22\xff\x02\x22 expression=16-17) operator=13-16 expression=12-17) keyword=9-11 begin=17-18 expression=9-17)] keyword=0-4 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atINTEGER 12-13 \xff\x01\x0atDOT3 13-16 ...\x0atINTEGER 16-17 \xff\x02\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"case v\xffa; in '\xfft'..'\xfft'; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(irange left=(str value=\x22\xff\x01\x22) right=(str value=\x22\xff\x02\x22)))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(irange left=(str value=\x22\xff\x01\x22 begin=12-13 end=14-15 expression=12-15) right=(str value=\x22\xff\x02\x22 begin=17-18 end=19-20 expression=17-20) operator=15-17 expression=12-20) keyword=9-11 begin=20-21 expression=9-20)] keyword=0-4 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atSTRING_BEG 12-13 '\x0atSTRING_CONTENT 13-14 \xff\x01\x0atSTRING_END 14-15 '\x0atDOT2 15-17 ..\x0atSTRING_BEG 17-18 '\x0atSTRING_CONTENT 18-19 \xff\x02\x0atSTRING_END 19-20 '\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"case v\xffa; in \xffd | \xffd; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(match_alt lhs=(int value=\x22\xff\x01\x22) rhs=(int value=\x22\xff\x02\x22)))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(match_alt lhs=(int value=\x22\xff\x01\x22 expression=12-13) rhs=(int value=\x22\xff\x02\x22 expression=16-17) operator=14-15 expression=12-17) keyword=9-11 begin=17-18 expression=9-17)] keyword=0-4 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atINTEGER 12-13 \xff\x01\x0atPIPE 14-15 |\x0atINTEGER 16-17 \xff\x02\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"case v\xffa; in \xffd | \xffd | x\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(match_alt lhs=(match_alt lhs=(int value=\x22\xff\x01\x22) rhs=(int value=\x22\xff\x02\x22)) rhs=(match_var name=\x22x\xff\x03\x22)))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(match_alt lhs=(match_alt lhs=(int value=\x22\xff\x01\x22 expression=12-13) rhs=(int value=\x22\xff\x02\x22 expression=16-17) operator=14-15 expression=12-17) rhs=(match_var name=\x22x\xff\x03\x22 name=20-22 expression=20-22) operator=18-19 expression=12-22) keyword=9-11 begin=22-23 expression=9-22)] keyword=0-4 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atINTEGER 12-13 \xff\x01\x0atPIPE 14-15 |\x0atINTEGER 16-17 \xff\x02\x0atPIPE 18-19 |\x0atIDENTIFIER 20-22 x\xff\x03\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"case v\xffa; in V\xffb => x\xffa; \xffd; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(match_as value=(const name=\x22V\xff\x01\x22) as_=(match_var name=\x22x\xff\x02\x22)) body=(int value=\x22\xff\x03\x22))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(match_as value=(const name=\x22V\xff\x01\x22 name=12-14 expression=12-14) as_=(match_var name=\x22x\xff\x02\x22 name=18-20 expression=18-20) operator=15-17 expression=12-20) body=(int value=\x22\xff\x03\x22 expression=22-23) keyword=9-11 begin=20-21 expression=9-23)] keyword=0-4 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atCONSTANT 12-14 V\xff\x01\x0atASSOC 15-17 =>\x0atIDENTIFIER 18-20 x\xff\x02\x0atSEMI 20-21 ;\x0atINTEGER 22-23 \xff\x03\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"case v\xffa; in \xffd | \xffd => x\xffa; \xffd; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(match_as value=(match_alt lhs=(int value=\x22\xff\x01\x22) rhs=(int value=\x22\xff\x02\x22)) as_=(match_var name=\x22x\xff\x03\x22)) body=(int value=\x22\xff\x04\x22))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(match_as value=(match_alt lhs=(int value=\x22\xff\x01\x22 expression=12-13) rhs=(int value=\x22\xff\x02\x22 expression=16-17) operator=14-15 expression=12-17) as_=(match_var name=\x22x\xff\x03\x22 name=21-23 expression=21-23) operator=18-20 expression=12-23) body=(int value=\x22\xff\x04\x22 expression=25-26) keyword=9-11 begin=23-24 expression=9-26)] keyword=0-4 end=28-31 expression=0-31)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atINTEGER 12-13 \xff\x01\x0atPIPE 14-15 |\x0atINTEGER 16-17 \xff\x02\x0atASSOC 18-20 =>\x0atIDENTIFIER 21-23 x\xff\x03\x0atSEMI 23-24 ;\x0atINTEGER 25-26 \xff\x04\x0atSEMI 26-27 ;\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"case v\xffa; in (x\xffa); end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(begin statements=[(match_var name=\x22x\xff\x01\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(begin statements=[(match_var name=\x22x\xff\x01\x22 name=13-15 expression=13-15)] begin=12-13 end=15-16 expression=12-16) keyword=9-11 begin=16-17 expression=9-16)] keyword=0-4 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLPAREN 12-13 (\x0atIDENTIFIER 13-15 x\xff\x01\x0atRPAREN 15-16 )\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"case v\xffa; in (\xffd | \xffd); end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(begin statements=[(match_alt lhs=(int value=\x22\xff\x01\x22) rhs=(int value=\x22\xff\x02\x22))]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(begin statements=[(match_alt lhs=(int value=\x22\xff\x01\x22 expression=13-14) rhs=(int value=\x22\xff\x02\x22 expression=17-18) operator=15-16 expression=13-18)] begin=12-13 end=18-19 expression=12-19) keyword=9-11 begin=19-20 expression=9-19)] keyword=0-4 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLPAREN 12-13 (\x0atINTEGER 13-14 \xff\x01\x0atPIPE 15-16 |\x0atINTEGER 17-18 \xff\x02\x0atRPAREN 18-19 )\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"case v\xffa; in _; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(match_var name=\x22_\x22))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(match_var name=\x22_\x22 name=12-13 expression=12-13) keyword=9-11 begin=13-14 expression=9-13)] keyword=0-4 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atIDENTIFIER 12-13 _\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"case v\xffa; in _x\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(match_var name=\x22_x\xff\x01\x22))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(match_var name=\x22_x\xff\x01\x22 name=12-15 expression=12-15) keyword=9-11 begin=15-16 expression=9-15)] keyword=0-4 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atIDENTIFIER 12-15 _x\xff\x01\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"case v\xffa; in ^x\xffa; end", shape: b"none", full: b"none", diag: b"\x0aE 13-15 x\xff\x01: no such local variable", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atCARET 12-13 ^\x0atIDENTIFIER 13-15 x\xff\x01\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"case v\xffa; in ^@x\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(pin var=(ivar name=\x22@x\xff\x01\x22)))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(pin var=(ivar name=\x22@x\xff\x01\x22 expression=13-16) selector=12-13 expression=12-16) keyword=9-11 begin=16-17 expression=9-16)] keyword=0-4 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atCARET 12-13 ^\x0atIVAR 13-16 @x\xff\x01\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"case v\xffa; in ^@@x\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(pin var=(cvar name=\x22@@x\xff\x01\x22)))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(pin var=(cvar name=\x22@@x\xff\x01\x22 expression=13-17) selector=12-13 expression=12-17) keyword=9-11 begin=17-18 expression=9-17)] keyword=0-4 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atCARET 12-13 ^\x0atCVAR 13-17 @@x\xff\x01\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"case v\xffa; in ^$x\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(pin var=(gvar name=\x22$x\xff\x01\x22)))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(pin var=(gvar name=\x22$x\xff\x01\x22 expression=13-16) selector=12-13 expression=12-16) keyword=9-11 begin=16-17 expression=9-16)] keyword=0-4 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atCARET 12-13 ^\x0atGVAR 13-16 $x\xff\x01\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"case v\xffa; in ^(x\xffa + \xffd); end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(pin var=(begin statements=[(send recv=(send method_name=\x22x\xff\x01\x22 args=[]) method_name=\x22+\x22 args=[(int value=\x22\xff\x02\x22)])])))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(pin var=(begin statements=[(send recv=(send method_name=\x22x\xff\x01\x22 args=[] selector=14-16 expression=14-16) method_name=\x22+\x22 args=[(int value=\x22\xff\x02\x22 expression=19-20)] selector=17-18 expression=14-20)] begin=13-14 end=20-21 expression=13-21) selector=12-13 expression=12-21) keyword=9-11 begin=21-22 expression=9-21)] keyword=0-4 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atCARET 12-13 ^\x0atLPAREN 13-14 (\x0atIDENTIFIER 14-16 x\xff\x01\x0atPLUS 17-18 +\x0atINTEGER 19-20 \xff\x02\x0atRPAREN 20-21 )\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"x\xffa = \xffd; case v\xffa; in ^x\xfe\x00; end", shape: b"(begin statements=[(lvasgn name=\x22x\xff\x00\x22 value=(int value=\x22\xff\x01\x22)) (case_match expr=(send method_name=\x22v\xff\x02\x22 args=[]) in_bodies=[(in_pattern pattern=(pin var=(lvar name=\x22x\xff\x00\x22)))])])", full: b"(begin statements=[(lvasgn name=\x22x\xff\x00\x22 value=(int value=\x22\xff\x01\x22 expression=5-6) name=0-2 operator=3-4 expression=0-6) (case_match expr=(send method_name=\x22v\xff\x02\x22 args=[] selector=13-15 expression=13-15) in_bodies=[(in_pattern pattern=(pin var=(lvar name=\x22x\xff\x00\x22 expression=21-23) selector=20-21 expression=20-23) keyword=17-19 begin=23-24 expression=17-23)] keyword=8-12 end=25-28 expression=8-28)] expression=0-28)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 x\xff\x00\x0atEQL 3-4 =\x0atINTEGER 5-6 \xff\x01\x0atSEMI 6-7 ;\x0akCASE 8-12 case\x0atIDENTIFIER 13-15 v\xff\x02\x0atSEMI 15-16 ;\x0akIN 17-19 in\x0atCARET 20-21 ^\x0atIDENTIFIER 21-23 x\xff\x00\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"case v\xffa; in []; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern elements=[]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern elements=[] begin=12-13 end=13-14 expression=12-14) keyword=9-11 begin=14-15 expression=9-14)] keyword=0-4 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACK 12-13 [\x0atRBRACK 13-14 ]\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"case v\xffa; in [x\xffa]; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=13-15 expression=13-15)] begin=12-13 end=15-16 expression=12-16) keyword=9-11 begin=16-17 expression=9-16)] keyword=0-4 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACK 12-13 [\x0atIDENTIFIER 13-15 x\xff\x01\x0atRBRACK 15-16 ]\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"case v\xffa; in [x\xffa,]; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern_with_tail elements=[(match_var name=\x22x\xff\x01\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern_with_tail elements=[(match_var name=\x22x\xff\x01\x22 name=13-15 expression=13-15)] begin=12-13 end=16-17 expression=12-17) keyword=9-11 begin=17-18 expression=9-17)] keyword=0-4 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACK 12-13 [\x0atIDENTIFIER 13-15 x\xff\x01\x0atCOMMA 15-16 ,\x0atRBRACK 16-17 ]\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"case v\xffa; in [x\xffa, z\xffa]; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22) (match_var name=\x22z\xff\x02\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=13-15 expression=13-15) (match_var name=\x22z\xff\x02\x22 name=17-19 expression=17-19)] begin=12-13 end=19-20 expression=12-20) keyword=9-11 begin=20-21 expression=9-20)] keyword=0-4 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACK 12-13 [\x0atIDENTIFIER 13-15 x\xff\x01\x0atCOMMA 15-16 ,\x0atIDENTIFIER 17-19 z\xff\x02\x0atRBRACK 19-20 ]\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"case v\xffa; in [x\xffa, *z\xffa]; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22) (match_rest name=(match_var name=\x22z\xff\x02\x22))]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=13-15 expression=13-15) (match_rest name=(match_var name=\x22z\xff\x02\x22 name=18-20 expression=18-20) operator=17-18 expression=17-20)] begin=12-13 end=20-21 expression=12-21) keyword=9-11 begin=21-22 expression=9-21)] keyword=0-4 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACK 12-13 [\x0atIDENTIFIER 13-15 x\xff\x01\x0atCOMMA 15-16 ,\x0atSTAR 17-18 *\x0atIDENTIFIER 18-20 z\xff\x02\x0atRBRACK 20-21 ]\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"case v\xffa; in [x\xffa, *]; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22) (match_rest)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=13-15 expression=13-15) (match_rest operator=17-18 expression=17-18)] begin=12-13 end=18-19 expression=12-19) keyword=9-11 begin=19-20 expression=9-19)] keyword=0-4 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACK 12-13 [\x0atIDENTIFIER 13-15 x\xff\x01\x0atCOMMA 15-16 ,\x0atSTAR 17-18 *\x0atRBRACK 18-19 ]\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"case v\xffa; in [*x\xffa]; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_rest name=(match_var name=\x22x\xff\x01\x22))]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_rest name=(match_var name=\x22x\xff\x01\x22 name=14-16 expression=14-16) operator=13-14 expression=13-16)] begin=12-13 end=16-17 expression=12-17) keyword=9-11 begin=17-18 expression=9-17)] keyword=0-4 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACK 12-13 [\x0atSTAR 13-14 *\x0atIDENTIFIER 14-16 x\xff\x01\x0atRBRACK 16-17 ]\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"case v\xffa; in [*, x\xffa]; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_rest) (match_var name=\x22x\xff\x01\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_rest operator=13-14 expression=13-14) (match_var name=\x22x\xff\x01\x22 name=16-18 expression=16-18)] begin=12-13 end=18-19 expression=12-19) keyword=9-11 begin=19-20 expression=9-19)] keyword=0-4 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACK 12-13 [\x0atSTAR 13-14 *\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-18 x\xff\x01\x0atRBRACK 18-19 ]\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"case v\xffa; in [*x\xffa, z\xffa]; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_rest name=(match_var name=\x22x\xff\x01\x22)) (match_var name=\x22z\xff\x02\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_rest name=(match_var name=\x22x\xff\x01\x22 name=14-16 expression=14-16) operator=13-14 expression=13-16) (match_var name=\x22z\xff\x02\x22 name=18-20 expression=18-20)] begin=12-13 end=20-21 expression=12-21) keyword=9-11 begin=21-22 expression=9-21)] keyword=0-4 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACK 12-13 [\x0atSTAR 13-14 *\x0atIDENTIFIER 14-16 x\xff\x01\x0atCOMMA 16-17 ,\x0atIDENTIFIER 18-20 z\xff\x02\x0atRBRACK 20-21 ]\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"case v\xffa; in [x\xffa, *z\xffa, q\xffa]; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22) (match_rest name=(match_var name=\x22z\xff\x02\x22)) (match_var name=\x22q\xff\x03\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=13-15 expression=13-15) (match_rest name=(match_var name=\x22z\xff\x02\x22 name=18-20 expression=18-20) operator=17-18 expression=17-20) (match_var name=\x22q\xff\x03\x22 name=22-24 expression=22-24)] begin=12-13 end=24-25 expression=12-25) keyword=9-11 begin=25-26 expression=9-25)] keyword=0-4 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACK 12-13 [\x0atIDENTIFIER 13-15 x\xff\x01\x0atCOMMA 15-16 ,\x0atSTAR 17-18 *\x0atIDENTIFIER 18-20 z\xff\x02\x0atCOMMA 20-21 ,\x0atIDENTIFIER 22-24 q\xff\x03\x0atRBRACK 24-25 ]\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"case v\xffa; in [x\xffa, [z\xffa, *q\xffa]]; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22) (array_pattern elements=[(match_var name=\x22z\xff\x02\x22) (match_rest name=(match_var name=\x22q\xff\x03\x22))])]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=13-15 expression=13-15) (array_pattern elements=[(match_var name=\x22z\xff\x02\x22 name=18-20 expression=18-20) (match_rest name=(match_var name=\x22q\xff\x03\x22 name=23-25 expression=23-25) operator=22-23 expression=22-25)] begin=17-18 end=25-26 expression=17-26)] begin=12-13 end=26-27 expression=12-27) keyword=9-11 begin=27-28 expression=9-27)] keyword=0-4 end=29-32 expression=0-32)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACK 12-13 [\x0atIDENTIFIER 13-15 x\xff\x01\x0atCOMMA 15-16 ,\x0atLBRACK 17-18 [\x0atIDENTIFIER 18-20 z\xff\x02\x0atCOMMA 20-21 ,\x0atSTAR 22-23 *\x0atIDENTIFIER 23-25 q\xff\x03\x0atRBRACK 25-26 ]\x0atRBRACK 26-27 ]\x0atSEMI 27-28 ;\x0akEND 29-32 end\x0aEOF 32-32 " },
    Rec { t: b"case v\xffa; in [*, x\xffa, *]; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(find_pattern elements=[(match_rest) (match_var name=\x22x\xff\x01\x22) (match_rest)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(find_pattern elements=[(match_rest operator=13-14 expression=13-14) (match_var name=\x22x\xff\x01\x22 name=16-18 expression=16-18) (match_rest operator=20-21 expression=20-21)] begin=12-13 end=21-22 expression=12-22) keyword=9-11 begin=22-23 expression=9-22)] keyword=0-4 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACK 12-13 [\x0atSTAR 13-14 *\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-18 x\xff\x01\x0atCOMMA 18-19 ,\x0atSTAR 20-21 *\x0atRBRACK 21-22 ]\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"case v\xffa; in [*x\xffa, \xffd, *z\xffa]; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(find_pattern elements=[(match_rest name=(match_var name=\x22x\xff\x01\x22)) (int value=\x22\xff\x02\x22) (match_rest name=(match_var name=\x22z\xff\x03\x22))]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(find_pattern elements=[(match_rest name=(match_var name=\x22x\xff\x01\x22 name=14-16 expression=14-16) operator=13-14 expression=13-16) (int value=\x22\xff\x02\x22 expression=18-19) (match_rest name=(match_var name=\x22z\xff\x03\x22 name=22-24 expression=22-24) operator=21-22 expression=21-24)] begin=12-13 end=24-25 expression=12-25) keyword=9-11 begin=25-26 expression=9-25)] keyword=0-4 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACK 12-13 [\x0atSTAR 13-14 *\x0atIDENTIFIER 14-16 x\xff\x01\x0atCOMMA 16-17 ,\x0atINTEGER 18-19 \xff\x02\x0atCOMMA 19-20 ,\x0atSTAR 21-22 *\x0atIDENTIFIER 22-24 z\xff\x03\x0atRBRACK 24-25 ]\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"case v\xffa; in x\xffa, z\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22) (match_var name=\x22z\xff\x02\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=12-14 expression=12-14) (match_var name=\x22z\xff\x02\x22 name=16-18 expression=16-18)] expression=12-18) keyword=9-11 begin=18-19 expression=9-18)] keyword=0-4 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atIDENTIFIER 12-14 x\xff\x01\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-18 z\xff\x02\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"case v\xffa; in x\xffa,; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern_with_tail elements=[(match_var name=\x22x\xff\x01\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern_with_tail elements=[(match_var name=\x22x\xff\x01\x22 name=12-14 expression=12-14)] expression=12-15) keyword=9-11 begin=15-16 expression=9-15)] keyword=0-4 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atIDENTIFIER 12-14 x\xff\x01\x0atCOMMA 14-15 ,\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"case v\xffa; in x\xffa, *z\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22) (match_rest name=(match_var name=\x22z\xff\x02\x22))]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=12-14 expression=12-14) (match_rest name=(match_var name=\x22z\xff\x02\x22 name=17-19 expression=17-19) operator=16-17 expression=16-19)] expression=12-19) keyword=9-11 begin=19-20 expression=9-19)] keyword=0-4 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atIDENTIFIER 12-14 x\xff\x01\x0atCOMMA 14-15 ,\x0atSTAR 16-17 *\x0atIDENTIFIER 17-19 z\xff\x02\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"case v\xffa; in *x\xffa, z\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_rest name=(match_var name=\x22x\xff\x01\x22)) (match_var name=\x22z\xff\x02\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_rest name=(match_var name=\x22x\xff\x01\x22 name=13-15 expression=13-15) operator=12-13 expression=12-15) (match_var name=\x22z\xff\x02\x22 name=17-19 expression=17-19)] expression=12-19) keyword=9-11 begin=19-20 expression=9-19)] keyword=0-4 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atSTAR 12-13 *\x0atIDENTIFIER 13-15 x\xff\x01\x0atCOMMA 15-16 ,\x0atIDENTIFIER 17-19 z\xff\x02\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"case v\xffa; in *x\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_rest name=(match_var name=\x22x\xff\x01\x22))]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_rest name=(match_var name=\x22x\xff\x01\x22 name=13-15 expression=13-15) operator=12-13 expression=12-15)] expression=12-15) keyword=9-11 begin=15-16 expression=9-15)] keyword=0-4 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atSTAR 12-13 *\x0atIDENTIFIER 13-15 x\xff\x01\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"case v\xffa; in x\xffa, *z\xffa, q\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22) (match_rest name=(match_var name=\x22z\xff\x02\x22)) (match_var name=\x22q\xff\x03\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=12-14 expression=12-14) (match_rest name=(match_var name=\x22z\xff\x02\x22 name=17-19 expression=17-19) operator=16-17 expression=16-19) (match_var name=\x22q\xff\x03\x22 name=21-23 expression=21-23)] expression=12-23) keyword=9-11 begin=23-24 expression=9-23)] keyword=0-4 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atIDENTIFIER 12-14 x\xff\x01\x0atCOMMA 14-15 ,\x0atSTAR 16-17 *\x0atIDENTIFIER 17-19 z\xff\x02\x0atCOMMA 19-20 ,\x0atIDENTIFIER 21-23 q\xff\x03\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"case v\xffa; in *x\xffa, \xffd, *z\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(find_pattern elements=[(match_rest name=(match_var name=\x22x\xff\x01\x22)) (int value=\x22\xff\x02\x22) (match_rest name=(match_var name=\x22z\xff\x03\x22))]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(find_pattern elements=[(match_rest name=(match_var name=\x22x\xff\x01\x22 name=13-15 expression=13-15) operator=12-13 expression=12-15) (int value=\x22\xff\x02\x22 expression=17-18) (match_rest name=(match_var name=\x22z\xff\x03\x22 name=21-23 expression=21-23) operator=20-21 expression=20-23)] expression=12-23) keyword=9-11 begin=23-24 expression=9-23)] keyword=0-4 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atSTAR 12-13 *\x0atIDENTIFIER 13-15 x\xff\x01\x0atCOMMA 15-16 ,\x0atINTEGER 17-18 \xff\x02\x0atCOMMA 18-19 ,\x0atSTAR 20-21 *\x0atIDENTIFIER 21-23 z\xff\x03\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"case v\xffa; in V\xffb(); end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22) pattern=(array_pattern elements=[])))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22 name=12-14 expression=12-14) pattern=(array_pattern elements=[] begin=14-15 end=15-16 expression=14-16) begin=14-15 end=15-16 expression=12-16) keyword=9-11 begin=16-17 expression=9-16)] keyword=0-4 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atCONSTANT 12-14 V\xff\x01\x0atLPAREN2 14-15 (\x0atRPAREN 15-16 )\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"case v\xffa; in V\xffb(x\xffa); end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x02\x22)])))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22 name=12-14 expression=12-14) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x02\x22 name=15-17 expression=15-17)] expression=15-17) begin=14-15 end=17-18 expression=12-18) keyword=9-11 begin=18-19 expression=9-18)] keyword=0-4 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atCONSTANT 12-14 V\xff\x01\x0atLPAREN2 14-15 (\x0atIDENTIFIER 15-17 x\xff\x02\x0atRPAREN 17-18 )\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"case v\xffa; in V\xffb(x\xffa, z\xffa); end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x02\x22) (match_var name=\x22z\xff\x03\x22)])))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22 name=12-14 expression=12-14) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x02\x22 name=15-17 expression=15-17) (match_var name=\x22z\xff\x03\x22 name=19-21 expression=19-21)] expression=15-21) begin=14-15 end=21-22 expression=12-22) keyword=9-11 begin=22-23 expression=9-22)] keyword=0-4 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atCONSTANT 12-14 V\xff\x01\x0atLPAREN2 14-15 (\x0atIDENTIFIER 15-17 x\xff\x02\x0atCOMMA 17-18 ,\x0atIDENTIFIER 19-21 z\xff\x03\x0atRPAREN 21-22 )\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"case v\xffa; in V\xffb(x\xffa:); end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22) pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x02\x22)])))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22 name=12-14 expression=12-14) pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x02\x22 name=15-17 expression=15-18)] expression=15-18) begin=14-15 end=18-19 expression=12-19) keyword=9-11 begin=19-20 expression=9-19)] keyword=0-4 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atCONSTANT 12-14 V\xff\x01\x0atLPAREN2 14-15 (\x0atLABEL 15-18 x\xff\x02\x0atRPAREN 18-19 )\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"case v\xffa; in V\xffb(x\xffa: z\xffa); end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22) pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x02\x22) value=(match_var name=\x22z\xff\x03\x22))])))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22 name=12-14 expression=12-14) pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x02\x22 expression=15-17) value=(match_var name=\x22z\xff\x03\x22 name=19-21 expression=19-21) operator=17-18 expression=15-21)] expression=15-21) begin=14-15 end=21-22 expression=12-22) keyword=9-11 begin=22-23 expression=9-22)] keyword=0-4 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atCONSTANT 12-14 V\xff\x01\x0atLPAREN2 14-15 (\x0atLABEL 15-18 x\xff\x02\x0atIDENTIFIER 19-21 z\xff\x03\x0atRPAREN 21-22 )\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"case v\xffa; in V\xffb[]; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22) pattern=(array_pattern elements=[])))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22 name=12-14 expression=12-14) pattern=(array_pattern elements=[] begin=14-15 end=15-16 expression=14-16) begin=14-15 end=15-16 expression=12-16) keyword=9-11 begin=16-17 expression=9-16)] keyword=0-4 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atCONSTANT 12-14 V\xff\x01\x0atLBRACK2 14-15 [\x0atRBRACK 15-16 ]\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"case v\xffa; in V\xffb[x\xffa]; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x02\x22)])))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22 name=12-14 expression=12-14) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x02\x22 name=15-17 expression=15-17)] expression=15-17) begin=14-15 end=17-18 expression=12-18) keyword=9-11 begin=18-19 expression=9-18)] keyword=0-4 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atCONSTANT 12-14 V\xff\x01\x0atLBRACK2 14-15 [\x0atIDENTIFIER 15-17 x\xff\x02\x0atRBRACK 17-18 ]\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"case v\xffa; in V\xffb[x\xffa, *z\xffa]; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x02\x22) (match_rest name=(match_var name=\x22z\xff\x03\x22))])))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22 name=12-14 expression=12-14) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x02\x22 name=15-17 expression=15-17) (match_rest name=(match_var name=\x22z\xff\x03\x22 name=20-22 expression=20-22) operator=19-20 expression=19-22)] expression=15-22) begin=14-15 end=22-23 expression=12-23) keyword=9-11 begin=23-24 expression=9-23)] keyword=0-4 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atCONSTANT 12-14 V\xff\x01\x0atLBRACK2 14-15 [\x0atIDENTIFIER 15-17 x\xff\x02\x0atCOMMA 17-18 ,\x0atSTAR 19-20 *\x0atIDENTIFIER 20-22 z\xff\x03\x0atRBRACK 22-23 ]\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"case v\xffa; in V\xffb[x\xffa:]; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22) pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x02\x22)])))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22 name=12-14 expression=12-14) pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x02\x22 name=15-17 expression=15-18)] expression=15-18) begin=14-15 end=18-19 expression=12-19) keyword=9-11 begin=19-20 expression=9-19)] keyword=0-4 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atCONSTANT 12-14 V\xff\x01\x0atLBRACK2 14-15 [\x0atLABEL 15-18 x\xff\x02\x0atRBRACK 18-19 ]\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"case v\xffa; in V\xffb::W\xffb(x\xffa); end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(const_pattern const_=(const scope=(const name=\x22V\xff\x01\x22) name=\x22W\xff\x02\x22) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x03\x22)])))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(const_pattern const_=(const scope=(const name=\x22V\xff\x01\x22 name=12-14 expression=12-14) name=\x22W\xff\x02\x22 double_colon=14-16 name=16-18 expression=12-18) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x03\x22 name=19-21 expression=19-21)] expression=19-21) begin=18-19 end=21-22 expression=12-22) keyword=9-11 begin=22-23 expression=9-22)] keyword=0-4 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atCONSTANT 12-14 V\xff\x01\x0atCOLON2 14-16 ::\x0atCONSTANT 16-18 W\xff\x02\x0atLPAREN2 18-19 (\x0atIDENTIFIER 19-21 x\xff\x03\x0atRPAREN 21-22 )\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"case v\xffa; in ::V\xffb[x\xffa]; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(const_pattern const_=(const scope=(cbase) name=\x22V\xff\x01\x22) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x02\x22)])))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(const_pattern const_=(const scope=(cbase expression=12-14) name=\x22V\xff\x01\x22 double_colon=12-14 name=14-16 expression=12-16) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x02\x22 name=17-19 expression=17-19)] expression=17-19) begin=16-17 end=19-20 expression=12-20) keyword=9-11 begin=20-21 expression=9-20)] keyword=0-4 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atCOLON3 12-14 ::\x0atCONSTANT 14-16 V\xff\x01\x0atLBRACK2 16-17 [\x0atIDENTIFIER 17-19 x\xff\x02\x0atRBRACK 19-20 ]\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"case v\xffa; in V\xffb(*, x\xffa, *); end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22) pattern=(find_pattern elements=[(match_rest) (match_var name=\x22x\xff\x02\x22) (match_rest)])))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22 name=12-14 expression=12-14) pattern=(find_pattern elements=[(match_rest operator=15-16 expression=15-16) (match_var name=\x22x\xff\x02\x22 name=18-20 expression=18-20) (match_rest operator=22-23 expression=22-23)] expression=15-23) begin=14-15 end=23-24 expression=12-24) keyword=9-11 begin=24-25 expression=9-24)] keyword=0-4 end=26-29 expression=0-29)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atCONSTANT 12-14 V\xff\x01\x0atLPAREN2 14-15 (\x0atSTAR 15-16 *\x0atCOMMA 16-17 ,\x0atIDENTIFIER 18-20 x\xff\x02\x0atCOMMA 20-21 ,\x0atSTAR 22-23 *\x0atRPAREN 23-24 )\x0atSEMI 24-25 ;\x0akEND 26-29 end\x0aEOF 29-29 " },
    Rec { t: b"case v\xffa; in {}; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[] begin=12-13 end=13-14 expression=12-14) keyword=9-11 begin=14-15 expression=9-14)] keyword=0-4 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACE 12-13 {\x0atRCURLY 13-14 }\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"case v\xffa; in {x\xffa:}; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=13-15 expression=13-16)] begin=12-13 end=16-17 expression=12-17) keyword=9-11 begin=17-18 expression=9-17)] keyword=0-4 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACE 12-13 {\x0atLABEL 13-16 x\xff\x01\x0atRCURLY 16-17 }\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"case v\xffa; in {x\xffa: z\xffa}; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22) value=(match_var name=\x22z\xff\x02\x22))]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22 expression=13-15) value=(match_var name=\x22z\xff\x02\x22 name=17-19 expression=17-19) operator=15-16 expression=13-19)] begin=12-13 end=19-20 expression=12-20) keyword=9-11 begin=20-21 expression=9-20)] keyword=0-4 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACE 12-13 {\x0atLABEL 13-16 x\xff\x01\x0atIDENTIFIER 17-19 z\xff\x02\x0atRCURLY 19-20 }\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"case v\xffa; in {x\xffa: \xffd, z\xffa:}; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22) value=(int value=\x22\xff\x02\x22)) (match_var name=\x22z\xff\x03\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22 expression=13-15) value=(int value=\x22\xff\x02\x22 expression=17-18) operator=15-16 expression=13-18) (match_var name=\x22z\xff\x03\x22 name=20-22 expression=20-23)] begin=12-13 end=23-24 expression=12-24) keyword=9-11 begin=24-25 expression=9-24)] keyword=0-4 end=26-29 expression=0-29)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACE 12-13 {\x0atLABEL 13-16 x\xff\x01\x0atINTEGER 17-18 \xff\x02\x0atCOMMA 18-19 ,\x0atLABEL 20-23 z\xff\x03\x0atRCURLY 23-24 }\x0atSEMI 24-25 ;\x0akEND 26-29 end\x0aEOF 29-29 " },
    Rec { t: b"case v\xffa; in {x\xffa:,}; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=13-15 expression=13-16)] begin=12-13 end=17-18 expression=12-18) keyword=9-11 begin=18-19 expression=9-18)] keyword=0-4 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACE 12-13 {\x0atLABEL 13-16 x\xff\x01\x0atCOMMA 16-17 ,\x0atRCURLY 17-18 }\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"case v\xffa; in {x\xffa:, **z\xffa}; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22) (match_rest name=(match_var name=\x22z\xff\x02\x22))]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=13-15 expression=13-16) (match_rest name=(match_var name=\x22z\xff\x02\x22 name=20-22 expression=20-22) operator=18-20 expression=18-22)] begin=12-13 end=22-23 expression=12-23) keyword=9-11 begin=23-24 expression=9-23)] keyword=0-4 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACE 12-13 {\x0atLABEL 13-16 x\xff\x01\x0atCOMMA 16-17 ,\x0atDSTAR 18-20 **\x0atIDENTIFIER 20-22 z\xff\x02\x0atRCURLY 22-23 }\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"case v\xffa; in {x\xffa:, **nil}; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22) (match_nil_pattern)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=13-15 expression=13-16) (match_nil_pattern operator=18-20 name=20-23 expression=18-23)] begin=12-13 end=23-24 expression=12-24) keyword=9-11 begin=24-25 expression=9-24)] keyword=0-4 end=26-29 expression=0-29)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACE 12-13 {\x0atLABEL 13-16 x\xff\x01\x0atCOMMA 16-17 ,\x0atDSTAR 18-20 **\x0akNIL 20-23 nil\x0atRCURLY 23-24 }\x0atSEMI 24-25 ;\x0akEND 26-29 end\x0aEOF 29-29 " },
    Rec { t: b"case v\xffa; in {**x\xffa}; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_rest name=(match_var name=\x22x\xff\x01\x22))]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_rest name=(match_var name=\x22x\xff\x01\x22 name=15-17 expression=15-17) operator=13-15 expression=13-17)] begin=12-13 end=17-18 expression=12-18) keyword=9-11 begin=18-19 expression=9-18)] keyword=0-4 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACE 12-13 {\x0atDSTAR 13-15 **\x0atIDENTIFIER 15-17 x\xff\x01\x0atRCURLY 17-18 }\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"case v\xffa; in {**nil}; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_nil_pattern)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_nil_pattern operator=13-15 name=15-18 expression=13-18)] begin=12-13 end=18-19 expression=12-19) keyword=9-11 begin=19-20 expression=9-19)] keyword=0-4 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACE 12-13 {\x0atDSTAR 13-15 **\x0akNIL 15-18 nil\x0atRCURLY 18-19 }\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"case v\xffa; in {\x22x\xffa\x22:}; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=14-16 expression=13-18)] begin=12-13 end=18-19 expression=12-19) keyword=9-11 begin=19-20 expression=9-19)] keyword=0-4 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACE 12-13 {\x0atSTRING_BEG 13-14 \x22\x0atSTRING_CONTENT 14-16 x\xff\x01\x0atLABEL_END 16-18 \x22:\x0atRCURLY 18-19 }\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"case v\xffa; in {\x22x\xffa\x22: z\xffa}; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22) value=(match_var name=\x22z\xff\x02\x22))]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22 begin=13-14 end=16-17 expression=13-17) value=(match_var name=\x22z\xff\x02\x22 name=19-21 expression=19-21) operator=17-18 expression=13-21)] begin=12-13 end=21-22 expression=12-22) keyword=9-11 begin=22-23 expression=9-22)] keyword=0-4 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACE 12-13 {\x0atSTRING_BEG 13-14 \x22\x0atSTRING_CONTENT 14-16 x\xff\x01\x0atLABEL_END 16-18 \x22:\x0atIDENTIFIER 19-21 z\xff\x02\x0atRCURLY 21-22 }\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"case v\xffa; in {'x\xffa': z\xffa}; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22) value=(match_var name=\x22z\xff\x02\x22))]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22 begin=13-14 end=16-17 expression=13-17) value=(match_var name=\x22z\xff\x02\x22 name=19-21 expression=19-21) operator=17-18 expression=13-21)] begin=12-13 end=21-22 expression=12-22) keyword=9-11 begin=22-23 expression=9-22)] keyword=0-4 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACE 12-13 {\x0atSTRING_BEG 13-14 '\x0atSTRING_CONTENT 14-16 x\xff\x01\x0atLABEL_END 16-18 ':\x0atIDENTIFIER 19-21 z\xff\x02\x0atRCURLY 21-22 }\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"case v\xffa; in {x\xffa: {z\xffa:}}; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22) value=(hash_pattern elements=[(match_var name=\x22z\xff\x02\x22)]))]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22 expression=13-15) value=(hash_pattern elements=[(match_var name=\x22z\xff\x02\x22 name=18-20 expression=18-21)] begin=17-18 end=21-22 expression=17-22) operator=15-16 expression=13-22)] begin=12-13 end=22-23 expression=12-23) keyword=9-11 begin=23-24 expression=9-23)] keyword=0-4 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACE 12-13 {\x0atLABEL 13-16 x\xff\x01\x0atLBRACE 17-18 {\x0atLABEL 18-21 z\xff\x02\x0atRCURLY 21-22 }\x0atRCURLY 22-23 }\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"case v\xffa; in {x\xffa: [z\xffa, *]}; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22) value=(array_pattern elements=[(match_var name=\x22z\xff\x02\x22) (match_rest)]))]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22 expression=13-15) value=(array_pattern elements=[(match_var name=\x22z\xff\x02\x22 name=18-20 expression=18-20) (match_rest operator=22-23 expression=22-23)] begin=17-18 end=23-24 expression=17-24) operator=15-16 expression=13-24)] begin=12-13 end=24-25 expression=12-25) keyword=9-11 begin=25-26 expression=9-25)] keyword=0-4 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACE 12-13 {\x0atLABEL 13-16 x\xff\x01\x0atLBRACK 17-18 [\x0atIDENTIFIER 18-20 z\xff\x02\x0atCOMMA 20-21 ,\x0atSTAR 22-23 *\x0atRBRACK 23-24 ]\x0atRCURLY 24-25 }\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"case v\xffa; in {\x0ax\xffa:\x0a}; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=14-16 expression=14-17)] begin=12-13 end=18-19 expression=12-19) keyword=9-11 begin=19-20 expression=9-19)] keyword=0-4 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACE 12-13 {\x0atLABEL 14-17 x\xff\x01\x0atRCURLY 18-19 }\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"case v\xffa; in x\xffa:; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=12-14 expression=12-15)] expression=12-15) keyword=9-11 begin=15-16 expression=9-15)] keyword=0-4 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLABEL 12-15 x\xff\x01\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"case v\xffa; in x\xffa: z\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22) value=(match_var name=\x22z\xff\x02\x22))]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22 expression=12-14) value=(match_var name=\x22z\xff\x02\x22 name=16-18 expression=16-18) operator=14-15 expression=12-18)] expression=12-18) keyword=9-11 begin=18-19 expression=9-18)] keyword=0-4 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLABEL 12-15 x\xff\x01\x0atIDENTIFIER 16-18 z\xff\x02\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"case v\xffa; in x\xffa:, z\xffa:; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22) (match_var name=\x22z\xff\x02\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=12-14 expression=12-15) (match_var name=\x22z\xff\x02\x22 name=17-19 expression=17-20)] expression=12-20) keyword=9-11 begin=20-21 expression=9-20)] keyword=0-4 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLABEL 12-15 x\xff\x01\x0atCOMMA 15-16 ,\x0atLABEL 17-20 z\xff\x02\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"case v\xffa; in x\xffa: \xffd, **z\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22) value=(int value=\x22\xff\x02\x22)) (match_rest name=(match_var name=\x22z\xff\x03\x22))]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22 expression=12-14) value=(int value=\x22\xff\x02\x22 expression=16-17) operator=14-15 expression=12-17) (match_rest name=(match_var name=\x22z\xff\x03\x22 name=21-23 expression=21-23) operator=19-21 expression=19-23)] expression=12-23) keyword=9-11 begin=23-24 expression=9-23)] keyword=0-4 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLABEL 12-15 x\xff\x01\x0atINTEGER 16-17 \xff\x02\x0atCOMMA 17-18 ,\x0atDSTAR 19-21 **\x0atIDENTIFIER 21-23 z\xff\x03\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"case v\xffa; in **x\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_rest name=(match_var name=\x22x\xff\x01\x22))]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_rest name=(match_var name=\x22x\xff\x01\x22 name=14-16 expression=14-16) operator=12-14 expression=12-16)] expression=12-16) keyword=9-11 begin=16-17 expression=9-16)] keyword=0-4 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atDSTAR 12-14 **\x0atIDENTIFIER 14-16 x\xff\x01\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"case v\xffa; in **nil; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_nil_pattern)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_nil_pattern operator=12-14 name=14-17 expression=12-17)] expression=12-17) keyword=9-11 begin=17-18 expression=9-17)] keyword=0-4 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atDSTAR 12-14 **\x0akNIL 14-17 nil\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"case v\xffa; in \x22x\xffa\x22:; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=13-15 expression=12-17)] expression=12-17) keyword=9-11 begin=17-18 expression=9-17)] keyword=0-4 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atSTRING_BEG 12-13 \x22\x0atSTRING_CONTENT 13-15 x\xff\x01\x0atLABEL_END 15-17 \x22:\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"case v\xffa; in x\xffa:\x0a\xffd; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22)]) body=(int value=\x22\xff\x02\x22))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=12-14 expression=12-15)] expression=12-15) body=(int value=\x22\xff\x02\x22 expression=16-17) keyword=9-11 begin=15-16 expression=9-17)] keyword=0-4 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLABEL 12-15 x\xff\x01\x0atNL 15-16 \x0a\x0atINTEGER 16-17 \xff\x02\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"case v\xffa; in {x\xffa: V\xffb => z\xffa}; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22) value=(match_as value=(const name=\x22V\xff\x02\x22) as_=(match_var name=\x22z\xff\x03\x22)))]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22 expression=13-15) value=(match_as value=(const name=\x22V\xff\x02\x22 name=17-19 expression=17-19) as_=(match_var name=\x22z\xff\x03\x22 name=23-25 expression=23-25) operator=20-22 expression=17-25) operator=15-16 expression=13-25)] begin=12-13 end=25-26 expression=12-26) keyword=9-11 begin=26-27 expression=9-26)] keyword=0-4 end=28-31 expression=0-31)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACE 12-13 {\x0atLABEL 13-16 x\xff\x01\x0atCONSTANT 17-19 V\xff\x02\x0atASSOC 20-22 =>\x0atIDENTIFIER 23-25 z\xff\x03\x0atRCURLY 25-26 }\x0atSEMI 26-27 ;\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"case v\xffa; in [V\xffb => x\xffa, \xffd | nil]; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_as value=(const name=\x22V\xff\x01\x22) as_=(match_var name=\x22x\xff\x02\x22)) (match_alt lhs=(int value=\x22\xff\x03\x22) rhs=(nil))]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_as value=(const name=\x22V\xff\x01\x22 name=13-15 expression=13-15) as_=(match_var name=\x22x\xff\x02\x22 name=19-21 expression=19-21) operator=16-18 expression=13-21) (match_alt lhs=(int value=\x22\xff\x03\x22 expression=23-24) rhs=(nil expression=27-30) operator=25-26 expression=23-30)] begin=12-13 end=30-31 expression=12-31) keyword=9-11 begin=31-32 expression=9-31)] keyword=0-4 end=33-36 expression=0-36)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACK 12-13 [\x0atCONSTANT 13-15 V\xff\x01\x0atASSOC 16-18 =>\x0atIDENTIFIER 19-21 x\xff\x02\x0atCOMMA 21-22 ,\x0atINTEGER 23-24 \xff\x03\x0atPIPE 25-26 |\x0akNIL 27-30 nil\x0atRBRACK 30-31 ]\x0atSEMI 31-32 ;\x0akEND 33-36 end\x0aEOF 36-36 " },
    Rec { t: b"case v\xffa; in x\xffa; in z\xffa; else; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(match_var name=\x22x\xff\x01\x22)) (in_pattern pattern=(match_var name=\x22z\xff\x02\x22))] else_body=(empty_else))", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(match_var name=\x22x\xff\x01\x22 name=12-14 expression=12-14) keyword=9-11 begin=14-15 expression=9-14) (in_pattern pattern=(match_var name=\x22z\xff\x02\x22 name=19-21 expression=19-21) keyword=16-18 begin=21-22 expression=16-21)] else_body=(empty_else expression=23-27) keyword=0-4 else=23-27 end=29-32 expression=0-32)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atIDENTIFIER 12-14 x\xff\x01\x0atSEMI 14-15 ;\x0akIN 16-18 in\x0atIDENTIFIER 19-21 z\xff\x02\x0atSEMI 21-22 ;\x0akELSE 23-27 else\x0atSEMI 27-28 ;\x0akEND 29-32 end\x0aEOF 32-32 " },
    Rec { t: b"case v\xffa; in x\xffa; \xffd; in [z\xffa]; \xffd; else \xffd; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(match_var name=\x22x\xff\x01\x22) body=(int value=\x22\xff\x02\x22)) (in_pattern pattern=(array_pattern elements=[(match_var name=\x22z\xff\x03\x22)]) body=(int value=\x22\xff\x04\x22))] else_body=(int value=\x22\xff\x05\x22))", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(match_var name=\x22x\xff\x01\x22 name=12-14 expression=12-14) body=(int value=\x22\xff\x02\x22 expression=16-17) keyword=9-11 begin=14-15 expression=9-17) (in_pattern pattern=(array_pattern elements=[(match_var name=\x22z\xff\x03\x22 name=23-25 expression=23-25)] begin=22-23 end=25-26 expression=22-26) body=(int value=\x22\xff\x04\x22 expression=28-29) keyword=19-21 begin=26-27 expression=19-29)] else_body=(int value=\x22\xff\x05\x22 expression=36-37) keyword=0-4 else=31-35 end=39-42 expression=0-42)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atIDENTIFIER 12-14 x\xff\x01\x0atSEMI 14-15 ;\x0atINTEGER 16-17 \xff\x02\x0atSEMI 17-18 ;\x0akIN 19-21 in\x0atLBRACK 22-23 [\x0atIDENTIFIER 23-25 z\xff\x03\x0atRBRACK 25-26 ]\x0atSEMI 26-27 ;\x0atINTEGER 28-29 \xff\x04\x0atSEMI 29-30 ;\x0akELSE 31-35 else\x0atINTEGER 36-37 \xff\x05\x0atSEMI 37-38 ;\x0akEND 39-42 end\x0aEOF 42-42 " },
    Rec { t: b"case v\xffa\x0ain x\xffa\x0a\xffd\x0ain {z\xffa:} if \xffd\x0a\xffd\x0aelse\x0a\xffd\x0aend", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(match_var name=\x22x\xff\x01\x22) body=(int value=\x22\xff\x02\x22)) (in_pattern pattern=(hash_pattern elements=[(match_var name=\x22z\xff\x03\x22)]) guard=(if_guard cond=(int value=\x22\xff\x04\x22)) body=(int value=\x22\xff\x05\x22))] else_body=(int value=\x22\xff\x06\x22))", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(match_var name=\x22x\xff\x01\x22 name=11-13 expression=11-13) body=(int value=\x22\xff\x02\x22 expression=14-15) keyword=8-10 begin=13-14 expression=8-15) (in_pattern pattern=(hash_pattern elements=[(match_var name=\x22z\xff\x03\x22 name=20-22 expression=20-23)] begin=19-20 end=23-24 expression=19-24) guard=(if_guard cond=(int value=\x22\xff\x04\x22 expression=28-29) keyword=25-27 expression=25-29) body=(int value=\x22\xff\x05\x22 expression=30-31) keyword=16-18 begin=29-30 expression=16-31)] else_body=(int value=\x22\xff\x06\x22 expression=37-38) keyword=0-4 else=32-36 end=39-42 expression=0-42)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atNL 7-8 \x0a\x0akIN 8-10 in\x0atIDENTIFIER 11-13 x\xff\x01\x0atNL 13-14 \x0a\x0atINTEGER 14-15 \xff\x02\x0atNL 15-16 \x0a\x0akIN 16-18 in\x0atLBRACE 19-20 {\x0atLABEL 20-23 z\xff\x03\x0atRCURLY 23-24 }\x0akIF_MOD 25-27 if\x0atINTEGER 28-29 \xff\x04\x0atNL 29-30 \x0a\x0atINTEGER 30-31 \xff\x05\x0atNL 31-32 \x0a\x0akELSE 32-36 else\x0atINTEGER 37-38 \xff\x06\x0atNL 38-39 \x0a\x0akEND 39-42 end\x0aEOF 42-42 " },
    Rec { t: b"case v\xffa; in __FILE__; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(file))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(file expression=12-20) keyword=9-11 begin=20-21 expression=9-20)] keyword=0-4 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0ak__FILE__ 12-20 __FILE__\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"case v\xffa; in `\xfft`; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(xstr parts=[(str value=\x22\xff\x01\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(xstr parts=[(str value=\x22\xff\x01\x22 expression=13-14)] begin=12-13 end=14-15 expression=12-15) keyword=9-11 begin=15-16 expression=9-15)] keyword=0-4 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atXSTRING_BEG 12-13 `\x0atSTRING_CONTENT 13-14 \xff\x01\x0atSTRING_END 14-15 `\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"case [v\xffa, x\xffa]; in [z\xffa, q\xffa] unless z\xfe\x02 == q\xfe\x03; \xffd; end", shape: b"(case_match expr=(array elements=[(send method_name=\x22v\xff\x00\x22 args=[]) (send method_name=\x22x\xff\x01\x22 args=[])]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22z\xff\x02\x22) (match_var name=\x22q\xff\x03\x22)]) guard=(unless_guard cond=(send recv=(lvar name=\x22z\xff\x02\x22) method_name=\x22==\x22 args=[(lvar name=\x22q\xff\x03\x22)])) body=(int value=\x22\xff\x04\x22))])", full: b"(case_match expr=(array elements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) (send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12)] begin=5-6 end=12-13 expression=5-13) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22z\xff\x02\x22 name=19-21 expression=19-21) (match_var name=\x22q\xff\x03\x22 name=23-25 expression=23-25)] begin=18-19 end=25-26 expression=18-26) guard=(unless_guard cond=(send recv=(lvar name=\x22z\xff\x02\x22 expression=34-36) method_name=\x22==\x22 args=[(lvar name=\x22q\xff\x03\x22 expression=40-42)] selector=37-39 expression=34-42) keyword=27-33 expression=27-42) body=(int value=\x22\xff\x04\x22 expression=44-45) keyword=15-17 begin=42-43 expression=15-45)] keyword=0-4 end=47-50 expression=0-50)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atLBRACK 5-6 [\x0atIDENTIFIER 6-8 v\xff\x00\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 x\xff\x01\x0atRBRACK 12-13 ]\x0atSEMI 13-14 ;\x0akIN 15-17 in\x0atLBRACK 18-19 [\x0atIDENTIFIER 19-21 z\xff\x02\x0atCOMMA 21-22 ,\x0atIDENTIFIER 23-25 q\xff\x03\x0atRBRACK 25-26 ]\x0akUNLESS_MOD 27-33 unless\x0atIDENTIFIER 34-36 z\xff\x02\x0atEQ 37-39 ==\x0atIDENTIFIER 40-42 q\xff\x03\x0atSEMI 42-43 ;\x0atINTEGER 44-45 \xff\x04\x0atSEMI 45-46 ;\x0akEND 47-50 end\x0aEOF 50-50 " },
    Rec { t: b"v\xffa in x\xffa", shape: b"(match_pattern_p value=(send method_name=\x22v\xff\x00\x22 args=[]) pattern=(match_var name=\x22x\xff\x01\x22))", full: b"(match_pattern_p value=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) pattern=(match_var name=\x22x\xff\x01\x22 name=6-8 expression=6-8) operator=3-5 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akIN 3-5 in\x0atIDENTIFIER 6-8 x\xff\x01\x0aEOF 8-8 " },
    Rec { t: b"v\xffa in [x\xffa, z\xffa]", shape: b"(match_pattern_p value=(send method_name=\x22v\xff\x00\x22 args=[]) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22) (match_var name=\x22z\xff\x02\x22)]))", full: b"(match_pattern_p value=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=7-9 expression=7-9) (match_var name=\x22z\xff\x02\x22 name=11-13 expression=11-13)] begin=6-7 end=13-14 expression=6-14) operator=3-5 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akIN 3-5 in\x0atLBRACK 6-7 [\x0atIDENTIFIER 7-9 x\xff\x01\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 z\xff\x02\x0atRBRACK 13-14 ]\x0aEOF 14-14 " },
    Rec { t: b"v\xffa in {x\xffa:}", shape: b"(match_pattern_p value=(send method_name=\x22v\xff\x00\x22 args=[]) pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22)]))", full: b"(match_pattern_p value=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=7-9 expression=7-10)] begin=6-7 end=10-11 expression=6-11) operator=3-5 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akIN 3-5 in\x0atLBRACE 6-7 {\x0atLABEL 7-10 x\xff\x01\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"v\xffa in x\xffa, z\xffa", shape: b"(match_pattern_p value=(send method_name=\x22v\xff\x00\x22 args=[]) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22) (match_var name=\x22z\xff\x02\x22)]))", full: b"(match_pattern_p value=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=6-8 expression=6-8) (match_var name=\x22z\xff\x02\x22 name=10-12 expression=10-12)] expression=6-12) operator=3-5 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akIN 3-5 in\x0atIDENTIFIER 6-8 x\xff\x01\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 z\xff\x02\x0aEOF 12-12 " },
    Rec { t: b"v\xffa in x\xffa:", shape: b"(match_pattern_p value=(send method_name=\x22v\xff\x00\x22 args=[]) pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22)]))", full: b"(match_pattern_p value=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=6-8 expression=6-9)] expression=6-9) operator=3-5 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akIN 3-5 in\x0atLABEL 6-9 x\xff\x01\x0aEOF 9-9 " },
    Rec { t: b"v\xffa in V\xffb(x\xffa:)", shape: b"(match_pattern_p value=(send method_name=\x22v\xff\x00\x22 args=[]) pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22) pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x02\x22)])))", full: b"(match_pattern_p value=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22 name=6-8 expression=6-8) pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x02\x22 name=9-11 expression=9-12)] expression=9-12) begin=8-9 end=12-13 expression=6-13) operator=3-5 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akIN 3-5 in\x0atCONSTANT 6-8 V\xff\x01\x0atLPAREN2 8-9 (\x0atLABEL 9-12 x\xff\x02\x0atRPAREN 12-13 )\x0aEOF 13-13 " },
    Rec { t: b"v\xffa => x\xffa", shape: b"(match_pattern value=(send method_name=\x22v\xff\x00\x22 args=[]) pattern=(match_var name=\x22x\xff\x01\x22))", full: b"(match_pattern value=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) pattern=(match_var name=\x22x\xff\x01\x22 name=6-8 expression=6-8) operator=3-5 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atASSOC 3-5 =>\x0atIDENTIFIER 6-8 x\xff\x01\x0aEOF 8-8 " },
    Rec { t: b"v\xffa => [x\xffa, *z\xffa]", shape: b"(match_pattern value=(send method_name=\x22v\xff\x00\x22 args=[]) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22) (match_rest name=(match_var name=\x22z\xff\x02\x22))]))", full: b"(match_pattern value=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=7-9 expression=7-9) (match_rest name=(match_var name=\x22z\xff\x02\x22 name=12-14 expression=12-14) operator=11-12 expression=11-14)] begin=6-7 end=14-15 expression=6-15) operator=3-5 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atASSOC 3-5 =>\x0atLBRACK 6-7 [\x0atIDENTIFIER 7-9 x\xff\x01\x0atCOMMA 9-10 ,\x0atSTAR 11-12 *\x0atIDENTIFIER 12-14 z\xff\x02\x0atRBRACK 14-15 ]\x0aEOF 15-15 " },
    Rec { t: b"v\xffa => {x\xffa:}", shape: b"(match_pattern value=(send method_name=\x22v\xff\x00\x22 args=[]) pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22)]))", full: b"(match_pattern value=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=7-9 expression=7-10)] begin=6-7 end=10-11 expression=6-11) operator=3-5 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atASSOC 3-5 =>\x0atLBRACE 6-7 {\x0atLABEL 7-10 x\xff\x01\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"v\xffa => {x\xffa: z\xffa}", shape: b"(match_pattern value=(send method_name=\x22v\xff\x00\x22 args=[]) pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22) value=(match_var name=\x22z\xff\x02\x22))]))", full: b"(match_pattern value=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22 expression=7-9) value=(match_var name=\x22z\xff\x02\x22 name=11-13 expression=11-13) operator=9-10 expression=7-13)] begin=6-7 end=13-14 expression=6-14) operator=3-5 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atASSOC 3-5 =>\x0atLBRACE 6-7 {\x0atLABEL 7-10 x\xff\x01\x0atIDENTIFIER 11-13 z\xff\x02\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"v\xffa => x\xffa, z\xffa", shape: b"(match_pattern value=(send method_name=\x22v\xff\x00\x22 args=[]) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22) (match_var name=\x22z\xff\x02\x22)]))", full: b"(match_pattern value=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=6-8 expression=6-8) (match_var name=\x22z\xff\x02\x22 name=10-12 expression=10-12)] expression=6-12) operator=3-5 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atASSOC 3-5 =>\x0atIDENTIFIER 6-8 x\xff\x01\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 z\xff\x02\x0aEOF 12-12 " },
    Rec { t: b"v\xffa => x\xffa:", shape: b"(match_pattern value=(send method_name=\x22v\xff\x00\x22 args=[]) pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22)]))", full: b"(match_pattern value=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=6-8 expression=6-9)] expression=6-9) operator=3-5 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atASSOC 3-5 =>\x0atLABEL 6-9 x\xff\x01\x0aEOF 9-9 " },
    Rec { t: b"v\xffa => V\xffb", shape: b"(match_pattern value=(send method_name=\x22v\xff\x00\x22 args=[]) pattern=(const name=\x22V\xff\x01\x22))", full: b"(match_pattern value=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) pattern=(const name=\x22V\xff\x01\x22 name=6-8 expression=6-8) operator=3-5 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atASSOC 3-5 =>\x0atCONSTANT 6-8 V\xff\x01\x0aEOF 8-8 " },
    Rec { t: b"(v\xffa in x\xffa) && z\xffa", shape: b"(and lhs=(begin statements=[(match_pattern_p value=(send method_name=\x22v\xff\x00\x22 args=[]) pattern=(match_var name=\x22x\xff\x01\x22))]) rhs=(send method_name=\x22z\xff\x02\x22 args=[]))", full: b"(and lhs=(begin statements=[(match_pattern_p value=(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3) pattern=(match_var name=\x22x\xff\x01\x22 name=7-9 expression=7-9) operator=4-6 expression=1-9)] begin=0-1 end=9-10 expression=0-10) rhs=(send method_name=\x22z\xff\x02\x22 args=[] selector=14-16 expression=14-16) operator=11-13 expression=0-16)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atIDENTIFIER 1-3 v\xff\x00\x0akIN 4-6 in\x0atIDENTIFIER 7-9 x\xff\x01\x0atRPAREN 9-10 )\x0atANDOP 11-13 &&\x0atIDENTIFIER 14-16 z\xff\x02\x0aEOF 16-16 " },
    Rec { t: b"v\xffa.x\xffa => z\xffa", shape: b"(match_pattern value=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) pattern=(match_var name=\x22z\xff\x02\x22))", full: b"(match_pattern value=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-3 selector=3-5 expression=0-5) pattern=(match_var name=\x22z\xff\x02\x22 name=9-11 expression=9-11) operator=6-8 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atASSOC 6-8 =>\x0atIDENTIFIER 9-11 z\xff\x02\x0aEOF 11-11 " },
    Rec { t: b"if v\xffa in x\xffa; z\xffa; end", shape: b"(if cond=(match_pattern_p value=(send method_name=\x22v\xff\x00\x22 args=[]) pattern=(match_var name=\x22x\xff\x01\x22)) if_true=(send method_name=\x22z\xff\x02\x22 args=[]))", full: b"(if cond=(match_pattern_p value=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) pattern=(match_var name=\x22x\xff\x01\x22 name=9-11 expression=9-11) operator=6-8 expression=3-11) if_true=(send method_name=\x22z\xff\x02\x22 args=[] selector=13-15 expression=13-15) keyword=0-2 begin=11-12 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0akIN 6-8 in\x0atIDENTIFIER 9-11 x\xff\x01\x0atSEMI 11-12 ;\x0atIDENTIFIER 13-15 z\xff\x02\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"v\xffa in \xffd | \xffd", shape: b"(match_pattern_p value=(send method_name=\x22v\xff\x00\x22 args=[]) pattern=(match_alt lhs=(int value=\x22\xff\x01\x22) rhs=(int value=\x22\xff\x02\x22)))", full: b"(match_pattern_p value=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) pattern=(match_alt lhs=(int value=\x22\xff\x01\x22 expression=6-7) rhs=(int value=\x22\xff\x02\x22 expression=10-11) operator=8-9 expression=6-11) operator=3-5 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akIN 3-5 in\x0atINTEGER 6-7 \xff\x01\x0atPIPE 8-9 |\x0atINTEGER 10-11 \xff\x02\x0aEOF 11-11 " },
];
pub static MISC: &[Rec] = &[
    Rec { t: b"v\xffa # \xfft\xfft\xfft", shape: b"(send method_name=\x22v\xff\x00\x22 args=[])", full: b"(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2)", diag: b"\x0a# 3-8", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atNL 7-8 \x0a\x0aEOF 7-7 " },
    Rec { t: b"# \xfft\xfft\xfft\x0av\xffa", shape: b"(send method_name=\x22v\xff\x03\x22 args=[])", full: b"(send method_name=\x22v\xff\x03\x22 args=[] selector=6-8 expression=6-8)", diag: b"\x0a# 0-6", toks: b"\x0atIDENTIFIER 6-8 v\xff\x03\x0aEOF 8-8 " },
    Rec { t: b"\x0av\xffa\x0a", shape: b"(send method_name=\x22v\xff\x00\x22 args=[])", full: b"(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3)", diag: b"", toks: b"\x0atIDENTIFIER 1-3 v\xff\x00\x0atNL 3-4 \x0a\x0aEOF 4-4 " },
    Rec { t: b"=begin\x0a\xfft\xfft\xfft\x0a=end\x0av\xffa", shape: b"(send method_name=\x22v\xff\x03\x22 args=[])", full: b"(send method_name=\x22v\xff\x03\x22 args=[] selector=16-18 expression=16-18)", diag: b"\x0a=begin 0-16", toks: b"\x0atIDENTIFIER 16-18 v\xff\x03\x0aEOF 18-18 " },
    Rec { t: b"v\xffa\x0a=begin\x0a\xfft\xfft\xfft\x0a=end\x0a", shape: b"(send method_name=\x22v\xff\x00\x22 args=[])", full: b"(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2)", diag: b"\x0a=begin 3-19", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atNL 2-3 \x0a\x0aEOF 19-19 " },
    Rec { t: b"v\xffa \x5c\x0a+ x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22+\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22+\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9)] selector=5-6 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atPLUS 5-6 +\x0atIDENTIFIER 7-9 x\xff\x01\x0aEOF 9-9 " },
    Rec { t: b"v\xffa +\x0ax\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22+\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22+\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7)] selector=3-4 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atPLUS 3-4 +\x0atIDENTIFIER 5-7 x\xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa,\x0ax\xffa = \xffd", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (lvasgn name=\x22x\xff\x01\x22)]) rhs=(int value=\x22\xff\x02\x22))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) (lvasgn name=\x22x\xff\x01\x22 name=4-6 expression=4-6)] expression=0-6) rhs=(int value=\x22\xff\x02\x22 expression=9-10) operator=7-8 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOMMA 2-3 ,\x0atIDENTIFIER 4-6 x\xff\x01\x0atEQL 7-8 =\x0atINTEGER 9-10 \xff\x02\x0aEOF 10-10 " },
    Rec { t: b"v\xffa(\x0ax\xffa\x0a)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6)] selector=0-2 begin=2-3 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atIDENTIFIER 4-6 x\xff\x01\x0atNL 6-7 \x0a\x0atRPAREN 7-8 )\x0aEOF 8-8 " },
    Rec { t: b"v\xffa &&\x0ax\xffa", shape: b"(and lhs=(send method_name=\x22v\xff\x00\x22 args=[]) rhs=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(and lhs=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) rhs=(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8) operator=3-5 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atANDOP 3-5 &&\x0atIDENTIFIER 6-8 x\xff\x01\x0aEOF 8-8 " },
    Rec { t: b"v\xffa ||\x0ax\xffa", shape: b"(or lhs=(send method_name=\x22v\xff\x00\x22 args=[]) rhs=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(or lhs=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) rhs=(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8) operator=3-5 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atOROP 3-5 ||\x0atIDENTIFIER 6-8 x\xff\x01\x0aEOF 8-8 " },
    Rec { t: b"v\xffa ?\x0a\xffd :\x0a\xffd", shape: b"(if_ternary cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(int value=\x22\xff\x01\x22) if_false=(int value=\x22\xff\x02\x22))", full: b"(if_ternary cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) if_true=(int value=\x22\xff\x01\x22 expression=5-6) if_false=(int value=\x22\xff\x02\x22 expression=9-10) question=3-4 colon=7-8 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEH 3-4 ?\x0atINTEGER 5-6 \xff\x01\x0atCOLON 7-8 :\x0atINTEGER 9-10 \xff\x02\x0aEOF 10-10 " },
    Rec { t: b"[\x0a]", shape: b"(array elements=[])", full: b"(array elements=[] begin=0-1 end=2-3 expression=0-3)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atRBRACK 2-3 ]\x0aEOF 3-3 " },
    Rec { t: b"{\x0a}", shape: b"(hash pairs=[])", full: b"(hash pairs=[] begin=0-1 end=2-3 expression=0-3)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atRCURLY 2-3 }\x0aEOF 3-3 " },
    Rec { t: b"<<V\xffb\x0ax\xfft\x0aV\xfe\x00", shape: b"(heredoc parts=[(str value=\x22x\xff\x01\x0a\x22)])", full: b"(heredoc parts=[(str value=\x22x\xff\x01\x0a\x22 expression=5-8)] heredoc_body=5-8 heredoc_end=8-10 expression=0-4)", diag: b"", toks: b"\x0atSTRING_BEG 0-4 <<V\xff\x00\x0atSTRING_CONTENT 5-8 x\xff\x01\x0a\x0atSTRING_END 8-10 V\xff\x00\x0atNL 4-5 \x0a\x0aEOF 4-4 " },
];
pub static HEREDOC: &[Rec] = &[
    Rec { t: b"<<V\xffb\x0ax\xfft\x0ay\xfft\x0aV\xfe\x00\x0a", shape: b"(heredoc parts=[(str value=\x22x\xff\x01\x0ay\xff\x02\x0a\x22)])", full: b"(heredoc parts=[(str value=\x22x\xff\x01\x0ay\xff\x02\x0a\x22 expression=5-11)] heredoc_body=5-11 heredoc_end=11-13 expression=0-4)", diag: b"", toks: b"\x0atSTRING_BEG 0-4 <<V\xff\x00\x0atSTRING_CONTENT 5-11 x\xff\x01\x0ay\xff\x02\x0a\x0atSTRING_END 11-13 V\xff\x00\x0atNL 4-5 \x0a\x0aEOF 5-5 " },
    Rec { t: b"<<'A'\x0ax\xffc\x0az\xfft\x0aA\x0av\xffa", shape: b"(begin statements=[(heredoc parts=[(str value=\x22x\xff\x00\x0az\xff\x01\x0a\x22)]) (send method_name=\x22v\xff\x02\x22 args=[])])", full: b"(begin statements=[(heredoc parts=[(str value=\x22x\xff\x00\x0az\xff\x01\x0a\x22 expression=6-12)] heredoc_body=6-12 heredoc_end=12-13 expression=0-5) (send method_name=\x22v\xff\x02\x22 args=[] selector=14-16 expression=14-16)] expression=0-16)", diag: b"", toks: b"\x0atSTRING_BEG 0-5 <<'A'\x0atSTRING_CONTENT 6-12 x\xff\x00\x0az\xff\x01\x0a\x0atSTRING_END 12-13 A\x0atNL 5-6 \x0a\x0atIDENTIFIER 14-16 v\xff\x02\x0aEOF 16-16 " },
    Rec { t: b"<<\x22A\x22\x0ax\xfft\x0aA\x0av\xffa", shape: b"(begin statements=[(heredoc parts=[(str value=\x22x\xff\x00\x0a\x22)]) (send method_name=\x22v\xff\x01\x22 args=[])])", full: b"(begin statements=[(heredoc parts=[(str value=\x22x\xff\x00\x0a\x22 expression=6-9)] heredoc_body=6-9 heredoc_end=9-10 expression=0-5) (send method_name=\x22v\xff\x01\x22 args=[] selector=11-13 expression=11-13)] expression=0-13)", diag: b"", toks: b"\x0atSTRING_BEG 0-5 <<\x22A\x22\x0atSTRING_CONTENT 6-9 x\xff\x00\x0a\x0atSTRING_END 9-10 A\x0atNL 5-6 \x0a\x0atIDENTIFIER 11-13 v\xff\x01\x0aEOF 13-13 " },
    Rec { t: b"<<-A\x0ax\xfft\x0a\xffsA\x0a", shape: b"(heredoc parts=[(str value=\x22x\xff\x00\x0a\x22)])", full: b"(heredoc parts=[(str value=\x22x\xff\x00\x0a\x22 expression=5-8)] heredoc_body=5-8 heredoc_end=8-10 expression=0-4)", diag: b"", toks: b"\x0atSTRING_BEG 0-4 <<-A\x0atSTRING_CONTENT 5-8 x\xff\x00\x0a\x0atSTRING_END 8-10 A\x0atNL 4-5 \x0a\x0aEOF 5-5 " },
    Rec { t: b"<<-'A'\x0ax\xffc\x0a A\x0a", shape: b"(heredoc parts=[(str value=\x22x\xff\x00\x0a\x22)])", full: b"(heredoc parts=[(str value=\x22x\xff\x00\x0a\x22 expression=7-10)] heredoc_body=7-10 heredoc_end=10-12 expression=0-6)", diag: b"", toks: b"\x0atSTRING_BEG 0-6 <<-'A'\x0atSTRING_CONTENT 7-10 x\xff\x00\x0a\x0atSTRING_END 10-12 A\x0atNL 6-7 \x0a\x0aEOF 7-7 " },
    Rec { t: b"<<~A\x0a  x\xfft\x0a    y\xfft\x0a  A\x0a", shape: b"(heredoc parts=[(str value=\x22x\xff\x00\x0a\x22) (str value=\x22  y\xff\x01\x0a\x22)])", full: b"(heredoc parts=[(str value=\x22x\xff\x00\x0a\x22 expression=5-10) (str value=\x22  y\xff\x01\x0a\x22 expression=10-17)] heredoc_body=5-17 heredoc_end=17-20 expression=0-4)", diag: b"", toks: b"\x0atSTRING_BEG 0-4 <<~A\x0atSTRING_CONTENT 5-10   x\xff\x00\x0a\x0atSTRING_CONTENT 10-17     y\xff\x01\x0a\x0atSTRING_END 17-20 A\x0atNL 4-5 \x0a\x0aEOF 5-5 " },
    Rec { t: b"<<~A\x0a\x09x\xfft\x0a  y\xfft\x0aA", shape: b"(heredoc parts=[(str value=\x22\x09x\xff\x00\x0a\x22) (str value=\x22y\xff\x01\x0a\x22)])", full: b"(heredoc parts=[(str value=\x22\x09x\xff\x00\x0a\x22 expression=5-9) (str value=\x22y\xff\x01\x0a\x22 expression=9-14)] heredoc_body=5-14 heredoc_end=14-15 expression=0-4)", diag: b"", toks: b"\x0atSTRING_BEG 0-4 <<~A\x0atSTRING_CONTENT 5-9 \x09x\xff\x00\x0a\x0atSTRING_CONTENT 9-14   y\xff\x01\x0a\x0atSTRING_END 14-15 A\x0atNL 4-5 \x0a\x0aEOF 4-4 " },
    Rec { t: b"<<A\x0aa#{v\xffa}b\x0aA", shape: b"(heredoc parts=[(str value=\x22a\x22) (begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])]) (str value=\x22b\x0a\x22)])", full: b"(heredoc parts=[(str value=\x22a\x22 expression=4-5) (begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9)] begin=5-7 end=9-10 expression=5-10) (str value=\x22b\x0a\x22 expression=10-12)] heredoc_body=4-12 heredoc_end=12-13 expression=0-3)", diag: b"", toks: b"\x0atSTRING_BEG 0-3 <<A\x0atSTRING_CONTENT 4-5 a\x0atSTRING_DBEG 5-7 #{\x0atIDENTIFIER 7-9 v\xff\x00\x0atSTRING_DEND 9-10 }\x0atSTRING_CONTENT 10-12 b\x0a\x0atSTRING_END 12-13 A\x0atNL 3-4 \x0a\x0aEOF 3-3 " },
    Rec { t: b"<<A\x0a#{v\xffa}\x0aA\x0a", shape: b"(heredoc parts=[(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])]) (str value=\x22\x0a\x22)])", full: b"(heredoc parts=[(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8)] begin=4-6 end=8-9 expression=4-9) (str value=\x22\x0a\x22 expression=9-10)] heredoc_body=4-10 heredoc_end=10-11 expression=0-3)", diag: b"", toks: b"\x0atSTRING_BEG 0-3 <<A\x0atSTRING_DBEG 4-6 #{\x0atIDENTIFIER 6-8 v\xff\x00\x0atSTRING_DEND 8-9 }\x0atSTRING_CONTENT 9-10 \x0a\x0atSTRING_END 10-11 A\x0atNL 3-4 \x0a\x0aEOF 4-4 " },
    Rec { t: b"<<~A\x0a  a#{v\xffa}b\x0a   c\x0aA", shape: b"(heredoc parts=[(str value=\x22a\x22) (begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])]) (str value=\x22b\x0a\x22) (str value=\x22 c\x0a\x22)])", full: b"(heredoc parts=[(str value=\x22a\x22 expression=5-8) (begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=10-12 expression=10-12)] begin=8-10 end=12-13 expression=8-13) (str value=\x22b\x0a\x22 expression=13-15) (str value=\x22 c\x0a\x22 expression=15-20)] heredoc_body=5-20 heredoc_end=20-21 expression=0-4)", diag: b"", toks: b"\x0atSTRING_BEG 0-4 <<~A\x0atSTRING_CONTENT 5-8   a\x0atSTRING_DBEG 8-10 #{\x0atIDENTIFIER 10-12 v\xff\x00\x0atSTRING_DEND 12-13 }\x0atSTRING_CONTENT 13-15 b\x0a\x0atSTRING_CONTENT 15-20    c\x0a\x0atSTRING_END 20-21 A\x0atNL 4-5 \x0a\x0aEOF 4-4 " },
    Rec { t: b"<<`A`\x0al\xfft\x0aA", shape: b"(x_heredoc parts=[(str value=\x22l\xff\x00\x0a\x22)])", full: b"(x_heredoc parts=[(str value=\x22l\xff\x00\x0a\x22 expression=6-9)] heredoc_body=6-9 heredoc_end=9-10 expression=0-5)", diag: b"", toks: b"\x0atXSTRING_BEG 0-5 <<`A`\x0atSTRING_CONTENT 6-9 l\xff\x00\x0a\x0atSTRING_END 9-10 A\x0atNL 5-6 \x0a\x0aEOF 5-5 " },
    Rec { t: b"<<~`A`\x0a  l\xfft\x0aA", shape: b"(x_heredoc parts=[(str value=\x22l\xff\x00\x0a\x22)])", full: b"(x_heredoc parts=[(str value=\x22l\xff\x00\x0a\x22 expression=7-12)] heredoc_body=7-12 heredoc_end=12-13 expression=0-6)", diag: b"", toks: b"\x0atXSTRING_BEG 0-6 <<~`A`\x0atSTRING_CONTENT 7-12   l\xff\x00\x0a\x0atSTRING_END 12-13 A\x0atNL 6-7 \x0a\x0aEOF 6-6 " },
    Rec { t: b"x\xffa(<<A, <<B)\x0aa\xfft\x0aA\x0ab\xfft\x0aB\x0az\xffa", shape: b"(begin statements=[(send method_name=\x22x\xff\x00\x22 args=[(heredoc parts=[(str value=\x22a\xff\x01\x0a\x22)]) (heredoc parts=[(str value=\x22b\xff\x02\x0a\x22)])]) (send method_name=\x22z\xff\x03\x22 args=[])])", full: b"(begin statements=[(send method_name=\x22x\xff\x00\x22 args=[(heredoc parts=[(str value=\x22a\xff\x01\x0a\x22 expression=13-16)] heredoc_body=13-16 heredoc_end=16-17 expression=3-6) (heredoc parts=[(str value=\x22b\xff\x02\x0a\x22 expression=18-21)] heredoc_body=18-21 heredoc_end=21-22 expression=8-11)] selector=0-2 begin=2-3 end=11-12 expression=0-12) (send method_name=\x22z\xff\x03\x22 args=[] selector=23-25 expression=23-25)] expression=0-25)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 x\xff\x00\x0atLPAREN2 2-3 (\x0atSTRING_BEG 3-6 <<A\x0atSTRING_CONTENT 13-16 a\xff\x01\x0a\x0atSTRING_END 16-17 A\x0atCOMMA 6-7 ,\x0atSTRING_BEG 8-11 <<B\x0atSTRING_CONTENT 18-21 b\xff\x02\x0a\x0atSTRING_END 21-22 B\x0atRPAREN 11-12 )\x0atNL 12-13 \x0a\x0atIDENTIFIER 23-25 z\xff\x03\x0aEOF 25-25 " },
    Rec { t: b"x\xffa <<~A.y\xffa, \xffd\x0a  t\x0aA", shape: b"(send method_name=\x22x\xff\x00\x22 args=[(send recv=(heredoc parts=[(str value=\x22t\x0a\x22)]) method_name=\x22y\xff\x01\x22 args=[]) (int value=\x22\xff\x02\x22)])", full: b"(send method_name=\x22x\xff\x00\x22 args=[(send recv=(heredoc parts=[(str value=\x22t\x0a\x22 expression=14-18)] heredoc_body=14-18 heredoc_end=18-19 expression=3-7) method_name=\x22y\xff\x01\x22 args=[] dot=7-8 selector=8-10 expression=3-10) (int value=\x22\xff\x02\x22 expression=12-13)] selector=0-2 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 x\xff\x00\x0atSTRING_BEG 3-7 <<~A\x0atSTRING_CONTENT 14-18   t\x0a\x0atSTRING_END 18-19 A\x0atDOT 7-8 .\x0atIDENTIFIER 8-10 y\xff\x01\x0atCOMMA 10-11 ,\x0atINTEGER 12-13 \xff\x02\x0atNL 13-14 \x0a\x0aEOF 13-13 " },
    Rec { t: b"<<~A\x0a\x0a  x\xfft\x0a\x0aA", shape: b"(heredoc parts=[(str value=\x22\x0a\x22) (str value=\x22x\xff\x00\x0a\x22) (str value=\x22\x0a\x22)])", full: b"(heredoc parts=[(str value=\x22\x0a\x22 expression=5-6) (str value=\x22x\xff\x00\x0a\x22 expression=6-11) (str value=\x22\x0a\x22 expression=11-12)] heredoc_body=5-12 heredoc_end=12-13 expression=0-4)", diag: b"", toks: b"\x0atSTRING_BEG 0-4 <<~A\x0atSTRING_CONTENT 5-6 \x0a\x0atSTRING_CONTENT 6-11   x\xff\x00\x0a\x0atSTRING_CONTENT 11-12 \x0a\x0atSTRING_END 12-13 A\x0atNL 4-5 \x0a\x0aEOF 4-4 " },
    Rec { t: b"<<~'A'\x0a  x\x5ct\xffc\x0a   y\x0aA", shape: b"(heredoc parts=[(str value=\x22x\x5ct\xff\x00\x0a\x22) (str value=\x22 y\x0a\x22)])", full: b"(heredoc parts=[(str value=\x22x\x5ct\xff\x00\x0a\x22 expression=7-14) (str value=\x22 y\x0a\x22 expression=14-19)] heredoc_body=7-19 heredoc_end=19-20 expression=0-6)", diag: b"", toks: b"\x0atSTRING_BEG 0-6 <<~'A'\x0atSTRING_CONTENT 7-14   x\x5ct\xff\x00\x0a\x0atSTRING_CONTENT 14-19    y\x0a\x0atSTRING_END 19-20 A\x0atNL 6-7 \x0a\x0aEOF 6-6 " },
    Rec { t: b"<<A + \x22b\xffa\x22\x0aa\x0aA", shape: b"(send recv=(heredoc parts=[(str value=\x22a\x0a\x22)]) method_name=\x22+\x22 args=[(str value=\x22b\xff\x00\x22)])", full: b"(send recv=(heredoc parts=[(str value=\x22a\x0a\x22 expression=11-13)] heredoc_body=11-13 heredoc_end=13-14 expression=0-3) method_name=\x22+\x22 args=[(str value=\x22b\xff\x00\x22 begin=6-7 end=9-10 expression=6-10)] selector=4-5 expression=0-10)", diag: b"", toks: b"\x0atSTRING_BEG 0-3 <<A\x0atSTRING_CONTENT 11-13 a\x0a\x0atSTRING_END 13-14 A\x0atPLUS 4-5 +\x0atSTRING_BEG 6-7 \x22\x0atSTRING_CONTENT 7-9 b\xff\x00\x0atSTRING_END 9-10 \x22\x0atNL 10-11 \x0a\x0aEOF 10-10 " },
    Rec { t: b"z\xffa = <<A\x0aa\xfft\x0aA\x0ay\xffa", shape: b"(begin statements=[(lvasgn name=\x22z\xff\x00\x22 value=(heredoc parts=[(str value=\x22a\xff\x01\x0a\x22)])) (send method_name=\x22y\xff\x02\x22 args=[])])", full: b"(begin statements=[(lvasgn name=\x22z\xff\x00\x22 value=(heredoc parts=[(str value=\x22a\xff\x01\x0a\x22 expression=9-12)] heredoc_body=9-12 heredoc_end=12-13 expression=5-8) name=0-2 operator=3-4 expression=0-8) (send method_name=\x22y\xff\x02\x22 args=[] selector=14-16 expression=14-16)] expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 z\xff\x00\x0atEQL 3-4 =\x0atSTRING_BEG 5-8 <<A\x0atSTRING_CONTENT 9-12 a\xff\x01\x0a\x0atSTRING_END 12-13 A\x0atNL 8-9 \x0a\x0atIDENTIFIER 14-16 y\xff\x02\x0aEOF 16-16 " },
    Rec { t: b"[<<A, <<A]\x0aa\x0aA\x0ab\x0aA\x0a", shape: b"(array elements=[(heredoc parts=[(str value=\x22a\x0a\x22)]) (heredoc parts=[(str value=\x22b\x0a\x22)])])", full: b"(array elements=[(heredoc parts=[(str value=\x22a\x0a\x22 expression=11-13)] heredoc_body=11-13 heredoc_end=13-14 expression=1-4) (heredoc parts=[(str value=\x22b\x0a\x22 expression=15-17)] heredoc_body=15-17 heredoc_end=17-18 expression=6-9)] begin=0-1 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atSTRING_BEG 1-4 <<A\x0atSTRING_CONTENT 11-13 a\x0a\x0atSTRING_END 13-14 A\x0atCOMMA 4-5 ,\x0atSTRING_BEG 6-9 <<A\x0atSTRING_CONTENT 15-17 b\x0a\x0atSTRING_END 17-18 A\x0atRBRACK 9-10 ]\x0atNL 10-11 \x0a\x0aEOF 11-11 " },
    Rec { t: b"def x\xffa; <<~A; end\x0a  t\xfft\x0aA\x0a", shape: b"(def name=\x22x\xff\x00\x22 body=(heredoc parts=[(str value=\x22t\xff\x01\x0a\x22)]))", full: b"(def name=\x22x\xff\x00\x22 body=(heredoc parts=[(str value=\x22t\xff\x01\x0a\x22 expression=18-23)] heredoc_body=18-23 heredoc_end=23-24 expression=8-12) keyword=0-3 name=4-6 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 x\xff\x00\x0atSEMI 6-7 ;\x0atSTRING_BEG 8-12 <<~A\x0atSTRING_CONTENT 18-23   t\xff\x01\x0a\x0atSTRING_END 23-24 A\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0atNL 17-18 \x0a\x0aEOF 18-18 " },
    Rec { t: b"<<~A\x0a  a\x5c\x0a  b\xfft\x0aA", shape: b"(heredoc parts=[(str value=\x22a\x22) (str value=\x22b\xff\x00\x0a\x22)])", full: b"(heredoc parts=[(str value=\x22a\x22 expression=5-10) (str value=\x22b\xff\x00\x0a\x22 expression=10-15)] heredoc_body=5-15 heredoc_end=15-16 expression=0-4)", diag: b"", toks: b"\x0atSTRING_BEG 0-4 <<~A\x0atSTRING_CONTENT 5-10   a\x0atSTRING_CONTENT 10-15   b\xff\x00\x0a\x0atSTRING_END 15-16 A\x0atNL 4-5 \x0a\x0aEOF 4-4 " },
    Rec { t: b"<<~A\x0a  #@x\xffa\x0aA", shape: b"(heredoc parts=[(ivar name=\x22@x\xff\x00\x22) (str value=\x22\x0a\x22)])", full: b"(heredoc parts=[(ivar name=\x22@x\xff\x00\x22 expression=8-11) (str value=\x22\x0a\x22 expression=11-12)] heredoc_body=5-12 heredoc_end=12-13 expression=0-4)", diag: b"", toks: b"\x0atSTRING_BEG 0-4 <<~A\x0atSTRING_CONTENT 5-7   \x0atSTRING_DVAR 7-8 #\x0atIVAR 8-11 @x\xff\x00\x0atSTRING_CONTENT 11-12 \x0a\x0atSTRING_END 12-13 A\x0atNL 4-5 \x0a\x0aEOF 4-4 " },
    Rec { t: b"{a\xffa: <<A}\x0at\xfft\x0aA", shape: b"(hash pairs=[(pair key=(sym name=\x22a\xff\x00\x22) value=(heredoc parts=[(str value=\x22t\xff\x01\x0a\x22)]))])", full: b"(hash pairs=[(pair key=(sym name=\x22a\xff\x00\x22 expression=1-3) value=(heredoc parts=[(str value=\x22t\xff\x01\x0a\x22 expression=10-13)] heredoc_body=10-13 heredoc_end=13-14 expression=5-8) operator=3-4 expression=1-8)] begin=0-1 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 1-4 a\xff\x00\x0atSTRING_BEG 5-8 <<A\x0atSTRING_CONTENT 10-13 t\xff\x01\x0a\x0atSTRING_END 13-14 A\x0atRCURLY 8-9 }\x0atNL 9-10 \x0a\x0aEOF 9-9 " },
    Rec { t: b"<<A\x0aA\x0a", shape: b"(heredoc parts=[])", full: b"(heredoc parts=[] heredoc_body=4-4 heredoc_end=4-5 expression=0-3)", diag: b"", toks: b"\x0atSTRING_BEG 0-3 <<A\x0atSTRING_END 4-5 A\x0atNL 3-4 \x0a\x0aEOF 4-4 " },
    Rec { t: b"<<~A\x0aA", shape: b"(heredoc parts=[])", full: b"(heredoc parts=[] heredoc_body=5-5 heredoc_end=5-6 expression=0-4)", diag: b"", toks: b"\x0atSTRING_BEG 0-4 <<~A\x0atSTRING_END 5-6 A\x0atNL 4-5 \x0a\x0aEOF 4-4 " },
    Rec { t: b"<<~A\x0a    A\x0a", shape: b"(heredoc parts=[])", full: b"(heredoc parts=[] heredoc_body=5-5 heredoc_end=5-10 expression=0-4)", diag: b"", toks: b"\x0atSTRING_BEG 0-4 <<~A\x0atSTRING_END 5-10 A\x0atNL 4-5 \x0a\x0aEOF 5-5 " },
    Rec { t: b"<<A\x0ax\xfft\x0d\x0aA\x0d\x0av\xffa", shape: b"(begin statements=[(heredoc parts=[(str value=\x22x\xff\x00\x0a\x22)]) (send method_name=\x22v\xff\x01\x22 args=[])])", full: b"(begin statements=[(heredoc parts=[(str value=\x22x\xff\x00\x0a\x22 expression=4-8)] heredoc_body=4-8 heredoc_end=8-9 expression=0-3) (send method_name=\x22v\xff\x01\x22 args=[] selector=11-13 expression=11-13)] expression=0-13)", diag: b"", toks: b"\x0atSTRING_BEG 0-3 <<A\x0atSTRING_CONTENT 4-8 x\xff\x00\x0a\x0atSTRING_END 8-9 A\x0atNL 3-4 \x0a\x0atIDENTIFIER 11-13 v\xff\x01\x0aEOF 13-13 " },
    Rec { t: b"<<\x22A b\xffb\x22\x0ax\xfft\x0aA b\xfe\x00\x0a", shape: b"(heredoc parts=[(str value=\x22x\xff\x01\x0a\x22)])", full: b"(heredoc parts=[(str value=\x22x\xff\x01\x0a\x22 expression=9-12)] heredoc_body=9-12 heredoc_end=12-16 expression=0-8)", diag: b"", toks: b"\x0atSTRING_BEG 0-8 <<\x22A b\xff\x00\x22\x0atSTRING_CONTENT 9-12 x\xff\x01\x0a\x0atSTRING_END 12-16 A b\xff\x00\x0atNL 8-9 \x0a\x0aEOF 9-9 " },
    Rec { t: b"<<A; v\xffa\x0ax\xfft\x0aA\x0ay\xffa", shape: b"(begin statements=[(heredoc parts=[(str value=\x22x\xff\x01\x0a\x22)]) (send method_name=\x22v\xff\x00\x22 args=[]) (send method_name=\x22y\xff\x02\x22 args=[])])", full: b"(begin statements=[(heredoc parts=[(str value=\x22x\xff\x01\x0a\x22 expression=8-11)] heredoc_body=8-11 heredoc_end=11-12 expression=0-3) (send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) (send method_name=\x22y\xff\x02\x22 args=[] selector=13-15 expression=13-15)] expression=0-15)", diag: b"", toks: b"\x0atSTRING_BEG 0-3 <<A\x0atSTRING_CONTENT 8-11 x\xff\x01\x0a\x0atSTRING_END 11-12 A\x0atSEMI 3-4 ;\x0atIDENTIFIER 5-7 v\xff\x00\x0atNL 7-8 \x0a\x0atIDENTIFIER 13-15 y\xff\x02\x0aEOF 15-15 " },
    Rec { t: b"\x22#{<<A}\x22\x0ax\xfft\x0aA\x0a", shape: b"(dstr parts=[(begin statements=[(heredoc parts=[(str value=\x22x\xff\x00\x0a\x22)])])])", full: b"(dstr parts=[(begin statements=[(heredoc parts=[(str value=\x22x\xff\x00\x0a\x22 expression=9-12)] heredoc_body=9-12 heredoc_end=12-13 expression=3-6)] begin=1-3 end=6-7 expression=1-7)] begin=0-1 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atSTRING_BEG 0-1 \x22\x0atSTRING_DBEG 1-3 #{\x0atSTRING_BEG 3-6 <<A\x0atSTRING_CONTENT 9-12 x\xff\x00\x0a\x0atSTRING_END 12-13 A\x0atSTRING_DEND 6-7 }\x0atSTRING_END 7-8 \x22\x0atNL 8-9 \x0a\x0aEOF 9-9 " },
    Rec { t: b"<<A\x0ax#{<<B}y\x0ab\xfft\x0aB\x0aA\x0a", shape: b"(heredoc parts=[(str value=\x22x\x22) (begin statements=[(heredoc parts=[(str value=\x22b\xff\x00\x0a\x22)])]) (str value=\x22y\x0a\x22)])", full: b"(heredoc parts=[(str value=\x22x\x22 expression=4-5) (begin statements=[(heredoc parts=[(str value=\x22b\xff\x00\x0a\x22 expression=13-16)] heredoc_body=13-16 heredoc_end=16-17 expression=7-10)] begin=5-7 end=10-11 expression=5-11) (str value=\x22y\x0a\x22 expression=11-13)] heredoc_body=4-13 heredoc_end=18-19 expression=0-3)", diag: b"", toks: b"\x0atSTRING_BEG 0-3 <<A\x0atSTRING_CONTENT 4-5 x\x0atSTRING_DBEG 5-7 #{\x0atSTRING_BEG 7-10 <<B\x0atSTRING_CONTENT 13-16 b\xff\x00\x0a\x0atSTRING_END 16-17 B\x0atSTRING_DEND 10-11 }\x0atSTRING_CONTENT 11-13 y\x0a\x0atSTRING_END 18-19 A\x0atNL 3-4 \x0a\x0aEOF 4-4 " },
    Rec { t: b"v\xffa do\x0a<<~A\x0a  x\xfft\x0aA\x0aend", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(heredoc parts=[(str value=\x22x\xff\x01\x0a\x22)]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) body=(heredoc parts=[(str value=\x22x\xff\x01\x0a\x22 expression=11-16)] heredoc_body=11-16 heredoc_end=16-17 expression=6-10) begin=3-5 end=18-21 expression=0-21)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0atSTRING_BEG 6-10 <<~A\x0atSTRING_CONTENT 11-16   x\xff\x01\x0a\x0atSTRING_END 16-17 A\x0atNL 10-11 \x0a\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"case <<A\x0ax\xfft\x0aA\x0awhen \xffd; end", shape: b"(case expr=(heredoc parts=[(str value=\x22x\xff\x00\x0a\x22)]) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22)])])", full: b"(case expr=(heredoc parts=[(str value=\x22x\xff\x00\x0a\x22 expression=9-12)] heredoc_body=9-12 heredoc_end=12-13 expression=5-8) when_bodies=[(when patterns=[(int value=\x22\xff\x01\x22 expression=19-20)] keyword=14-18 begin=20-21 expression=14-20)] keyword=0-4 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atSTRING_BEG 5-8 <<A\x0atSTRING_CONTENT 9-12 x\xff\x00\x0a\x0atSTRING_END 12-13 A\x0atNL 8-9 \x0a\x0akWHEN 14-18 when\x0atINTEGER 19-20 \xff\x01\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"<<A \x22b\xffa\x22\x0aa\xfft\x0aA", shape: b"(dstr parts=[(heredoc parts=[(str value=\x22a\xff\x01\x0a\x22)]) (str value=\x22b\xff\x00\x22)])", full: b"(dstr parts=[(heredoc parts=[(str value=\x22a\xff\x01\x0a\x22 expression=9-12)] heredoc_body=9-12 heredoc_end=12-13 expression=0-3) (str value=\x22b\xff\x00\x22 begin=4-5 end=7-8 expression=4-8)] expression=0-8)", diag: b"", toks: b"\x0atSTRING_BEG 0-3 <<A\x0atSTRING_CONTENT 9-12 a\xff\x01\x0a\x0atSTRING_END 12-13 A\x0atSTRING_BEG 4-5 \x22\x0atSTRING_CONTENT 5-7 b\xff\x00\x0atSTRING_END 7-8 \x22\x0atNL 8-9 \x0a\x0aEOF 8-8 " },
];
pub static NAMES: &[Rec] = &[
    Rec { t: b"alias * **", shape: b"(alias to=(sym name=\x22*\x22) from=(sym name=\x22**\x22))", full: b"(alias to=(sym name=\x22*\x22 expression=6-7) from=(sym name=\x22**\x22 expression=8-10) keyword=0-5 expression=0-10)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atSTAR2 6-7 *\x0atPOW 8-10 **\x0aEOF 10-10 " },
    Rec { t: b"def ** (x\xffa); end", shape: b"(def name=\x22**\x22 args=(args args=[(arg name=\x22x\xff\x00\x22)]))", full: b"(def name=\x22**\x22 args=(args args=[(arg name=\x22x\xff\x00\x22 expression=8-10)] expression=7-11 begin=7-8 end=10-11) keyword=0-3 name=4-6 end=13-16 expression=0-16)", diag: b"\x0aW 7-8 parentheses after method name is interpreted as an argument list, not a decomposed argument", toks: b"\x0akDEF 0-3 def\x0atPOW 4-6 **\x0atLPAREN2 7-8 (\x0atIDENTIFIER 8-10 x\xff\x00\x0atRPAREN 10-11 )\x0atSEMI 11-12 ;\x0akEND 13-16 end\x0aEOF 16-16 " },
    Rec { t: b"undef **, *", shape: b"(undef names=[(sym name=\x22**\x22) (sym name=\x22*\x22)])", full: b"(undef names=[(sym name=\x22**\x22 expression=6-8) (sym name=\x22*\x22 expression=10-11)] keyword=0-5 expression=0-11)", diag: b"", toks: b"\x0akUNDEF 0-5 undef\x0atPOW 6-8 **\x0atCOMMA 8-9 ,\x0atSTAR2 10-11 *\x0aEOF 11-11 " },
    Rec { t: b"def |(x\xffa); end", shape: b"(def name=\x22|\x22 args=(args args=[(arg name=\x22x\xff\x00\x22)]))", full: b"(def name=\x22|\x22 args=(args args=[(arg name=\x22x\xff\x00\x22 expression=6-8)] expression=5-9 begin=5-6 end=8-9) keyword=0-3 name=4-5 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atPIPE 4-5 |\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 x\xff\x00\x0atRPAREN 8-9 )\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def ^(x\xffa); end", shape: b"(def name=\x22^\x22 args=(args args=[(arg name=\x22x\xff\x00\x22)]))", full: b"(def name=\x22^\x22 args=(args args=[(arg name=\x22x\xff\x00\x22 expression=6-8)] expression=5-9 begin=5-6 end=8-9) keyword=0-3 name=4-5 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atCARET 4-5 ^\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 x\xff\x00\x0atRPAREN 8-9 )\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def &(x\xffa); end", shape: b"(def name=\x22&\x22 args=(args args=[(arg name=\x22x\xff\x00\x22)]))", full: b"(def name=\x22&\x22 args=(args args=[(arg name=\x22x\xff\x00\x22 expression=6-8)] expression=5-9 begin=5-6 end=8-9) keyword=0-3 name=4-5 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atAMPER2 4-5 &\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 x\xff\x00\x0atRPAREN 8-9 )\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def >(x\xffa); end", shape: b"(def name=\x22>\x22 args=(args args=[(arg name=\x22x\xff\x00\x22)]))", full: b"(def name=\x22>\x22 args=(args args=[(arg name=\x22x\xff\x00\x22 expression=6-8)] expression=5-9 begin=5-6 end=8-9) keyword=0-3 name=4-5 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atGT 4-5 >\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 x\xff\x00\x0atRPAREN 8-9 )\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def >=(x\xffa); end", shape: b"(def name=\x22>=\x22 args=(args args=[(arg name=\x22x\xff\x00\x22)]))", full: b"(def name=\x22>=\x22 args=(args args=[(arg name=\x22x\xff\x00\x22 expression=7-9)] expression=6-10 begin=6-7 end=9-10) keyword=0-3 name=4-6 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atGEQ 4-6 >=\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x00\x0atRPAREN 9-10 )\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def <(x\xffa); end", shape: b"(def name=\x22<\x22 args=(args args=[(arg name=\x22x\xff\x00\x22)]))", full: b"(def name=\x22<\x22 args=(args args=[(arg name=\x22x\xff\x00\x22 expression=6-8)] expression=5-9 begin=5-6 end=8-9) keyword=0-3 name=4-5 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atLT 4-5 <\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 x\xff\x00\x0atRPAREN 8-9 )\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def <=(x\xffa); end", shape: b"(def name=\x22<=\x22 args=(args args=[(arg name=\x22x\xff\x00\x22)]))", full: b"(def name=\x22<=\x22 args=(args args=[(arg name=\x22x\xff\x00\x22 expression=7-9)] expression=6-10 begin=6-7 end=9-10) keyword=0-3 name=4-6 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atLEQ 4-6 <=\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x00\x0atRPAREN 9-10 )\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def >>(x\xffa); end", shape: b"(def name=\x22>>\x22 args=(args args=[(arg name=\x22x\xff\x00\x22)]))", full: b"(def name=\x22>>\x22 args=(args args=[(arg name=\x22x\xff\x00\x22 expression=7-9)] expression=6-10 begin=6-7 end=9-10) keyword=0-3 name=4-6 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atRSHFT 4-6 >>\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x00\x0atRPAREN 9-10 )\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def *(x\xffa); end", shape: b"(def name=\x22*\x22 args=(args args=[(arg name=\x22x\xff\x00\x22)]))", full: b"(def name=\x22*\x22 args=(args args=[(arg name=\x22x\xff\x00\x22 expression=6-8)] expression=5-9 begin=5-6 end=8-9) keyword=0-3 name=4-5 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atSTAR2 4-5 *\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 x\xff\x00\x0atRPAREN 8-9 )\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def /(x\xffa); end", shape: b"(def name=\x22/\x22 args=(args args=[(arg name=\x22x\xff\x00\x22)]))", full: b"(def name=\x22/\x22 args=(args args=[(arg name=\x22x\xff\x00\x22 expression=6-8)] expression=5-9 begin=5-6 end=8-9) keyword=0-3 name=4-5 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atDIVIDE 4-5 /\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 x\xff\x00\x0atRPAREN 8-9 )\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def !~(x\xffa); end", shape: b"(def name=\x22!~\x22 args=(args args=[(arg name=\x22x\xff\x00\x22)]))", full: b"(def name=\x22!~\x22 args=(args args=[(arg name=\x22x\xff\x00\x22 expression=7-9)] expression=6-10 begin=6-7 end=9-10) keyword=0-3 name=4-6 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atNMATCH 4-6 !~\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x00\x0atRPAREN 9-10 )\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def +(); end", shape: b"(def name=\x22+\x22 args=(args args=[]))", full: b"(def name=\x22+\x22 args=(args args=[] expression=5-7 begin=5-6 end=6-7) keyword=0-3 name=4-5 end=9-12 expression=0-12)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atPLUS 4-5 +\x0atLPAREN2 5-6 (\x0atRPAREN 6-7 )\x0atSEMI 7-8 ;\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"def BEGIN; end", shape: b"(def name=\x22BEGIN\x22)", full: b"(def name=\x22BEGIN\x22 keyword=0-3 name=4-9 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0aklBEGIN 4-9 BEGIN\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def END; end", shape: b"(def name=\x22END\x22)", full: b"(def name=\x22END\x22 keyword=0-3 name=4-7 end=9-12 expression=0-12)", diag: b"", toks: b"\x0akDEF 0-3 def\x0aklEND 4-7 END\x0atSEMI 7-8 ;\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"def __FILE__; end", shape: b"(def name=\x22__FILE__\x22)", full: b"(def name=\x22__FILE__\x22 keyword=0-3 name=4-12 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akDEF 0-3 def\x0ak__FILE__ 4-12 __FILE__\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"def __LINE__; end", shape: b"(def name=\x22__LINE__\x22)", full: b"(def name=\x22__LINE__\x22 keyword=0-3 name=4-12 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akDEF 0-3 def\x0ak__LINE__ 4-12 __LINE__\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"def __ENCODING__; end", shape: b"(def name=\x22__ENCODING__\x22)", full: b"(def name=\x22__ENCODING__\x22 keyword=0-3 name=4-16 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akDEF 0-3 def\x0ak__ENCODING__ 4-16 __ENCODING__\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"def alias; end", shape: b"(def name=\x22alias\x22)", full: b"(def name=\x22alias\x22 keyword=0-3 name=4-9 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akALIAS 4-9 alias\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def and; end", shape: b"(def name=\x22and\x22)", full: b"(def name=\x22and\x22 keyword=0-3 name=4-7 end=9-12 expression=0-12)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akAND 4-7 and\x0atSEMI 7-8 ;\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"def begin; end", shape: b"(def name=\x22begin\x22)", full: b"(def name=\x22begin\x22 keyword=0-3 name=4-9 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akBEGIN 4-9 begin\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def break; end", shape: b"(def name=\x22break\x22)", full: b"(def name=\x22break\x22 keyword=0-3 name=4-9 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akBREAK 4-9 break\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def case; end", shape: b"(def name=\x22case\x22)", full: b"(def name=\x22case\x22 keyword=0-3 name=4-8 end=10-13 expression=0-13)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akCASE 4-8 case\x0atSEMI 8-9 ;\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"def def; end", shape: b"(def name=\x22def\x22)", full: b"(def name=\x22def\x22 keyword=0-3 name=4-7 end=9-12 expression=0-12)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akDEF 4-7 def\x0atSEMI 7-8 ;\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"def defined?; end", shape: b"(def name=\x22defined?\x22)", full: b"(def name=\x22defined?\x22 keyword=0-3 name=4-12 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akDEFINED 4-12 defined?\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"def do; end", shape: b"(def name=\x22do\x22)", full: b"(def name=\x22do\x22 keyword=0-3 name=4-6 end=8-11 expression=0-11)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akDO 4-6 do\x0atSEMI 6-7 ;\x0akEND 8-11 end\x0aEOF 11-11 " },
    Rec { t: b"def else; end", shape: b"(def name=\x22else\x22)", full: b"(def name=\x22else\x22 keyword=0-3 name=4-8 end=10-13 expression=0-13)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akELSE 4-8 else\x0atSEMI 8-9 ;\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"def elsif; end", shape: b"(def name=\x22elsif\x22)", full: b"(def name=\x22elsif\x22 keyword=0-3 name=4-9 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akELSIF 4-9 elsif\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def ensure; end", shape: b"(def name=\x22ensure\x22)", full: b"(def name=\x22ensure\x22 keyword=0-3 name=4-10 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akENSURE 4-10 ensure\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def false; end", shape: b"(def name=\x22false\x22)", full: b"(def name=\x22false\x22 keyword=0-3 name=4-9 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akFALSE 4-9 false\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def for; end", shape: b"(def name=\x22for\x22)", full: b"(def name=\x22for\x22 keyword=0-3 name=4-7 end=9-12 expression=0-12)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akFOR 4-7 for\x0atSEMI 7-8 ;\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"def in; end", shape: b"(def name=\x22in\x22)", full: b"(def name=\x22in\x22 keyword=0-3 name=4-6 end=8-11 expression=0-11)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akIN 4-6 in\x0atSEMI 6-7 ;\x0akEND 8-11 end\x0aEOF 11-11 " },
    Rec { t: b"def module; end", shape: b"(def name=\x22module\x22)", full: b"(def name=\x22module\x22 keyword=0-3 name=4-10 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akMODULE 4-10 module\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def next; end", shape: b"(def name=\x22next\x22)", full: b"(def name=\x22next\x22 keyword=0-3 name=4-8 end=10-13 expression=0-13)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akNEXT 4-8 next\x0atSEMI 8-9 ;\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"def not; end", shape: b"(def name=\x22not\x22)", full: b"(def name=\x22not\x22 keyword=0-3 name=4-7 end=9-12 expression=0-12)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akNOT 4-7 not\x0atSEMI 7-8 ;\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"def or; end", shape: b"(def name=\x22or\x22)", full: b"(def name=\x22or\x22 keyword=0-3 name=4-6 end=8-11 expression=0-11)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akOR 4-6 or\x0atSEMI 6-7 ;\x0akEND 8-11 end\x0aEOF 11-11 " },
    Rec { t: b"def redo; end", shape: b"(def name=\x22redo\x22)", full: b"(def name=\x22redo\x22 keyword=0-3 name=4-8 end=10-13 expression=0-13)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akREDO 4-8 redo\x0atSEMI 8-9 ;\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"def rescue; end", shape: b"(def name=\x22rescue\x22)", full: b"(def name=\x22rescue\x22 keyword=0-3 name=4-10 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akRESCUE 4-10 rescue\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def retry; end", shape: b"(def name=\x22retry\x22)", full: b"(def name=\x22retry\x22 keyword=0-3 name=4-9 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akRETRY 4-9 retry\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def return; end", shape: b"(def name=\x22return\x22)", full: b"(def name=\x22return\x22 keyword=0-3 name=4-10 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akRETURN 4-10 return\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def super; end", shape: b"(def name=\x22super\x22)", full: b"(def name=\x22super\x22 keyword=0-3 name=4-9 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSUPER 4-9 super\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def then; end", shape: b"(def name=\x22then\x22)", full: b"(def name=\x22then\x22 keyword=0-3 name=4-8 end=10-13 expression=0-13)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akTHEN 4-8 then\x0atSEMI 8-9 ;\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"def true; end", shape: b"(def name=\x22true\x22)", full: b"(def name=\x22true\x22 keyword=0-3 name=4-8 end=10-13 expression=0-13)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akTRUE 4-8 true\x0atSEMI 8-9 ;\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"def undef; end", shape: b"(def name=\x22undef\x22)", full: b"(def name=\x22undef\x22 keyword=0-3 name=4-9 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akUNDEF 4-9 undef\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def unless; end", shape: b"(def name=\x22unless\x22)", full: b"(def name=\x22unless\x22 keyword=0-3 name=4-10 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akUNLESS 4-10 unless\x0atSEMI 10-11 ;\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def until; end", shape: b"(def name=\x22until\x22)", full: b"(def name=\x22until\x22 keyword=0-3 name=4-9 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akUNTIL 4-9 until\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def when; end", shape: b"(def name=\x22when\x22)", full: b"(def name=\x22when\x22 keyword=0-3 name=4-8 end=10-13 expression=0-13)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akWHEN 4-8 when\x0atSEMI 8-9 ;\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"def while; end", shape: b"(def name=\x22while\x22)", full: b"(def name=\x22while\x22 keyword=0-3 name=4-9 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akWHILE 4-9 while\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def yield; end", shape: b"(def name=\x22yield\x22)", full: b"(def name=\x22yield\x22 keyword=0-3 name=4-9 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akYIELD 4-9 yield\x0atSEMI 9-10 ;\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"alias | ^", shape: b"(alias to=(sym name=\x22|\x22) from=(sym name=\x22^\x22))", full: b"(alias to=(sym name=\x22|\x22 expression=6-7) from=(sym name=\x22^\x22 expression=8-9) keyword=0-5 expression=0-9)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atPIPE 6-7 |\x0atCARET 8-9 ^\x0aEOF 9-9 " },
    Rec { t: b"alias & <=>", shape: b"(alias to=(sym name=\x22&\x22) from=(sym name=\x22<=>\x22))", full: b"(alias to=(sym name=\x22&\x22 expression=6-7) from=(sym name=\x22<=>\x22 expression=8-11) keyword=0-5 expression=0-11)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atAMPER2 6-7 &\x0atCMP 8-11 <=>\x0aEOF 11-11 " },
    Rec { t: b"alias == ===", shape: b"(alias to=(sym name=\x22==\x22) from=(sym name=\x22===\x22))", full: b"(alias to=(sym name=\x22==\x22 expression=6-8) from=(sym name=\x22===\x22 expression=9-12) keyword=0-5 expression=0-12)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atEQ 6-8 ==\x0atEQQ 9-12 ===\x0aEOF 12-12 " },
    Rec { t: b"alias =~ !~", shape: b"(alias to=(sym name=\x22=~\x22) from=(sym name=\x22!~\x22))", full: b"(alias to=(sym name=\x22=~\x22 expression=6-8) from=(sym name=\x22!~\x22 expression=9-11) keyword=0-5 expression=0-11)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atMATCH 6-8 =~\x0atNMATCH 9-11 !~\x0aEOF 11-11 " },
    Rec { t: b"alias > >=", shape: b"(alias to=(sym name=\x22>\x22) from=(sym name=\x22>=\x22))", full: b"(alias to=(sym name=\x22>\x22 expression=6-7) from=(sym name=\x22>=\x22 expression=8-10) keyword=0-5 expression=0-10)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atGT 6-7 >\x0atGEQ 8-10 >=\x0aEOF 10-10 " },
    Rec { t: b"alias < <=", shape: b"(alias to=(sym name=\x22<\x22) from=(sym name=\x22<=\x22))", full: b"(alias to=(sym name=\x22<\x22 expression=6-7) from=(sym name=\x22<=\x22 expression=8-10) keyword=0-5 expression=0-10)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atLT 6-7 <\x0atLEQ 8-10 <=\x0aEOF 10-10 " },
    Rec { t: b"alias != !", shape: b"(alias to=(sym name=\x22!=\x22) from=(sym name=\x22!\x22))", full: b"(alias to=(sym name=\x22!=\x22 expression=6-8) from=(sym name=\x22!\x22 expression=9-10) keyword=0-5 expression=0-10)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atNEQ 6-8 !=\x0atBANG 9-10 !\x0aEOF 10-10 " },
    Rec { t: b"alias << >>", shape: b"(alias to=(sym name=\x22<<\x22) from=(sym name=\x22>>\x22))", full: b"(alias to=(sym name=\x22<<\x22 expression=6-8) from=(sym name=\x22>>\x22 expression=9-11) keyword=0-5 expression=0-11)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atLSHFT 6-8 <<\x0atRSHFT 9-11 >>\x0aEOF 11-11 " },
    Rec { t: b"alias + *", shape: b"(alias to=(sym name=\x22+\x22) from=(sym name=\x22*\x22))", full: b"(alias to=(sym name=\x22+\x22 expression=6-7) from=(sym name=\x22*\x22 expression=8-9) keyword=0-5 expression=0-9)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atPLUS 6-7 +\x0atSTAR2 8-9 *\x0aEOF 9-9 " },
    Rec { t: b"alias / %", shape: b"(alias to=(sym name=\x22/\x22) from=(sym name=\x22%\x22))", full: b"(alias to=(sym name=\x22/\x22 expression=6-7) from=(sym name=\x22%\x22 expression=8-9) keyword=0-5 expression=0-9)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atDIVIDE 6-7 /\x0atPERCENT 8-9 %\x0aEOF 9-9 " },
    Rec { t: b"alias ** ~", shape: b"(alias to=(sym name=\x22**\x22) from=(sym name=\x22~\x22))", full: b"(alias to=(sym name=\x22**\x22 expression=6-8) from=(sym name=\x22~\x22 expression=9-10) keyword=0-5 expression=0-10)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atPOW 6-8 **\x0atTILDE 9-10 ~\x0aEOF 10-10 " },
    Rec { t: b"alias +@ -@", shape: b"(alias to=(sym name=\x22+@\x22) from=(sym name=\x22-@\x22))", full: b"(alias to=(sym name=\x22+@\x22 expression=6-8) from=(sym name=\x22-@\x22 expression=9-11) keyword=0-5 expression=0-11)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atUPLUS 6-8 +@\x0atUMINUS 9-11 -@\x0aEOF 11-11 " },
    Rec { t: b"alias [] []=", shape: b"(alias to=(sym name=\x22[]\x22) from=(sym name=\x22[]=\x22))", full: b"(alias to=(sym name=\x22[]\x22 expression=6-8) from=(sym name=\x22[]=\x22 expression=9-12) keyword=0-5 expression=0-12)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atAREF 6-8 []\x0atASET 9-12 []=\x0aEOF 12-12 " },
    Rec { t: b"alias ` v\xffa", shape: b"(alias to=(sym name=\x22`\x22) from=(sym name=\x22v\xff\x00\x22))", full: b"(alias to=(sym name=\x22`\x22 expression=6-7) from=(sym name=\x22v\xff\x00\x22 expression=8-10) keyword=0-5 expression=0-10)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atBACK_REF2 6-7 `\x0atIDENTIFIER 8-10 v\xff\x00\x0aEOF 10-10 " },
    Rec { t: b"alias :+ :-", shape: b"(alias to=(sym name=\x22+\x22) from=(sym name=\x22-\x22))", full: b"(alias to=(sym name=\x22+\x22 begin=6-7 expression=6-8) from=(sym name=\x22-\x22 begin=9-10 expression=9-11) keyword=0-5 expression=0-11)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atSYMBEG 6-7 :\x0atPLUS 7-8 +\x0atSYMBEG 9-10 :\x0atMINUS 10-11 -\x0aEOF 11-11 " },
    Rec { t: b"alias v\xffa! x\xffa?", shape: b"(alias to=(sym name=\x22v\xff\x00!\x22) from=(sym name=\x22x\xff\x01?\x22))", full: b"(alias to=(sym name=\x22v\xff\x00!\x22 expression=6-9) from=(sym name=\x22x\xff\x01?\x22 expression=10-13) keyword=0-5 expression=0-13)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atFID 6-9 v\xff\x00!\x0atFID 10-13 x\xff\x01?\x0aEOF 13-13 " },
    Rec { t: b"alias V\xffb x\xffa", shape: b"(alias to=(sym name=\x22V\xff\x00\x22) from=(sym name=\x22x\xff\x01\x22))", full: b"(alias to=(sym name=\x22V\xff\x00\x22 expression=6-8) from=(sym name=\x22x\xff\x01\x22 expression=9-11) keyword=0-5 expression=0-11)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atCONSTANT 6-8 V\xff\x00\x0atIDENTIFIER 9-11 x\xff\x01\x0aEOF 11-11 " },
    Rec { t: b"alias v\xffa class", shape: b"(alias to=(sym name=\x22v\xff\x00\x22) from=(sym name=\x22class\x22))", full: b"(alias to=(sym name=\x22v\xff\x00\x22 expression=6-8) from=(sym name=\x22class\x22 expression=9-14) keyword=0-5 expression=0-14)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atIDENTIFIER 6-8 v\xff\x00\x0akCLASS 9-14 class\x0aEOF 14-14 " },
    Rec { t: b"alias $v\xffa $&", shape: b"(alias to=(gvar name=\x22$v\xff\x00\x22) from=(back_ref name=\x22$&\x22))", full: b"(alias to=(gvar name=\x22$v\xff\x00\x22 expression=6-9) from=(back_ref name=\x22$&\x22 expression=10-12) keyword=0-5 expression=0-12)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atGVAR 6-9 $v\xff\x00\x0atBACK_REF 10-12 $&\x0aEOF 12-12 " },
    Rec { t: b"alias $v\xffa $-w", shape: b"(alias to=(gvar name=\x22$v\xff\x00\x22) from=(gvar name=\x22$-w\x22))", full: b"(alias to=(gvar name=\x22$v\xff\x00\x22 expression=6-9) from=(gvar name=\x22$-w\x22 expression=10-13) keyword=0-5 expression=0-13)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atGVAR 6-9 $v\xff\x00\x0atGVAR 10-13 $-w\x0aEOF 13-13 " },
    Rec { t: b"alias $! $@", shape: b"(alias to=(gvar name=\x22$!\x22) from=(gvar name=\x22$@\x22))", full: b"(alias to=(gvar name=\x22$!\x22 expression=6-8) from=(gvar name=\x22$@\x22 expression=9-11) keyword=0-5 expression=0-11)", diag: b"", toks: b"\x0akALIAS 0-5 alias\x0atGVAR 6-8 $!\x0atGVAR 9-11 $@\x0aEOF 11-11 " },
    Rec { t: b"undef if, class", shape: b"(undef names=[(sym name=\x22if\x22) (sym name=\x22class\x22)])", full: b"(undef names=[(sym name=\x22if\x22 expression=6-8) (sym name=\x22class\x22 expression=10-15)] keyword=0-5 expression=0-15)", diag: b"", toks: b"\x0akUNDEF 0-5 undef\x0akIF 6-8 if\x0atCOMMA 8-9 ,\x0akCLASS 10-15 class\x0aEOF 15-15 " },
    Rec { t: b"undef :if, +@", shape: b"(undef names=[(sym name=\x22if\x22) (sym name=\x22+@\x22)])", full: b"(undef names=[(sym name=\x22if\x22 begin=6-7 expression=6-9) (sym name=\x22+@\x22 expression=11-13)] keyword=0-5 expression=0-13)", diag: b"", toks: b"\x0akUNDEF 0-5 undef\x0atSYMBEG 6-7 :\x0akIF 7-9 if\x0atCOMMA 9-10 ,\x0atUPLUS 11-13 +@\x0aEOF 13-13 " },
    Rec { t: b"undef |, ^, &", shape: b"(undef names=[(sym name=\x22|\x22) (sym name=\x22^\x22) (sym name=\x22&\x22)])", full: b"(undef names=[(sym name=\x22|\x22 expression=6-7) (sym name=\x22^\x22 expression=9-10) (sym name=\x22&\x22 expression=12-13)] keyword=0-5 expression=0-13)", diag: b"", toks: b"\x0akUNDEF 0-5 undef\x0atPIPE 6-7 |\x0atCOMMA 7-8 ,\x0atCARET 9-10 ^\x0atCOMMA 10-11 ,\x0atAMPER2 12-13 &\x0aEOF 13-13 " },
    Rec { t: b"undef v\xffa!, x\xffa?, z\xffa=", shape: b"(undef names=[(sym name=\x22v\xff\x00!\x22) (sym name=\x22x\xff\x01?\x22) (sym name=\x22z\xff\x02=\x22)])", full: b"(undef names=[(sym name=\x22v\xff\x00!\x22 expression=6-9) (sym name=\x22x\xff\x01?\x22 expression=11-14) (sym name=\x22z\xff\x02=\x22 expression=16-19)] keyword=0-5 expression=0-19)", diag: b"", toks: b"\x0akUNDEF 0-5 undef\x0atFID 6-9 v\xff\x00!\x0atCOMMA 9-10 ,\x0atFID 11-14 x\xff\x01?\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-19 z\xff\x02=\x0aEOF 19-19 " },
    Rec { t: b":|", shape: b"(sym name=\x22|\x22)", full: b"(sym name=\x22|\x22 begin=0-1 expression=0-2)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atPIPE 1-2 |\x0aEOF 2-2 " },
    Rec { t: b":!~", shape: b"(sym name=\x22!~\x22)", full: b"(sym name=\x22!~\x22 begin=0-1 expression=0-3)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0atNMATCH 1-3 !~\x0aEOF 3-3 " },
    Rec { t: b":__FILE__", shape: b"(sym name=\x22__FILE__\x22)", full: b"(sym name=\x22__FILE__\x22 begin=0-1 expression=0-9)", diag: b"", toks: b"\x0atSYMBEG 0-1 :\x0ak__FILE__ 1-9 __FILE__\x0aEOF 9-9 " },
    Rec { t: b"v\xffa.if x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22if\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22if\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8)] dot=2-3 selector=3-5 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 if\x0atIDENTIFIER 6-8 x\xff\x01\x0aEOF 8-8 " },
    Rec { t: b"v\xffa::end", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22end\x22 args=[])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22end\x22 args=[] dot=2-4 selector=4-7 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atIDENTIFIER 4-7 end\x0aEOF 7-7 " },
    Rec { t: b"v\xffa.BEGIN", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22BEGIN\x22 args=[])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22BEGIN\x22 args=[] dot=2-3 selector=3-8 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atCONSTANT 3-8 BEGIN\x0aEOF 8-8 " },
    Rec { t: b"v\xffa&.then", shape: b"(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22then\x22 args=[])", full: b"(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22then\x22 args=[] dot=2-4 selector=4-8 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atANDDOT 2-4 &.\x0atIDENTIFIER 4-8 then\x0aEOF 8-8 " },
    Rec { t: b"v\xffa.-@", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22-@\x22 args=[])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22-@\x22 args=[] dot=2-3 selector=3-5 expression=0-5)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atUMINUS 3-5 -@\x0aEOF 5-5 " },
    Rec { t: b"v\xffa.[] x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22[]\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22[]\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8)] dot=2-3 selector=3-5 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atAREF 3-5 []\x0atIDENTIFIER 6-8 x\xff\x01\x0aEOF 8-8 " },
    Rec { t: b"v\xffa.<=>(x\xffa)", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22<=>\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22<=>\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9)] dot=2-3 selector=3-6 begin=6-7 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atCMP 3-6 <=>\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atRPAREN 9-10 )\x0aEOF 10-10 " },
];
pub static BLOCKS: &[Rec] = &[
    Rec { t: b"v\xffa.x\xffa (y\xffa) { z\xffa }", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(begin statements=[(send method_name=\x22y\xff\x02\x22 args=[])])]) body=(send method_name=\x22z\xff\x03\x22 args=[]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(begin statements=[(send method_name=\x22y\xff\x02\x22 args=[] selector=7-9 expression=7-9)] begin=6-7 end=9-10 expression=6-10)] dot=2-3 selector=3-5 expression=0-10) body=(send method_name=\x22z\xff\x03\x22 args=[] selector=13-15 expression=13-15) begin=11-12 end=16-17 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atLPAREN_ARG 6-7 (\x0atIDENTIFIER 7-9 y\xff\x02\x0atRPAREN 9-10 )\x0atLBRACE_ARG 11-12 {\x0atIDENTIFIER 13-15 z\xff\x03\x0atRCURLY 16-17 }\x0aEOF 17-17 " },
    Rec { t: b"v\xffa::x\xffa (y\xffa) { z\xffa }", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(begin statements=[(send method_name=\x22y\xff\x02\x22 args=[])])]) body=(send method_name=\x22z\xff\x03\x22 args=[]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(begin statements=[(send method_name=\x22y\xff\x02\x22 args=[] selector=8-10 expression=8-10)] begin=7-8 end=10-11 expression=7-11)] dot=2-4 selector=4-6 expression=0-11) body=(send method_name=\x22z\xff\x03\x22 args=[] selector=14-16 expression=14-16) begin=12-13 end=17-18 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atIDENTIFIER 4-6 x\xff\x01\x0atLPAREN_ARG 7-8 (\x0atIDENTIFIER 8-10 y\xff\x02\x0atRPAREN 10-11 )\x0atLBRACE_ARG 12-13 {\x0atIDENTIFIER 14-16 z\xff\x03\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"v\xffa.X\xffb (y\xffa) { z\xffa }", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22X\xff\x01\x22 args=[(begin statements=[(send method_name=\x22y\xff\x02\x22 args=[])])]) body=(send method_name=\x22z\xff\x03\x22 args=[]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22X\xff\x01\x22 args=[(begin statements=[(send method_name=\x22y\xff\x02\x22 args=[] selector=7-9 expression=7-9)] begin=6-7 end=9-10 expression=6-10)] dot=2-3 selector=3-5 expression=0-10) body=(send method_name=\x22z\xff\x03\x22 args=[] selector=13-15 expression=13-15) begin=11-12 end=16-17 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atCONSTANT 3-5 X\xff\x01\x0atLPAREN_ARG 6-7 (\x0atIDENTIFIER 7-9 y\xff\x02\x0atRPAREN 9-10 )\x0atLBRACE_ARG 11-12 {\x0atIDENTIFIER 13-15 z\xff\x03\x0atRCURLY 16-17 }\x0aEOF 17-17 " },
    Rec { t: b"-> do _2 end", shape: b"(numblock call=(lambda) numargs=2 body=(lvar name=\x22_2\x22))", full: b"(numblock call=(lambda expression=0-2) numargs=2 body=(lvar name=\x22_2\x22 expression=6-8) begin=3-5 end=9-12 expression=0-12)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0akDO_LAMBDA 3-5 do\x0atIDENTIFIER 6-8 _2\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"v\xffa(x\xffa) { _1 }", shape: b"(numblock call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])]) numargs=1 body=(lvar name=\x22_1\x22))", full: b"(numblock call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5)] selector=0-2 begin=2-3 end=5-6 expression=0-6) numargs=1 body=(lvar name=\x22_1\x22 expression=9-11) begin=7-8 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x01\x0atRPAREN 5-6 )\x0atLCURLY 7-8 {\x0atIDENTIFIER 9-11 _1\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"v\xffa x\xffa do _1 end", shape: b"(numblock call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])]) numargs=1 body=(lvar name=\x22_1\x22))", full: b"(numblock call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5)] selector=0-2 expression=0-5) numargs=1 body=(lvar name=\x22_1\x22 expression=9-11) begin=6-8 end=12-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 x\xff\x01\x0akDO_BLOCK 6-8 do\x0atIDENTIFIER 9-11 _1\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"super { _1 }", shape: b"(numblock call=(z_super) numargs=1 body=(lvar name=\x22_1\x22))", full: b"(numblock call=(z_super expression=0-5) numargs=1 body=(lvar name=\x22_1\x22 expression=8-10) begin=6-7 end=11-12 expression=0-12)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atLCURLY 6-7 {\x0atIDENTIFIER 8-10 _1\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"v\xffa { [_1, _3] }", shape: b"(numblock call=(send method_name=\x22v\xff\x00\x22 args=[]) numargs=3 body=(array elements=[(lvar name=\x22_1\x22) (lvar name=\x22_3\x22)]))", full: b"(numblock call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) numargs=3 body=(array elements=[(lvar name=\x22_1\x22 expression=6-8) (lvar name=\x22_3\x22 expression=10-12)] begin=5-6 end=12-13 expression=5-13) begin=3-4 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atLBRACK 5-6 [\x0atIDENTIFIER 6-8 _1\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 _3\x0atRBRACK 12-13 ]\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"v\xffa.x\xffa! y\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01!\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01!\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[] selector=7-9 expression=7-9)] dot=2-3 selector=3-6 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atFID 3-6 x\xff\x01!\x0atIDENTIFIER 7-9 y\xff\x02\x0aEOF 9-9 " },
    Rec { t: b"v\xffa.x\xffa? { y\xffa }", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01?\x22 args=[]) body=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01?\x22 args=[] dot=2-3 selector=3-6 expression=0-6) body=(send method_name=\x22y\xff\x02\x22 args=[] selector=9-11 expression=9-11) begin=7-8 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atFID 3-6 x\xff\x01?\x0atLCURLY 7-8 {\x0atIDENTIFIER 9-11 y\xff\x02\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"v\xffa::x\xffa!", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01!\x22 args=[])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01!\x22 args=[] dot=2-4 selector=4-7 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atFID 4-7 x\xff\x01!\x0aEOF 7-7 " },
    Rec { t: b"v\xffa { |x\xffa, y\xffa = \xffd, zo = \xffd| qo }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(arg name=\x22x\xff\x01\x22) (optarg name=\x22y\xff\x02\x22 default=(int value=\x22\xff\x03\x22)) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x04\x22))]) body=(send method_name=\x22qo\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22x\xff\x01\x22 expression=6-8) (optarg name=\x22y\xff\x02\x22 default=(int value=\x22\xff\x03\x22 expression=15-16) name=10-12 operator=13-14 expression=10-16) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x04\x22 expression=23-24) name=18-20 operator=21-22 expression=18-24)] expression=5-25 begin=5-6 end=24-25) body=(send method_name=\x22qo\x22 args=[] selector=26-28 expression=26-28) begin=3-4 end=29-30 expression=0-30)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 y\xff\x02\x0atEQL 13-14 =\x0atINTEGER 15-16 \xff\x03\x0atCOMMA 16-17 ,\x0atIDENTIFIER 18-20 zo\x0atEQL 21-22 =\x0atINTEGER 23-24 \xff\x04\x0atPIPE 24-25 |\x0atIDENTIFIER 26-28 qo\x0atRCURLY 29-30 }\x0aEOF 30-30 " },
    Rec { t: b"return v\xffa x\xffa do end", shape: b"(return args=[(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])]))])", full: b"(return args=[(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12)] selector=7-9 expression=7-12) begin=13-15 end=16-19 expression=7-19)] keyword=0-6 expression=0-19)", diag: b"", toks: b"\x0akRETURN 0-6 return\x0atIDENTIFIER 7-9 v\xff\x00\x0atIDENTIFIER 10-12 x\xff\x01\x0akDO_BLOCK 13-15 do\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"return v\xffa(\xffd) do x\xffa end", shape: b"(return args=[(block call=(send method_name=\x22v\xff\x00\x22 args=[(int value=\x22\xff\x01\x22)]) body=(send method_name=\x22x\xff\x02\x22 args=[]))])", full: b"(return args=[(block call=(send method_name=\x22v\xff\x00\x22 args=[(int value=\x22\xff\x01\x22 expression=10-11)] selector=7-9 begin=9-10 end=11-12 expression=7-12) body=(send method_name=\x22x\xff\x02\x22 args=[] selector=16-18 expression=16-18) begin=13-15 end=19-22 expression=7-22)] keyword=0-6 expression=0-22)", diag: b"", toks: b"\x0akRETURN 0-6 return\x0atIDENTIFIER 7-9 v\xff\x00\x0atLPAREN2 9-10 (\x0atINTEGER 10-11 \xff\x01\x0atRPAREN 11-12 )\x0akDO 13-15 do\x0atIDENTIFIER 16-18 x\xff\x02\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"break v\xffa x\xffa do end", shape: b"(break args=[(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])]))])", full: b"(break args=[(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=9-11 expression=9-11)] selector=6-8 expression=6-11) begin=12-14 end=15-18 expression=6-18)] keyword=0-5 expression=0-18)", diag: b"", toks: b"\x0akBREAK 0-5 break\x0atIDENTIFIER 6-8 v\xff\x00\x0atIDENTIFIER 9-11 x\xff\x01\x0akDO_BLOCK 12-14 do\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"next v\xffa x\xffa do end", shape: b"(next args=[(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])]))])", full: b"(next args=[(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=8-10 expression=8-10)] selector=5-7 expression=5-10) begin=11-13 end=14-17 expression=5-17)] keyword=0-4 expression=0-17)", diag: b"", toks: b"\x0akNEXT 0-4 next\x0atIDENTIFIER 5-7 v\xff\x00\x0atIDENTIFIER 8-10 x\xff\x01\x0akDO_BLOCK 11-13 do\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"return v\xffa x\xffa { \xffd }", shape: b"(return args=[(send method_name=\x22v\xff\x00\x22 args=[(block call=(send method_name=\x22x\xff\x01\x22 args=[]) body=(int value=\x22\xff\x02\x22))])])", full: b"(return args=[(send method_name=\x22v\xff\x00\x22 args=[(block call=(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12) body=(int value=\x22\xff\x02\x22 expression=15-16) begin=13-14 end=17-18 expression=10-18)] selector=7-9 expression=7-18)] keyword=0-6 expression=0-18)", diag: b"", toks: b"\x0akRETURN 0-6 return\x0atIDENTIFIER 7-9 v\xff\x00\x0atIDENTIFIER 10-12 x\xff\x01\x0atLCURLY 13-14 {\x0atINTEGER 15-16 \xff\x02\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"v\xffa x\xffa z\xffa do end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[])])]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[] selector=6-8 expression=6-8)] selector=3-5 expression=3-8)] selector=0-2 expression=0-8) begin=9-11 end=12-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 x\xff\x01\x0atIDENTIFIER 6-8 z\xff\x02\x0akDO_BLOCK 9-11 do\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"v\xffa x\xffa z\xffa { \xffd }", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[(block call=(send method_name=\x22z\xff\x02\x22 args=[]) body=(int value=\x22\xff\x03\x22))])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[(block call=(send method_name=\x22z\xff\x02\x22 args=[] selector=6-8 expression=6-8) body=(int value=\x22\xff\x03\x22 expression=11-12) begin=9-10 end=13-14 expression=6-14)] selector=3-5 expression=3-14)] selector=0-2 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 x\xff\x01\x0atIDENTIFIER 6-8 z\xff\x02\x0atLCURLY 9-10 {\x0atINTEGER 11-12 \xff\x03\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"v\xffa.x\xffa z\xffa { \xffd }", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(block call=(send method_name=\x22z\xff\x02\x22 args=[]) body=(int value=\x22\xff\x03\x22))])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(block call=(send method_name=\x22z\xff\x02\x22 args=[] selector=6-8 expression=6-8) body=(int value=\x22\xff\x03\x22 expression=11-12) begin=9-10 end=13-14 expression=6-14)] dot=2-3 selector=3-5 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atIDENTIFIER 6-8 z\xff\x02\x0atLCURLY 9-10 {\x0atINTEGER 11-12 \xff\x03\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"v\xffa x\xffa.y\xffa z\xffa { \xffd }", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(send recv=(send method_name=\x22x\xff\x01\x22 args=[]) method_name=\x22y\xff\x02\x22 args=[(block call=(send method_name=\x22z\xff\x03\x22 args=[]) body=(int value=\x22\xff\x04\x22))])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(send recv=(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) method_name=\x22y\xff\x02\x22 args=[(block call=(send method_name=\x22z\xff\x03\x22 args=[] selector=9-11 expression=9-11) body=(int value=\x22\xff\x04\x22 expression=14-15) begin=12-13 end=16-17 expression=9-17)] dot=5-6 selector=6-8 expression=3-17)] selector=0-2 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 x\xff\x01\x0atDOT 5-6 .\x0atIDENTIFIER 6-8 y\xff\x02\x0atIDENTIFIER 9-11 z\xff\x03\x0atLCURLY 12-13 {\x0atINTEGER 14-15 \xff\x04\x0atRCURLY 16-17 }\x0aEOF 17-17 " },
    Rec { t: b"v\xffa x\xffa::y\xffa z\xffa { \xffd }", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(send recv=(send method_name=\x22x\xff\x01\x22 args=[]) method_name=\x22y\xff\x02\x22 args=[(block call=(send method_name=\x22z\xff\x03\x22 args=[]) body=(int value=\x22\xff\x04\x22))])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(send recv=(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) method_name=\x22y\xff\x02\x22 args=[(block call=(send method_name=\x22z\xff\x03\x22 args=[] selector=10-12 expression=10-12) body=(int value=\x22\xff\x04\x22 expression=15-16) begin=13-14 end=17-18 expression=10-18)] dot=5-7 selector=7-9 expression=3-18)] selector=0-2 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 x\xff\x01\x0atCOLON2 5-7 ::\x0atIDENTIFIER 7-9 y\xff\x02\x0atIDENTIFIER 10-12 z\xff\x03\x0atLCURLY 13-14 {\x0atINTEGER 15-16 \xff\x04\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"v\xffa.x\xffa z\xffa do \xffd end", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[])]) body=(int value=\x22\xff\x03\x22))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[] selector=6-8 expression=6-8)] dot=2-3 selector=3-5 expression=0-8) body=(int value=\x22\xff\x03\x22 expression=12-13) begin=9-11 end=14-17 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atIDENTIFIER 6-8 z\xff\x02\x0akDO_BLOCK 9-11 do\x0atINTEGER 12-13 \xff\x03\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"v\xffa::x\xffa z\xffa do \xffd end", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[])]) body=(int value=\x22\xff\x03\x22))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[] selector=7-9 expression=7-9)] dot=2-4 selector=4-6 expression=0-9) body=(int value=\x22\xff\x03\x22 expression=13-14) begin=10-12 end=15-18 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atIDENTIFIER 4-6 x\xff\x01\x0atIDENTIFIER 7-9 z\xff\x02\x0akDO_BLOCK 10-12 do\x0atINTEGER 13-14 \xff\x03\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"v\xffa z\xffa do \xffd end.x\xffa", shape: b"(send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22z\xff\x01\x22 args=[])]) body=(int value=\x22\xff\x02\x22)) method_name=\x22x\xff\x03\x22 args=[])", full: b"(send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22z\xff\x01\x22 args=[] selector=3-5 expression=3-5)] selector=0-2 expression=0-5) body=(int value=\x22\xff\x02\x22 expression=9-10) begin=6-8 end=11-14 expression=0-14) method_name=\x22x\xff\x03\x22 args=[] dot=14-15 selector=15-17 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 z\xff\x01\x0akDO_BLOCK 6-8 do\x0atINTEGER 9-10 \xff\x02\x0akEND 11-14 end\x0atDOT 14-15 .\x0atIDENTIFIER 15-17 x\xff\x03\x0aEOF 17-17 " },
    Rec { t: b"v\xffa z\xffa do \xffd end.x\xffa y\xffa", shape: b"(send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22z\xff\x01\x22 args=[])]) body=(int value=\x22\xff\x02\x22)) method_name=\x22x\xff\x03\x22 args=[(send method_name=\x22y\xff\x04\x22 args=[])])", full: b"(send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22z\xff\x01\x22 args=[] selector=3-5 expression=3-5)] selector=0-2 expression=0-5) body=(int value=\x22\xff\x02\x22 expression=9-10) begin=6-8 end=11-14 expression=0-14) method_name=\x22x\xff\x03\x22 args=[(send method_name=\x22y\xff\x04\x22 args=[] selector=18-20 expression=18-20)] dot=14-15 selector=15-17 expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 z\xff\x01\x0akDO_BLOCK 6-8 do\x0atINTEGER 9-10 \xff\x02\x0akEND 11-14 end\x0atDOT 14-15 .\x0atIDENTIFIER 15-17 x\xff\x03\x0atIDENTIFIER 18-20 y\xff\x04\x0aEOF 20-20 " },
    Rec { t: b"v\xffa z\xffa do \xffd end.x\xffa(y\xffa)", shape: b"(send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22z\xff\x01\x22 args=[])]) body=(int value=\x22\xff\x02\x22)) method_name=\x22x\xff\x03\x22 args=[(send method_name=\x22y\xff\x04\x22 args=[])])", full: b"(send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22z\xff\x01\x22 args=[] selector=3-5 expression=3-5)] selector=0-2 expression=0-5) body=(int value=\x22\xff\x02\x22 expression=9-10) begin=6-8 end=11-14 expression=0-14) method_name=\x22x\xff\x03\x22 args=[(send method_name=\x22y\xff\x04\x22 args=[] selector=18-20 expression=18-20)] dot=14-15 selector=15-17 begin=17-18 end=20-21 expression=0-21)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 z\xff\x01\x0akDO_BLOCK 6-8 do\x0atINTEGER 9-10 \xff\x02\x0akEND 11-14 end\x0atDOT 14-15 .\x0atIDENTIFIER 15-17 x\xff\x03\x0atLPAREN2 17-18 (\x0atIDENTIFIER 18-20 y\xff\x04\x0atRPAREN 20-21 )\x0aEOF 21-21 " },
    Rec { t: b"v\xffa z\xffa do \xffd end.x\xffa { y\xffa }", shape: b"(block call=(send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22z\xff\x01\x22 args=[])]) body=(int value=\x22\xff\x02\x22)) method_name=\x22x\xff\x03\x22 args=[]) body=(send method_name=\x22y\xff\x04\x22 args=[]))", full: b"(block call=(send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22z\xff\x01\x22 args=[] selector=3-5 expression=3-5)] selector=0-2 expression=0-5) body=(int value=\x22\xff\x02\x22 expression=9-10) begin=6-8 end=11-14 expression=0-14) method_name=\x22x\xff\x03\x22 args=[] dot=14-15 selector=15-17 expression=0-17) body=(send method_name=\x22y\xff\x04\x22 args=[] selector=20-22 expression=20-22) begin=18-19 end=23-24 expression=0-24)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 z\xff\x01\x0akDO_BLOCK 6-8 do\x0atINTEGER 9-10 \xff\x02\x0akEND 11-14 end\x0atDOT 14-15 .\x0atIDENTIFIER 15-17 x\xff\x03\x0atLCURLY 18-19 {\x0atIDENTIFIER 20-22 y\xff\x04\x0atRCURLY 23-24 }\x0aEOF 24-24 " },
    Rec { t: b"v\xffa z\xffa do \xffd end.x\xffa(y\xffa) { yo }", shape: b"(block call=(send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22z\xff\x01\x22 args=[])]) body=(int value=\x22\xff\x02\x22)) method_name=\x22x\xff\x03\x22 args=[(send method_name=\x22y\xff\x04\x22 args=[])]) body=(send method_name=\x22yo\x22 args=[]))", full: b"(block call=(send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22z\xff\x01\x22 args=[] selector=3-5 expression=3-5)] selector=0-2 expression=0-5) body=(int value=\x22\xff\x02\x22 expression=9-10) begin=6-8 end=11-14 expression=0-14) method_name=\x22x\xff\x03\x22 args=[(send method_name=\x22y\xff\x04\x22 args=[] selector=18-20 expression=18-20)] dot=14-15 selector=15-17 begin=17-18 end=20-21 expression=0-21) body=(send method_name=\x22yo\x22 args=[] selector=24-26 expression=24-26) begin=22-23 end=27-28 expression=0-28)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 z\xff\x01\x0akDO_BLOCK 6-8 do\x0atINTEGER 9-10 \xff\x02\x0akEND 11-14 end\x0atDOT 14-15 .\x0atIDENTIFIER 15-17 x\xff\x03\x0atLPAREN2 17-18 (\x0atIDENTIFIER 18-20 y\xff\x04\x0atRPAREN 20-21 )\x0atLCURLY 22-23 {\x0atIDENTIFIER 24-26 yo\x0atRCURLY 27-28 }\x0aEOF 28-28 " },
    Rec { t: b"v\xffa z\xffa do \xffd end.x\xffa y\xffa do zo end", shape: b"(block call=(send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22z\xff\x01\x22 args=[])]) body=(int value=\x22\xff\x02\x22)) method_name=\x22x\xff\x03\x22 args=[(send method_name=\x22y\xff\x04\x22 args=[])]) body=(send method_name=\x22zo\x22 args=[]))", full: b"(block call=(send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22z\xff\x01\x22 args=[] selector=3-5 expression=3-5)] selector=0-2 expression=0-5) body=(int value=\x22\xff\x02\x22 expression=9-10) begin=6-8 end=11-14 expression=0-14) method_name=\x22x\xff\x03\x22 args=[(send method_name=\x22y\xff\x04\x22 args=[] selector=18-20 expression=18-20)] dot=14-15 selector=15-17 expression=0-20) body=(send method_name=\x22zo\x22 args=[] selector=24-26 expression=24-26) begin=21-23 end=27-30 expression=0-30)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 z\xff\x01\x0akDO_BLOCK 6-8 do\x0atINTEGER 9-10 \xff\x02\x0akEND 11-14 end\x0atDOT 14-15 .\x0atIDENTIFIER 15-17 x\xff\x03\x0atIDENTIFIER 18-20 y\xff\x04\x0akDO_BLOCK 21-23 do\x0atIDENTIFIER 24-26 zo\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"v\xffa z\xffa do \xffd end::x\xffa", shape: b"(send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22z\xff\x01\x22 args=[])]) body=(int value=\x22\xff\x02\x22)) method_name=\x22x\xff\x03\x22 args=[])", full: b"(send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22z\xff\x01\x22 args=[] selector=3-5 expression=3-5)] selector=0-2 expression=0-5) body=(int value=\x22\xff\x02\x22 expression=9-10) begin=6-8 end=11-14 expression=0-14) method_name=\x22x\xff\x03\x22 args=[] dot=14-16 selector=16-18 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 z\xff\x01\x0akDO_BLOCK 6-8 do\x0atINTEGER 9-10 \xff\x02\x0akEND 11-14 end\x0atCOLON2 14-16 ::\x0atIDENTIFIER 16-18 x\xff\x03\x0aEOF 18-18 " },
    Rec { t: b"v\xffa z\xffa do \xffd end::x\xffa(y\xffa)", shape: b"(send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22z\xff\x01\x22 args=[])]) body=(int value=\x22\xff\x02\x22)) method_name=\x22x\xff\x03\x22 args=[(send method_name=\x22y\xff\x04\x22 args=[])])", full: b"(send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22z\xff\x01\x22 args=[] selector=3-5 expression=3-5)] selector=0-2 expression=0-5) body=(int value=\x22\xff\x02\x22 expression=9-10) begin=6-8 end=11-14 expression=0-14) method_name=\x22x\xff\x03\x22 args=[(send method_name=\x22y\xff\x04\x22 args=[] selector=19-21 expression=19-21)] dot=14-16 selector=16-18 begin=18-19 end=21-22 expression=0-22)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 z\xff\x01\x0akDO_BLOCK 6-8 do\x0atINTEGER 9-10 \xff\x02\x0akEND 11-14 end\x0atCOLON2 14-16 ::\x0atIDENTIFIER 16-18 x\xff\x03\x0atLPAREN2 18-19 (\x0atIDENTIFIER 19-21 y\xff\x04\x0atRPAREN 21-22 )\x0aEOF 22-22 " },
    Rec { t: b"v\xffa z\xffa do \xffd end::x\xffa y\xffa", shape: b"(send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22z\xff\x01\x22 args=[])]) body=(int value=\x22\xff\x02\x22)) method_name=\x22x\xff\x03\x22 args=[(send method_name=\x22y\xff\x04\x22 args=[])])", full: b"(send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22z\xff\x01\x22 args=[] selector=3-5 expression=3-5)] selector=0-2 expression=0-5) body=(int value=\x22\xff\x02\x22 expression=9-10) begin=6-8 end=11-14 expression=0-14) method_name=\x22x\xff\x03\x22 args=[(send method_name=\x22y\xff\x04\x22 args=[] selector=19-21 expression=19-21)] dot=14-16 selector=16-18 expression=0-21)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 z\xff\x01\x0akDO_BLOCK 6-8 do\x0atINTEGER 9-10 \xff\x02\x0akEND 11-14 end\x0atCOLON2 14-16 ::\x0atIDENTIFIER 16-18 x\xff\x03\x0atIDENTIFIER 19-21 y\xff\x04\x0aEOF 21-21 " },
    Rec { t: b"v\xffa z\xffa do \xffd end&.x\xffa", shape: b"(c_send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22z\xff\x01\x22 args=[])]) body=(int value=\x22\xff\x02\x22)) method_name=\x22x\xff\x03\x22 args=[])", full: b"(c_send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22z\xff\x01\x22 args=[] selector=3-5 expression=3-5)] selector=0-2 expression=0-5) body=(int value=\x22\xff\x02\x22 expression=9-10) begin=6-8 end=11-14 expression=0-14) method_name=\x22x\xff\x03\x22 args=[] dot=14-16 selector=16-18 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 z\xff\x01\x0akDO_BLOCK 6-8 do\x0atINTEGER 9-10 \xff\x02\x0akEND 11-14 end\x0atANDDOT 14-16 &.\x0atIDENTIFIER 16-18 x\xff\x03\x0aEOF 18-18 " },
    Rec { t: b"v\xffa { \xffd }.x\xffa { y\xffa }", shape: b"(block call=(send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(int value=\x22\xff\x01\x22)) method_name=\x22x\xff\x02\x22 args=[]) body=(send method_name=\x22y\xff\x03\x22 args=[]))", full: b"(block call=(send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) body=(int value=\x22\xff\x01\x22 expression=5-6) begin=3-4 end=7-8 expression=0-8) method_name=\x22x\xff\x02\x22 args=[] dot=8-9 selector=9-11 expression=0-11) body=(send method_name=\x22y\xff\x03\x22 args=[] selector=14-16 expression=14-16) begin=12-13 end=17-18 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atINTEGER 5-6 \xff\x01\x0atRCURLY 7-8 }\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 x\xff\x02\x0atLCURLY 12-13 {\x0atIDENTIFIER 14-16 y\xff\x03\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"v\xffa { \xffd }::x\xffa { y\xffa }", shape: b"(block call=(send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[]) body=(int value=\x22\xff\x01\x22)) method_name=\x22x\xff\x02\x22 args=[]) body=(send method_name=\x22y\xff\x03\x22 args=[]))", full: b"(block call=(send recv=(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) body=(int value=\x22\xff\x01\x22 expression=5-6) begin=3-4 end=7-8 expression=0-8) method_name=\x22x\xff\x02\x22 args=[] dot=8-10 selector=10-12 expression=0-12) body=(send method_name=\x22y\xff\x03\x22 args=[] selector=15-17 expression=15-17) begin=13-14 end=18-19 expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atINTEGER 5-6 \xff\x01\x0atRCURLY 7-8 }\x0atCOLON2 8-10 ::\x0atIDENTIFIER 10-12 x\xff\x02\x0atLCURLY 13-14 {\x0atIDENTIFIER 15-17 y\xff\x03\x0atRCURLY 18-19 }\x0aEOF 19-19 " },
    Rec { t: b"v\xffa::V\xffb(x\xffa) { y\xffa }", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22V\xff\x01\x22 args=[(send method_name=\x22x\xff\x02\x22 args=[])]) body=(send method_name=\x22y\xff\x03\x22 args=[]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22V\xff\x01\x22 args=[(send method_name=\x22x\xff\x02\x22 args=[] selector=7-9 expression=7-9)] dot=2-4 selector=4-6 begin=6-7 end=9-10 expression=0-10) body=(send method_name=\x22y\xff\x03\x22 args=[] selector=13-15 expression=13-15) begin=11-12 end=16-17 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atCONSTANT 4-6 V\xff\x01\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x02\x0atRPAREN 9-10 )\x0atLCURLY 11-12 {\x0atIDENTIFIER 13-15 y\xff\x03\x0atRCURLY 16-17 }\x0aEOF 17-17 " },
    Rec { t: b"v\xffa.(x\xffa) { y\xffa }", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22call\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])]) body=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22call\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6)] dot=2-3 begin=3-4 end=6-7 expression=0-7) body=(send method_name=\x22y\xff\x02\x22 args=[] selector=10-12 expression=10-12) begin=8-9 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atLPAREN2 3-4 (\x0atIDENTIFIER 4-6 x\xff\x01\x0atRPAREN 6-7 )\x0atLCURLY 8-9 {\x0atIDENTIFIER 10-12 y\xff\x02\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"v\xffa::(x\xffa)", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22call\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22call\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7)] dot=2-4 begin=4-5 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atLPAREN2 4-5 (\x0atIDENTIFIER 5-7 x\xff\x01\x0atRPAREN 7-8 )\x0aEOF 8-8 " },
    Rec { t: b"v\xffa::(x\xffa) { y\xffa }", shape: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22call\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])]) body=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(block call=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22call\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7)] dot=2-4 begin=4-5 end=7-8 expression=0-8) body=(send method_name=\x22y\xff\x02\x22 args=[] selector=11-13 expression=11-13) begin=9-10 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atLPAREN2 4-5 (\x0atIDENTIFIER 5-7 x\xff\x01\x0atRPAREN 7-8 )\x0atLCURLY 9-10 {\x0atIDENTIFIER 11-13 y\xff\x02\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"v\xffa[x\xffa] { y\xffa }", shape: b"(block call=(index recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(send method_name=\x22x\xff\x01\x22 args=[])]) body=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(block call=(index recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5)] begin=2-3 end=5-6 expression=0-6) body=(send method_name=\x22y\xff\x02\x22 args=[] selector=9-11 expression=9-11) begin=7-8 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atIDENTIFIER 3-5 x\xff\x01\x0atRBRACK 5-6 ]\x0atLCURLY 7-8 {\x0atIDENTIFIER 9-11 y\xff\x02\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"super v\xffa do end", shape: b"(block call=(super args=[(send method_name=\x22v\xff\x00\x22 args=[])]))", full: b"(block call=(super args=[(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8)] keyword=0-5 expression=0-8) begin=9-11 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atIDENTIFIER 6-8 v\xff\x00\x0akDO_BLOCK 9-11 do\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"super(v\xffa) { x\xffa }", shape: b"(block call=(super args=[(send method_name=\x22v\xff\x00\x22 args=[])]) body=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(block call=(super args=[(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8)] keyword=0-5 begin=5-6 end=8-9 expression=0-9) body=(send method_name=\x22x\xff\x01\x22 args=[] selector=12-14 expression=12-14) begin=10-11 end=15-16 expression=0-16)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 v\xff\x00\x0atRPAREN 8-9 )\x0atLCURLY 10-11 {\x0atIDENTIFIER 12-14 x\xff\x01\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"v\xffa = x\xffa z\xffa do end", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(block call=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[])])))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(block call=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[] selector=8-10 expression=8-10)] selector=5-7 expression=5-10) begin=11-13 end=14-17 expression=5-17) name=0-2 operator=3-4 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atIDENTIFIER 5-7 x\xff\x01\x0atIDENTIFIER 8-10 z\xff\x02\x0akDO_BLOCK 11-13 do\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"v\xffa = x\xffa z\xffa do end.y\xffa", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(send recv=(block call=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[])])) method_name=\x22y\xff\x03\x22 args=[]))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(send recv=(block call=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[] selector=8-10 expression=8-10)] selector=5-7 expression=5-10) begin=11-13 end=14-17 expression=5-17) method_name=\x22y\xff\x03\x22 args=[] dot=17-18 selector=18-20 expression=5-20) name=0-2 operator=3-4 expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atIDENTIFIER 5-7 x\xff\x01\x0atIDENTIFIER 8-10 z\xff\x02\x0akDO_BLOCK 11-13 do\x0akEND 14-17 end\x0atDOT 17-18 .\x0atIDENTIFIER 18-20 y\xff\x03\x0aEOF 20-20 " },
    Rec { t: b"v\xffa { |x\xffa, zo = \xffd, *qo| y\xffa }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(arg name=\x22x\xff\x01\x22) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22)) (restarg name=\x22qo\x22)]) body=(send method_name=\x22y\xff\x03\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22x\xff\x01\x22 expression=6-8) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22 expression=15-16) name=10-12 operator=13-14 expression=10-16) (restarg name=\x22qo\x22 operator=18-19 name=19-21 expression=18-21)] expression=5-22 begin=5-6 end=21-22) body=(send method_name=\x22y\xff\x03\x22 args=[] selector=23-25 expression=23-25) begin=3-4 end=26-27 expression=0-27)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 zo\x0atEQL 13-14 =\x0atINTEGER 15-16 \xff\x02\x0atCOMMA 16-17 ,\x0atSTAR 18-19 *\x0atIDENTIFIER 19-21 qo\x0atPIPE 21-22 |\x0atIDENTIFIER 23-25 y\xff\x03\x0atRCURLY 26-27 }\x0aEOF 27-27 " },
    Rec { t: b"v\xffa { |x\xffa, zo = \xffd, *qo, ko| y\xffa }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(arg name=\x22x\xff\x01\x22) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22)) (restarg name=\x22qo\x22) (arg name=\x22ko\x22)]) body=(send method_name=\x22y\xff\x03\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22x\xff\x01\x22 expression=6-8) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22 expression=15-16) name=10-12 operator=13-14 expression=10-16) (restarg name=\x22qo\x22 operator=18-19 name=19-21 expression=18-21) (arg name=\x22ko\x22 expression=23-25)] expression=5-26 begin=5-6 end=25-26) body=(send method_name=\x22y\xff\x03\x22 args=[] selector=27-29 expression=27-29) begin=3-4 end=30-31 expression=0-31)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 zo\x0atEQL 13-14 =\x0atINTEGER 15-16 \xff\x02\x0atCOMMA 16-17 ,\x0atSTAR 18-19 *\x0atIDENTIFIER 19-21 qo\x0atCOMMA 21-22 ,\x0atIDENTIFIER 23-25 ko\x0atPIPE 25-26 |\x0atIDENTIFIER 27-29 y\xff\x03\x0atRCURLY 30-31 }\x0aEOF 31-31 " },
    Rec { t: b"v\xffa { |x\xffa, zo = \xffd, ko| y\xffa }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(arg name=\x22x\xff\x01\x22) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22)) (arg name=\x22ko\x22)]) body=(send method_name=\x22y\xff\x03\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22x\xff\x01\x22 expression=6-8) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22 expression=15-16) name=10-12 operator=13-14 expression=10-16) (arg name=\x22ko\x22 expression=18-20)] expression=5-21 begin=5-6 end=20-21) body=(send method_name=\x22y\xff\x03\x22 args=[] selector=22-24 expression=22-24) begin=3-4 end=25-26 expression=0-26)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 zo\x0atEQL 13-14 =\x0atINTEGER 15-16 \xff\x02\x0atCOMMA 16-17 ,\x0atIDENTIFIER 18-20 ko\x0atPIPE 20-21 |\x0atIDENTIFIER 22-24 y\xff\x03\x0atRCURLY 25-26 }\x0aEOF 26-26 " },
    Rec { t: b"v\xffa { |x\xffa, *qo, ko| y\xffa }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(arg name=\x22x\xff\x01\x22) (restarg name=\x22qo\x22) (arg name=\x22ko\x22)]) body=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22x\xff\x01\x22 expression=6-8) (restarg name=\x22qo\x22 operator=10-11 name=11-13 expression=10-13) (arg name=\x22ko\x22 expression=15-17)] expression=5-18 begin=5-6 end=17-18) body=(send method_name=\x22y\xff\x02\x22 args=[] selector=19-21 expression=19-21) begin=3-4 end=22-23 expression=0-23)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atCOMMA 8-9 ,\x0atSTAR 10-11 *\x0atIDENTIFIER 11-13 qo\x0atCOMMA 13-14 ,\x0atIDENTIFIER 15-17 ko\x0atPIPE 17-18 |\x0atIDENTIFIER 19-21 y\xff\x02\x0atRCURLY 22-23 }\x0aEOF 23-23 " },
    Rec { t: b"v\xffa { |x\xffa = \xffd, *qo| y\xffa }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (restarg name=\x22qo\x22)]) body=(send method_name=\x22y\xff\x03\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=11-12) name=6-8 operator=9-10 expression=6-12) (restarg name=\x22qo\x22 operator=14-15 name=15-17 expression=14-17)] expression=5-18 begin=5-6 end=17-18) body=(send method_name=\x22y\xff\x03\x22 args=[] selector=19-21 expression=19-21) begin=3-4 end=22-23 expression=0-23)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atEQL 9-10 =\x0atINTEGER 11-12 \xff\x02\x0atCOMMA 12-13 ,\x0atSTAR 14-15 *\x0atIDENTIFIER 15-17 qo\x0atPIPE 17-18 |\x0atIDENTIFIER 19-21 y\xff\x03\x0atRCURLY 22-23 }\x0aEOF 23-23 " },
    Rec { t: b"v\xffa { |x\xffa = \xffd, *qo, ko| y\xffa }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (restarg name=\x22qo\x22) (arg name=\x22ko\x22)]) body=(send method_name=\x22y\xff\x03\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=11-12) name=6-8 operator=9-10 expression=6-12) (restarg name=\x22qo\x22 operator=14-15 name=15-17 expression=14-17) (arg name=\x22ko\x22 expression=19-21)] expression=5-22 begin=5-6 end=21-22) body=(send method_name=\x22y\xff\x03\x22 args=[] selector=23-25 expression=23-25) begin=3-4 end=26-27 expression=0-27)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atEQL 9-10 =\x0atINTEGER 11-12 \xff\x02\x0atCOMMA 12-13 ,\x0atSTAR 14-15 *\x0atIDENTIFIER 15-17 qo\x0atCOMMA 17-18 ,\x0atIDENTIFIER 19-21 ko\x0atPIPE 21-22 |\x0atIDENTIFIER 23-25 y\xff\x03\x0atRCURLY 26-27 }\x0aEOF 27-27 " },
    Rec { t: b"v\xffa { |x\xffa = \xffd, ko| y\xffa }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (arg name=\x22ko\x22)]) body=(send method_name=\x22y\xff\x03\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=11-12) name=6-8 operator=9-10 expression=6-12) (arg name=\x22ko\x22 expression=14-16)] expression=5-17 begin=5-6 end=16-17) body=(send method_name=\x22y\xff\x03\x22 args=[] selector=18-20 expression=18-20) begin=3-4 end=21-22 expression=0-22)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atEQL 9-10 =\x0atINTEGER 11-12 \xff\x02\x0atCOMMA 12-13 ,\x0atIDENTIFIER 14-16 ko\x0atPIPE 16-17 |\x0atIDENTIFIER 18-20 y\xff\x03\x0atRCURLY 21-22 }\x0aEOF 22-22 " },
    Rec { t: b"v\xffa { |x\xffa = \xffd, ko = \xffd| y\xffa }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (optarg name=\x22ko\x22 default=(int value=\x22\xff\x03\x22))]) body=(send method_name=\x22y\xff\x04\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=11-12) name=6-8 operator=9-10 expression=6-12) (optarg name=\x22ko\x22 default=(int value=\x22\xff\x03\x22 expression=19-20) name=14-16 operator=17-18 expression=14-20)] expression=5-21 begin=5-6 end=20-21) body=(send method_name=\x22y\xff\x04\x22 args=[] selector=22-24 expression=22-24) begin=3-4 end=25-26 expression=0-26)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atEQL 9-10 =\x0atINTEGER 11-12 \xff\x02\x0atCOMMA 12-13 ,\x0atIDENTIFIER 14-16 ko\x0atEQL 17-18 =\x0atINTEGER 19-20 \xff\x03\x0atPIPE 20-21 |\x0atIDENTIFIER 22-24 y\xff\x04\x0atRCURLY 25-26 }\x0aEOF 26-26 " },
    Rec { t: b"v\xffa { |*x\xffa, ko| y\xffa }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(restarg name=\x22x\xff\x01\x22) (arg name=\x22ko\x22)]) body=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(restarg name=\x22x\xff\x01\x22 operator=6-7 name=7-9 expression=6-9) (arg name=\x22ko\x22 expression=11-13)] expression=5-14 begin=5-6 end=13-14) body=(send method_name=\x22y\xff\x02\x22 args=[] selector=15-17 expression=15-17) begin=3-4 end=18-19 expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atSTAR 6-7 *\x0atIDENTIFIER 7-9 x\xff\x01\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 ko\x0atPIPE 13-14 |\x0atIDENTIFIER 15-17 y\xff\x02\x0atRCURLY 18-19 }\x0aEOF 19-19 " },
    Rec { t: b"v\xffa { |x\xffa, ko:, &wo| y\xffa }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(arg name=\x22x\xff\x01\x22) (kwarg name=\x22ko\x22) (blockarg name=\x22wo\x22)]) body=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22x\xff\x01\x22 expression=6-8) (kwarg name=\x22ko\x22 name=10-12 expression=10-13) (blockarg name=\x22wo\x22 operator=15-16 name=16-18 expression=15-18)] expression=5-19 begin=5-6 end=18-19) body=(send method_name=\x22y\xff\x02\x22 args=[] selector=20-22 expression=20-22) begin=3-4 end=23-24 expression=0-24)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atCOMMA 8-9 ,\x0atLABEL 10-13 ko\x0atCOMMA 13-14 ,\x0atAMPER 15-16 &\x0atIDENTIFIER 16-18 wo\x0atPIPE 18-19 |\x0atIDENTIFIER 20-22 y\xff\x02\x0atRCURLY 23-24 }\x0aEOF 24-24 " },
    Rec { t: b"v\xffa { |x\xffa, **wo| y\xffa }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(arg name=\x22x\xff\x01\x22) (kwrestarg name=\x22wo\x22)]) body=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22x\xff\x01\x22 expression=6-8) (kwrestarg name=\x22wo\x22 operator=10-12 name=12-14 expression=10-14)] expression=5-15 begin=5-6 end=14-15) body=(send method_name=\x22y\xff\x02\x22 args=[] selector=16-18 expression=16-18) begin=3-4 end=19-20 expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atCOMMA 8-9 ,\x0atDSTAR 10-12 **\x0atIDENTIFIER 12-14 wo\x0atPIPE 14-15 |\x0atIDENTIFIER 16-18 y\xff\x02\x0atRCURLY 19-20 }\x0aEOF 20-20 " },
    Rec { t: b"v\xffa { |*, x\xffa| y\xffa }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(restarg) (arg name=\x22x\xff\x01\x22)]) body=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(restarg operator=6-7 expression=6-7) (arg name=\x22x\xff\x01\x22 expression=9-11)] expression=5-12 begin=5-6 end=11-12) body=(send method_name=\x22y\xff\x02\x22 args=[] selector=13-15 expression=13-15) begin=3-4 end=16-17 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atSTAR 6-7 *\x0atCOMMA 7-8 ,\x0atIDENTIFIER 9-11 x\xff\x01\x0atPIPE 11-12 |\x0atIDENTIFIER 13-15 y\xff\x02\x0atRCURLY 16-17 }\x0aEOF 17-17 " },
    Rec { t: b"v\xffa { |x\xffa, (y\xffa, *zo)| \xffd }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(arg name=\x22x\xff\x01\x22) (mlhs items=[(arg name=\x22y\xff\x02\x22) (restarg name=\x22zo\x22)])]) body=(int value=\x22\xff\x03\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22x\xff\x01\x22 expression=6-8) (mlhs items=[(arg name=\x22y\xff\x02\x22 expression=11-13) (restarg name=\x22zo\x22 operator=15-16 name=16-18 expression=15-18)] begin=10-11 end=18-19 expression=10-19)] expression=5-20 begin=5-6 end=19-20) body=(int value=\x22\xff\x03\x22 expression=21-22) begin=3-4 end=23-24 expression=0-24)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atCOMMA 8-9 ,\x0atLPAREN 10-11 (\x0atIDENTIFIER 11-13 y\xff\x02\x0atCOMMA 13-14 ,\x0atSTAR 15-16 *\x0atIDENTIFIER 16-18 zo\x0atRPAREN 18-19 )\x0atPIPE 19-20 |\x0atINTEGER 21-22 \xff\x03\x0atRCURLY 23-24 }\x0aEOF 24-24 " },
    Rec { t: b"v\xffa { |(y\xffa, (zo, qo)), *| \xffd }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(mlhs items=[(arg name=\x22y\xff\x01\x22) (mlhs items=[(arg name=\x22zo\x22) (arg name=\x22qo\x22)])]) (restarg)]) body=(int value=\x22\xff\x02\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(mlhs items=[(arg name=\x22y\xff\x01\x22 expression=7-9) (mlhs items=[(arg name=\x22zo\x22 expression=12-14) (arg name=\x22qo\x22 expression=16-18)] begin=11-12 end=18-19 expression=11-19)] begin=6-7 end=19-20 expression=6-20) (restarg operator=22-23 expression=22-23)] expression=5-24 begin=5-6 end=23-24) body=(int value=\x22\xff\x02\x22 expression=25-26) begin=3-4 end=27-28 expression=0-28)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atLPAREN 6-7 (\x0atIDENTIFIER 7-9 y\xff\x01\x0atCOMMA 9-10 ,\x0atLPAREN 11-12 (\x0atIDENTIFIER 12-14 zo\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-18 qo\x0atRPAREN 18-19 )\x0atRPAREN 19-20 )\x0atCOMMA 20-21 ,\x0atSTAR 22-23 *\x0atPIPE 23-24 |\x0atINTEGER 25-26 \xff\x02\x0atRCURLY 27-28 }\x0aEOF 28-28 " },
    Rec { t: b"v\xffa { |(*y\xffa, zo)| \xffd }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(restarg name=\x22y\xff\x01\x22) (arg name=\x22zo\x22)])]) body=(int value=\x22\xff\x02\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(restarg name=\x22y\xff\x01\x22 operator=7-8 name=8-10 expression=7-10) (arg name=\x22zo\x22 expression=12-14)] begin=6-7 end=14-15 expression=6-15)] expression=5-16 begin=5-6 end=15-16) body=(int value=\x22\xff\x02\x22 expression=17-18) begin=3-4 end=19-20 expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atLPAREN 6-7 (\x0atSTAR 7-8 *\x0atIDENTIFIER 8-10 y\xff\x01\x0atCOMMA 10-11 ,\x0atIDENTIFIER 12-14 zo\x0atRPAREN 14-15 )\x0atPIPE 15-16 |\x0atINTEGER 17-18 \xff\x02\x0atRCURLY 19-20 }\x0aEOF 20-20 " },
    Rec { t: b"v\xffa { |(*)| \xffd }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(restarg)])]) body=(int value=\x22\xff\x01\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(restarg operator=7-8 expression=7-8)] begin=6-7 end=8-9 expression=6-9)] expression=5-10 begin=5-6 end=9-10) body=(int value=\x22\xff\x01\x22 expression=11-12) begin=3-4 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atLPAREN 6-7 (\x0atSTAR 7-8 *\x0atRPAREN 8-9 )\x0atPIPE 9-10 |\x0atINTEGER 11-12 \xff\x01\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"v\xffa { |(y\xffa, *)| \xffd }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22y\xff\x01\x22) (restarg)])]) body=(int value=\x22\xff\x02\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22y\xff\x01\x22 expression=7-9) (restarg operator=11-12 expression=11-12)] begin=6-7 end=12-13 expression=6-13)] expression=5-14 begin=5-6 end=13-14) body=(int value=\x22\xff\x02\x22 expression=15-16) begin=3-4 end=17-18 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atLPAREN 6-7 (\x0atIDENTIFIER 7-9 y\xff\x01\x0atCOMMA 9-10 ,\x0atSTAR 11-12 *\x0atRPAREN 12-13 )\x0atPIPE 13-14 |\x0atINTEGER 15-16 \xff\x02\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"v\xffa { |(y\xffa, *, zo)| \xffd }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22y\xff\x01\x22) (restarg) (arg name=\x22zo\x22)])]) body=(int value=\x22\xff\x02\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22y\xff\x01\x22 expression=7-9) (restarg operator=11-12 expression=11-12) (arg name=\x22zo\x22 expression=14-16)] begin=6-7 end=16-17 expression=6-17)] expression=5-18 begin=5-6 end=17-18) body=(int value=\x22\xff\x02\x22 expression=19-20) begin=3-4 end=21-22 expression=0-22)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atLPAREN 6-7 (\x0atIDENTIFIER 7-9 y\xff\x01\x0atCOMMA 9-10 ,\x0atSTAR 11-12 *\x0atCOMMA 12-13 ,\x0atIDENTIFIER 14-16 zo\x0atRPAREN 16-17 )\x0atPIPE 17-18 |\x0atINTEGER 19-20 \xff\x02\x0atRCURLY 21-22 }\x0aEOF 22-22 " },
    Rec { t: b"v\xffa { |(*, zo)| \xffd }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(restarg) (arg name=\x22zo\x22)])]) body=(int value=\x22\xff\x01\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(restarg operator=7-8 expression=7-8) (arg name=\x22zo\x22 expression=10-12)] begin=6-7 end=12-13 expression=6-13)] expression=5-14 begin=5-6 end=13-14) body=(int value=\x22\xff\x01\x22 expression=15-16) begin=3-4 end=17-18 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atLPAREN 6-7 (\x0atSTAR 7-8 *\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 zo\x0atRPAREN 12-13 )\x0atPIPE 13-14 |\x0atINTEGER 15-16 \xff\x01\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"v\xffa { |x\xffa; y\xffa, zo| \xffd }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22)]) (shadowarg name=\x22y\xff\x02\x22) (shadowarg name=\x22zo\x22)]) body=(int value=\x22\xff\x03\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22 expression=6-8)] expression=6-8) (shadowarg name=\x22y\xff\x02\x22 expression=10-12) (shadowarg name=\x22zo\x22 expression=14-16)] expression=5-17 begin=5-6 end=16-17) body=(int value=\x22\xff\x03\x22 expression=18-19) begin=3-4 end=20-21 expression=0-21)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atSEMI 8-9 ;\x0atIDENTIFIER 10-12 y\xff\x02\x0atCOMMA 12-13 ,\x0atIDENTIFIER 14-16 zo\x0atPIPE 16-17 |\x0atINTEGER 18-19 \xff\x03\x0atRCURLY 20-21 }\x0aEOF 21-21 " },
    Rec { t: b"v\xffa { |; y\xffa| \xffd }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(shadowarg name=\x22y\xff\x01\x22)]) body=(int value=\x22\xff\x02\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(shadowarg name=\x22y\xff\x01\x22 expression=8-10)] expression=5-11 begin=5-6 end=10-11) body=(int value=\x22\xff\x02\x22 expression=12-13) begin=3-4 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 y\xff\x01\x0atPIPE 10-11 |\x0atINTEGER 12-13 \xff\x02\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"v\xffa { |\x0ax\xffa\x0a| \xffd }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22)])]) body=(int value=\x22\xff\x02\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22 expression=7-9)] expression=7-9)] expression=5-11 begin=5-6 end=10-11) body=(int value=\x22\xff\x02\x22 expression=12-13) begin=3-4 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 7-9 x\xff\x01\x0atNL 9-10 \x0a\x0atPIPE 10-11 |\x0atINTEGER 12-13 \xff\x02\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"v\xffa { |x\xffa; y\xffa\x0a| \xffd }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22)]) (shadowarg name=\x22y\xff\x02\x22)]) body=(int value=\x22\xff\x03\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22 expression=6-8)] expression=6-8) (shadowarg name=\x22y\xff\x02\x22 expression=10-12)] expression=5-14 begin=5-6 end=13-14) body=(int value=\x22\xff\x03\x22 expression=15-16) begin=3-4 end=17-18 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atSEMI 8-9 ;\x0atIDENTIFIER 10-12 y\xff\x02\x0atNL 12-13 \x0a\x0atPIPE 13-14 |\x0atINTEGER 15-16 \xff\x03\x0atRCURLY 17-18 }\x0aEOF 18-18 " },
    Rec { t: b"v\xffa { |x\xffa,| \xffd }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(arg name=\x22x\xff\x01\x22)]) body=(int value=\x22\xff\x02\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(arg name=\x22x\xff\x01\x22 expression=6-8)] expression=5-10 begin=5-6 end=9-10) body=(int value=\x22\xff\x02\x22 expression=11-12) begin=3-4 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atIDENTIFIER 6-8 x\xff\x01\x0atCOMMA 8-9 ,\x0atPIPE 9-10 |\x0atINTEGER 11-12 \xff\x02\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"v\xffa { | | \xffd }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[]) body=(int value=\x22\xff\x01\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[] expression=5-8 begin=5-6 end=7-8) body=(int value=\x22\xff\x01\x22 expression=9-10) begin=3-4 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLCURLY 3-4 {\x0atPIPE 5-6 |\x0atPIPE 7-8 |\x0atINTEGER 9-10 \xff\x01\x0atRCURLY 11-12 }\x0aEOF 12-12 " },
    Rec { t: b"v\xffa do |x\xffa| y\xffa; rescue; zo; else; qo; ensure; ko; end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[]) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22)])]) body=(ensure body=(rescue body=(send method_name=\x22y\xff\x02\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22zo\x22 args=[]))] else_=(send method_name=\x22qo\x22 args=[])) ensure=(send method_name=\x22ko\x22 args=[])))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) args=(args args=[(procarg0 args=[(arg name=\x22x\xff\x01\x22 expression=7-9)] expression=7-9)] expression=6-10 begin=6-7 end=9-10) body=(ensure body=(rescue body=(send method_name=\x22y\xff\x02\x22 args=[] selector=11-13 expression=11-13) rescue_bodies=[(rescue_body body=(send method_name=\x22zo\x22 args=[] selector=23-25 expression=23-25) keyword=15-21 begin=21-22 expression=15-25)] else_=(send method_name=\x22qo\x22 args=[] selector=33-35 expression=33-35) else=27-31 expression=11-35) ensure=(send method_name=\x22ko\x22 args=[] selector=45-47 expression=45-47) keyword=37-43 expression=11-47) begin=3-5 end=49-52 expression=0-52)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDO 3-5 do\x0atPIPE 6-7 |\x0atIDENTIFIER 7-9 x\xff\x01\x0atPIPE 9-10 |\x0atIDENTIFIER 11-13 y\xff\x02\x0atSEMI 13-14 ;\x0akRESCUE 15-21 rescue\x0atSEMI 21-22 ;\x0atIDENTIFIER 23-25 zo\x0atSEMI 25-26 ;\x0akELSE 27-31 else\x0atSEMI 31-32 ;\x0atIDENTIFIER 33-35 qo\x0atSEMI 35-36 ;\x0akENSURE 37-43 ensure\x0atSEMI 43-44 ;\x0atIDENTIFIER 45-47 ko\x0atSEMI 47-48 ;\x0akEND 49-52 end\x0aEOF 52-52 " },
    Rec { t: b"->(x\xffa, y\xffa = \xffd, *zo) { \xffd }", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22) (optarg name=\x22y\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (restarg name=\x22zo\x22)]) body=(int value=\x22\xff\x03\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=3-5) (optarg name=\x22y\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=12-13) name=7-9 operator=10-11 expression=7-13) (restarg name=\x22zo\x22 operator=15-16 name=16-18 expression=15-18)] expression=2-19 begin=2-3 end=18-19) body=(int value=\x22\xff\x03\x22 expression=22-23) begin=20-21 end=24-25 expression=0-25)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atCOMMA 5-6 ,\x0atIDENTIFIER 7-9 y\xff\x01\x0atEQL 10-11 =\x0atINTEGER 12-13 \xff\x02\x0atCOMMA 13-14 ,\x0atSTAR 15-16 *\x0atIDENTIFIER 16-18 zo\x0atRPAREN 18-19 )\x0atLAMBEG 20-21 {\x0atINTEGER 22-23 \xff\x03\x0atRCURLY 24-25 }\x0aEOF 25-25 " },
    Rec { t: b"->(x\xffa; y\xffa) { \xffd }", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22) (shadowarg name=\x22y\xff\x01\x22)]) body=(int value=\x22\xff\x02\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=3-5) (shadowarg name=\x22y\xff\x01\x22 expression=7-9)] expression=2-10 begin=2-3 end=9-10) body=(int value=\x22\xff\x02\x22 expression=13-14) begin=11-12 end=15-16 expression=0-16)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x00\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 y\xff\x01\x0atRPAREN 9-10 )\x0atLAMBEG 11-12 {\x0atINTEGER 13-14 \xff\x02\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"-> x\xffa, y\xffa { \xffd }", shape: b"(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x00\x22) (arg name=\x22y\xff\x01\x22)]) body=(int value=\x22\xff\x02\x22))", full: b"(block call=(lambda expression=0-2) args=(args args=[(arg name=\x22x\xff\x00\x22 expression=3-5) (arg name=\x22y\xff\x01\x22 expression=7-9)] expression=3-9) body=(int value=\x22\xff\x02\x22 expression=12-13) begin=10-11 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atIDENTIFIER 3-5 x\xff\x00\x0atCOMMA 5-6 ,\x0atIDENTIFIER 7-9 y\xff\x01\x0atLAMBEG 10-11 {\x0atINTEGER 12-13 \xff\x02\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"-> x\xffa: \xffd { y\xffa }", shape: b"(block call=(lambda) args=(args args=[(kwoptarg name=\x22x\xff\x00\x22 default=(int value=\x22\xff\x01\x22))]) body=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(block call=(lambda expression=0-2) args=(args args=[(kwoptarg name=\x22x\xff\x00\x22 default=(int value=\x22\xff\x01\x22 expression=7-8) name=3-5 expression=3-8)] expression=3-8) body=(send method_name=\x22y\xff\x02\x22 args=[] selector=11-13 expression=11-13) begin=9-10 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLABEL 3-6 x\xff\x00\x0atINTEGER 7-8 \xff\x01\x0atLAMBEG 9-10 {\x0atIDENTIFIER 11-13 y\xff\x02\x0atRCURLY 14-15 }\x0aEOF 15-15 " },
    Rec { t: b"-> { x\xffa } => z\xffa", shape: b"(match_pattern value=(block call=(lambda) body=(send method_name=\x22x\xff\x00\x22 args=[])) pattern=(match_var name=\x22z\xff\x01\x22))", full: b"(match_pattern value=(block call=(lambda expression=0-2) body=(send method_name=\x22x\xff\x00\x22 args=[] selector=5-7 expression=5-7) begin=3-4 end=8-9 expression=0-9) pattern=(match_var name=\x22z\xff\x01\x22 name=13-15 expression=13-15) operator=10-12 expression=0-15)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLAMBEG 3-4 {\x0atIDENTIFIER 5-7 x\xff\x00\x0atRCURLY 8-9 }\x0atASSOC 10-12 =>\x0atIDENTIFIER 13-15 z\xff\x01\x0aEOF 15-15 " },
    Rec { t: b"-> do x\xffa; rescue; z\xffa end", shape: b"(block call=(lambda) body=(rescue body=(send method_name=\x22x\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22z\xff\x01\x22 args=[]))]))", full: b"(block call=(lambda expression=0-2) body=(rescue body=(send method_name=\x22x\xff\x00\x22 args=[] selector=6-8 expression=6-8) rescue_bodies=[(rescue_body body=(send method_name=\x22z\xff\x01\x22 args=[] selector=18-20 expression=18-20) keyword=10-16 begin=16-17 expression=10-20)] expression=6-20) begin=3-5 end=21-24 expression=0-24)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0akDO_LAMBDA 3-5 do\x0atIDENTIFIER 6-8 x\xff\x00\x0atSEMI 8-9 ;\x0akRESCUE 10-16 rescue\x0atSEMI 16-17 ;\x0atIDENTIFIER 18-20 z\xff\x01\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"->() do end", shape: b"(block call=(lambda) args=(args args=[]))", full: b"(block call=(lambda expression=0-2) args=(args args=[] expression=2-4 begin=2-3 end=3-4) begin=5-7 end=8-11 expression=0-11)", diag: b"", toks: b"\x0atLAMBDA 0-2 ->\x0atLPAREN2 2-3 (\x0atRPAREN 3-4 )\x0akDO_LAMBDA 5-7 do\x0akEND 8-11 end\x0aEOF 11-11 " },
    Rec { t: b"v\xffa ->(x\xffa) do y\xffa end", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x01\x22)]) body=(send method_name=\x22y\xff\x02\x22 args=[]))])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(block call=(lambda expression=3-5) args=(args args=[(arg name=\x22x\xff\x01\x22 expression=6-8)] expression=5-9 begin=5-6 end=8-9) body=(send method_name=\x22y\xff\x02\x22 args=[] selector=13-15 expression=13-15) begin=10-12 end=16-19 expression=3-19)] selector=0-2 expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLAMBDA 3-5 ->\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 x\xff\x01\x0atRPAREN 8-9 )\x0akDO_LAMBDA 10-12 do\x0atIDENTIFIER 13-15 y\xff\x02\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"v\xffa -> x\xffa do y\xffa end", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x01\x22)]) body=(send method_name=\x22y\xff\x02\x22 args=[]))])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(block call=(lambda expression=3-5) args=(args args=[(arg name=\x22x\xff\x01\x22 expression=6-8)] expression=6-8) body=(send method_name=\x22y\xff\x02\x22 args=[] selector=12-14 expression=12-14) begin=9-11 end=15-18 expression=3-18)] selector=0-2 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLAMBDA 3-5 ->\x0atIDENTIFIER 6-8 x\xff\x01\x0akDO_LAMBDA 9-11 do\x0atIDENTIFIER 12-14 y\xff\x02\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"v\xffa x\xffa, -> do y\xffa end do z\xffa end", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[]) (block call=(lambda) body=(send method_name=\x22y\xff\x02\x22 args=[]))]) body=(send method_name=\x22z\xff\x03\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) (block call=(lambda expression=7-9) body=(send method_name=\x22y\xff\x02\x22 args=[] selector=13-15 expression=13-15) begin=10-12 end=16-19 expression=7-19)] selector=0-2 expression=0-19) body=(send method_name=\x22z\xff\x03\x22 args=[] selector=23-25 expression=23-25) begin=20-22 end=26-29 expression=0-29)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 x\xff\x01\x0atCOMMA 5-6 ,\x0atLAMBDA 7-9 ->\x0akDO_LAMBDA 10-12 do\x0atIDENTIFIER 13-15 y\xff\x02\x0akEND 16-19 end\x0akDO_BLOCK 20-22 do\x0atIDENTIFIER 23-25 z\xff\x03\x0akEND 26-29 end\x0aEOF 29-29 " },
];
pub static PARAMS: &[Rec] = &[
    Rec { t: b"def v\xffa(x\xffa, zo = \xffd, *qo); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22)) (restarg name=\x22qo\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22 expression=16-17) name=11-13 operator=14-15 expression=11-17) (restarg name=\x22qo\x22 operator=19-20 name=20-22 expression=19-22)] expression=6-23 begin=6-7 end=22-23) keyword=0-3 name=4-6 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 zo\x0atEQL 14-15 =\x0atINTEGER 16-17 \xff\x02\x0atCOMMA 17-18 ,\x0atSTAR 19-20 *\x0atIDENTIFIER 20-22 qo\x0atRPAREN 22-23 )\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"def v\xffa(x\xffa, zo = \xffd, *qo, ko); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22)) (restarg name=\x22qo\x22) (arg name=\x22ko\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22 expression=16-17) name=11-13 operator=14-15 expression=11-17) (restarg name=\x22qo\x22 operator=19-20 name=20-22 expression=19-22) (arg name=\x22ko\x22 expression=24-26)] expression=6-27 begin=6-7 end=26-27) keyword=0-3 name=4-6 end=29-32 expression=0-32)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 zo\x0atEQL 14-15 =\x0atINTEGER 16-17 \xff\x02\x0atCOMMA 17-18 ,\x0atSTAR 19-20 *\x0atIDENTIFIER 20-22 qo\x0atCOMMA 22-23 ,\x0atIDENTIFIER 24-26 ko\x0atRPAREN 26-27 )\x0atSEMI 27-28 ;\x0akEND 29-32 end\x0aEOF 32-32 " },
    Rec { t: b"def v\xffa(x\xffa, zo = \xffd, ko); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22)) (arg name=\x22ko\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9) (optarg name=\x22zo\x22 default=(int value=\x22\xff\x02\x22 expression=16-17) name=11-13 operator=14-15 expression=11-17) (arg name=\x22ko\x22 expression=19-21)] expression=6-22 begin=6-7 end=21-22) keyword=0-3 name=4-6 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 zo\x0atEQL 14-15 =\x0atINTEGER 16-17 \xff\x02\x0atCOMMA 17-18 ,\x0atIDENTIFIER 19-21 ko\x0atRPAREN 21-22 )\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"def v\xffa(x\xffa, *qo, ko, jo); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22) (restarg name=\x22qo\x22) (arg name=\x22ko\x22) (arg name=\x22jo\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9) (restarg name=\x22qo\x22 operator=11-12 name=12-14 expression=11-14) (arg name=\x22ko\x22 expression=16-18) (arg name=\x22jo\x22 expression=20-22)] expression=6-23 begin=6-7 end=22-23) keyword=0-3 name=4-6 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atCOMMA 9-10 ,\x0atSTAR 11-12 *\x0atIDENTIFIER 12-14 qo\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-18 ko\x0atCOMMA 18-19 ,\x0atIDENTIFIER 20-22 jo\x0atRPAREN 22-23 )\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"def v\xffa(x\xffa = \xffd, *qo); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (restarg name=\x22qo\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=12-13) name=7-9 operator=10-11 expression=7-13) (restarg name=\x22qo\x22 operator=15-16 name=16-18 expression=15-18)] expression=6-19 begin=6-7 end=18-19) keyword=0-3 name=4-6 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atEQL 10-11 =\x0atINTEGER 12-13 \xff\x02\x0atCOMMA 13-14 ,\x0atSTAR 15-16 *\x0atIDENTIFIER 16-18 qo\x0atRPAREN 18-19 )\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"def v\xffa(x\xffa = \xffd, yo = \xffd); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (optarg name=\x22yo\x22 default=(int value=\x22\xff\x03\x22))]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=12-13) name=7-9 operator=10-11 expression=7-13) (optarg name=\x22yo\x22 default=(int value=\x22\xff\x03\x22 expression=20-21) name=15-17 operator=18-19 expression=15-21)] expression=6-22 begin=6-7 end=21-22) keyword=0-3 name=4-6 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atEQL 10-11 =\x0atINTEGER 12-13 \xff\x02\x0atCOMMA 13-14 ,\x0atIDENTIFIER 15-17 yo\x0atEQL 18-19 =\x0atINTEGER 20-21 \xff\x03\x0atRPAREN 21-22 )\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"def v\xffa(x\xffa = \xffd, yo = \xffd, ko); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (optarg name=\x22yo\x22 default=(int value=\x22\xff\x03\x22)) (arg name=\x22ko\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=12-13) name=7-9 operator=10-11 expression=7-13) (optarg name=\x22yo\x22 default=(int value=\x22\xff\x03\x22 expression=20-21) name=15-17 operator=18-19 expression=15-21) (arg name=\x22ko\x22 expression=23-25)] expression=6-26 begin=6-7 end=25-26) keyword=0-3 name=4-6 end=28-31 expression=0-31)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atEQL 10-11 =\x0atINTEGER 12-13 \xff\x02\x0atCOMMA 13-14 ,\x0atIDENTIFIER 15-17 yo\x0atEQL 18-19 =\x0atINTEGER 20-21 \xff\x03\x0atCOMMA 21-22 ,\x0atIDENTIFIER 23-25 ko\x0atRPAREN 25-26 )\x0atSEMI 26-27 ;\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"def v\xffa(*x\xffa, ko); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(restarg name=\x22x\xff\x01\x22) (arg name=\x22ko\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(restarg name=\x22x\xff\x01\x22 operator=7-8 name=8-10 expression=7-10) (arg name=\x22ko\x22 expression=12-14)] expression=6-15 begin=6-7 end=14-15) keyword=0-3 name=4-6 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atSTAR 7-8 *\x0atIDENTIFIER 8-10 x\xff\x01\x0atCOMMA 10-11 ,\x0atIDENTIFIER 12-14 ko\x0atRPAREN 14-15 )\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"def v\xffa(*x\xffa, ko:); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(restarg name=\x22x\xff\x01\x22) (kwarg name=\x22ko\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(restarg name=\x22x\xff\x01\x22 operator=7-8 name=8-10 expression=7-10) (kwarg name=\x22ko\x22 name=12-14 expression=12-15)] expression=6-16 begin=6-7 end=15-16) keyword=0-3 name=4-6 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atSTAR 7-8 *\x0atIDENTIFIER 8-10 x\xff\x01\x0atCOMMA 10-11 ,\x0atLABEL 12-15 ko\x0atRPAREN 15-16 )\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"def v\xffa(x\xffa = \xffd, ko:); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (kwarg name=\x22ko\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=12-13) name=7-9 operator=10-11 expression=7-13) (kwarg name=\x22ko\x22 name=15-17 expression=15-18)] expression=6-19 begin=6-7 end=18-19) keyword=0-3 name=4-6 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atEQL 10-11 =\x0atINTEGER 12-13 \xff\x02\x0atCOMMA 13-14 ,\x0atLABEL 15-18 ko\x0atRPAREN 18-19 )\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"def v\xffa(x\xffa, yo:, **zo); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22) (kwarg name=\x22yo\x22) (kwrestarg name=\x22zo\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9) (kwarg name=\x22yo\x22 name=11-13 expression=11-14) (kwrestarg name=\x22zo\x22 operator=16-18 name=18-20 expression=16-20)] expression=6-21 begin=6-7 end=20-21) keyword=0-3 name=4-6 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atCOMMA 9-10 ,\x0atLABEL 11-14 yo\x0atCOMMA 14-15 ,\x0atDSTAR 16-18 **\x0atIDENTIFIER 18-20 zo\x0atRPAREN 20-21 )\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"def v\xffa(x\xffa:, **); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(kwarg name=\x22x\xff\x01\x22) (kwrestarg)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(kwarg name=\x22x\xff\x01\x22 name=7-9 expression=7-10) (kwrestarg operator=12-14 expression=12-14)] expression=6-15 begin=6-7 end=14-15) keyword=0-3 name=4-6 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atLABEL 7-10 x\xff\x01\x0atCOMMA 10-11 ,\x0atDSTAR 12-14 **\x0atRPAREN 14-15 )\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"def v\xffa(x\xffa:, &wo); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(kwarg name=\x22x\xff\x01\x22) (blockarg name=\x22wo\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(kwarg name=\x22x\xff\x01\x22 name=7-9 expression=7-10) (blockarg name=\x22wo\x22 operator=12-13 name=13-15 expression=12-15)] expression=6-16 begin=6-7 end=15-16) keyword=0-3 name=4-6 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atLABEL 7-10 x\xff\x01\x0atCOMMA 10-11 ,\x0atAMPER 12-13 &\x0atIDENTIFIER 13-15 wo\x0atRPAREN 15-16 )\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"def v\xffa(**x\xffa, &wo); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(kwrestarg name=\x22x\xff\x01\x22) (blockarg name=\x22wo\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(kwrestarg name=\x22x\xff\x01\x22 operator=7-9 name=9-11 expression=7-11) (blockarg name=\x22wo\x22 operator=13-14 name=14-16 expression=13-16)] expression=6-17 begin=6-7 end=16-17) keyword=0-3 name=4-6 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atDSTAR 7-9 **\x0atIDENTIFIER 9-11 x\xff\x01\x0atCOMMA 11-12 ,\x0atAMPER 13-14 &\x0atIDENTIFIER 14-16 wo\x0atRPAREN 16-17 )\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"def v\xffa(*x\xffa, &wo); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(restarg name=\x22x\xff\x01\x22) (blockarg name=\x22wo\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(restarg name=\x22x\xff\x01\x22 operator=7-8 name=8-10 expression=7-10) (blockarg name=\x22wo\x22 operator=12-13 name=13-15 expression=12-15)] expression=6-16 begin=6-7 end=15-16) keyword=0-3 name=4-6 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atSTAR 7-8 *\x0atIDENTIFIER 8-10 x\xff\x01\x0atCOMMA 10-11 ,\x0atAMPER 12-13 &\x0atIDENTIFIER 13-15 wo\x0atRPAREN 15-16 )\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"def v\xffa(x\xffa = \xffd, *, **, &wo); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (restarg) (kwrestarg) (blockarg name=\x22wo\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=12-13) name=7-9 operator=10-11 expression=7-13) (restarg operator=15-16 expression=15-16) (kwrestarg operator=18-20 expression=18-20) (blockarg name=\x22wo\x22 operator=22-23 name=23-25 expression=22-25)] expression=6-26 begin=6-7 end=25-26) keyword=0-3 name=4-6 end=28-31 expression=0-31)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atEQL 10-11 =\x0atINTEGER 12-13 \xff\x02\x0atCOMMA 13-14 ,\x0atSTAR 15-16 *\x0atCOMMA 16-17 ,\x0atDSTAR 18-20 **\x0atCOMMA 20-21 ,\x0atAMPER 22-23 &\x0atIDENTIFIER 23-25 wo\x0atRPAREN 25-26 )\x0atSEMI 26-27 ;\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"def v\xffa(*, x\xffa:); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(restarg) (kwarg name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(restarg operator=7-8 expression=7-8) (kwarg name=\x22x\xff\x01\x22 name=10-12 expression=10-13)] expression=6-14 begin=6-7 end=13-14) keyword=0-3 name=4-6 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atSTAR 7-8 *\x0atCOMMA 8-9 ,\x0atLABEL 10-13 x\xff\x01\x0atRPAREN 13-14 )\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"def v\xffa(x\xffa, (y\xffa, zo), *qo); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22) (mlhs items=[(arg name=\x22y\xff\x02\x22) (arg name=\x22zo\x22)]) (restarg name=\x22qo\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9) (mlhs items=[(arg name=\x22y\xff\x02\x22 expression=12-14) (arg name=\x22zo\x22 expression=16-18)] begin=11-12 end=18-19 expression=11-19) (restarg name=\x22qo\x22 operator=21-22 name=22-24 expression=21-24)] expression=6-25 begin=6-7 end=24-25) keyword=0-3 name=4-6 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atCOMMA 9-10 ,\x0atLPAREN 11-12 (\x0atIDENTIFIER 12-14 y\xff\x02\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-18 zo\x0atRPAREN 18-19 )\x0atCOMMA 19-20 ,\x0atSTAR 21-22 *\x0atIDENTIFIER 22-24 qo\x0atRPAREN 24-25 )\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"def v\xffa((x\xffa, (y\xffa, zo))); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(mlhs items=[(arg name=\x22x\xff\x01\x22) (mlhs items=[(arg name=\x22y\xff\x02\x22) (arg name=\x22zo\x22)])])]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(mlhs items=[(arg name=\x22x\xff\x01\x22 expression=8-10) (mlhs items=[(arg name=\x22y\xff\x02\x22 expression=13-15) (arg name=\x22zo\x22 expression=17-19)] begin=12-13 end=19-20 expression=12-20)] begin=7-8 end=20-21 expression=7-21)] expression=6-22 begin=6-7 end=21-22) keyword=0-3 name=4-6 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atLPAREN 7-8 (\x0atIDENTIFIER 8-10 x\xff\x01\x0atCOMMA 10-11 ,\x0atLPAREN 12-13 (\x0atIDENTIFIER 13-15 y\xff\x02\x0atCOMMA 15-16 ,\x0atIDENTIFIER 17-19 zo\x0atRPAREN 19-20 )\x0atRPAREN 20-21 )\x0atRPAREN 21-22 )\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"def v\xffa((*, x\xffa)); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(mlhs items=[(restarg) (arg name=\x22x\xff\x01\x22)])]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(mlhs items=[(restarg operator=8-9 expression=8-9) (arg name=\x22x\xff\x01\x22 expression=11-13)] begin=7-8 end=13-14 expression=7-14)] expression=6-15 begin=6-7 end=14-15) keyword=0-3 name=4-6 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atLPAREN 7-8 (\x0atSTAR 8-9 *\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 x\xff\x01\x0atRPAREN 13-14 )\x0atRPAREN 14-15 )\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"def v\xffa((x\xffa, *)); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(mlhs items=[(arg name=\x22x\xff\x01\x22) (restarg)])]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(mlhs items=[(arg name=\x22x\xff\x01\x22 expression=8-10) (restarg operator=12-13 expression=12-13)] begin=7-8 end=13-14 expression=7-14)] expression=6-15 begin=6-7 end=14-15) keyword=0-3 name=4-6 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atLPAREN 7-8 (\x0atIDENTIFIER 8-10 x\xff\x01\x0atCOMMA 10-11 ,\x0atSTAR 12-13 *\x0atRPAREN 13-14 )\x0atRPAREN 14-15 )\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"def v\xffa(x\xffa = (y\xffa = \xffd)); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(begin statements=[(lvasgn name=\x22y\xff\x02\x22 value=(int value=\x22\xff\x03\x22))]))]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(begin statements=[(lvasgn name=\x22y\xff\x02\x22 value=(int value=\x22\xff\x03\x22 expression=18-19) name=13-15 operator=16-17 expression=13-19)] begin=12-13 end=19-20 expression=12-20) name=7-9 operator=10-11 expression=7-20)] expression=6-21 begin=6-7 end=20-21) keyword=0-3 name=4-6 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atEQL 10-11 =\x0atLPAREN 12-13 (\x0atIDENTIFIER 13-15 y\xff\x02\x0atEQL 16-17 =\x0atINTEGER 18-19 \xff\x03\x0atRPAREN 19-20 )\x0atRPAREN 20-21 )\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"def v\xffa(x\xffa = \xffd, zo: x\xfe\x01); end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22)) (kwoptarg name=\x22zo\x22 default=(lvar name=\x22x\xff\x01\x22))]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(optarg name=\x22x\xff\x01\x22 default=(int value=\x22\xff\x02\x22 expression=12-13) name=7-9 operator=10-11 expression=7-13) (kwoptarg name=\x22zo\x22 default=(lvar name=\x22x\xff\x01\x22 expression=19-21) name=15-17 expression=15-21)] expression=6-22 begin=6-7 end=21-22) keyword=0-3 name=4-6 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atEQL 10-11 =\x0atINTEGER 12-13 \xff\x02\x0atCOMMA 13-14 ,\x0atLABEL 15-18 zo\x0atIDENTIFIER 19-21 x\xff\x01\x0atRPAREN 21-22 )\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"def v\xffa *x\xffa\x0aend", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(restarg name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(restarg name=\x22x\xff\x01\x22 operator=7-8 name=8-10 expression=7-10)] expression=7-10) keyword=0-3 name=4-6 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atSTAR2 7-8 *\x0atIDENTIFIER 8-10 x\xff\x01\x0atNL 10-11 \x0a\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def v\xffa &x\xffa\x0aend", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(blockarg name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(blockarg name=\x22x\xff\x01\x22 operator=7-8 name=8-10 expression=7-10)] expression=7-10) keyword=0-3 name=4-6 end=11-14 expression=0-14)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atAMPER2 7-8 &\x0atIDENTIFIER 8-10 x\xff\x01\x0atNL 10-11 \x0a\x0akEND 11-14 end\x0aEOF 14-14 " },
    Rec { t: b"def v\xffa **x\xffa\x0aend", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(kwrestarg name=\x22x\xff\x01\x22)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(kwrestarg name=\x22x\xff\x01\x22 operator=7-9 name=9-11 expression=7-11)] expression=7-11) keyword=0-3 name=4-6 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atPOW 7-9 **\x0atIDENTIFIER 9-11 x\xff\x01\x0atNL 11-12 \x0a\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def v\xffa x\xffa, ...\x0ay\xffa(...)\x0aend", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22) (forward_arg)]) body=(send method_name=\x22y\xff\x02\x22 args=[(forwarded_args)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9) (forward_arg expression=11-14)] expression=7-14) body=(send method_name=\x22y\xff\x02\x22 args=[(forwarded_args expression=18-21)] selector=15-17 begin=17-18 end=21-22 expression=15-22) keyword=0-3 name=4-6 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atIDENTIFIER 7-9 x\xff\x01\x0atCOMMA 9-10 ,\x0atBDOT3 11-14 ...\x0atNL 14-15 \x0a\x0atIDENTIFIER 15-17 y\xff\x02\x0atLPAREN2 17-18 (\x0atBDOT3 18-21 ...\x0atRPAREN 21-22 )\x0atNL 22-23 \x0a\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"def v\xffa() x\xffa end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[]) body=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[] expression=6-8 begin=6-7 end=7-8) body=(send method_name=\x22x\xff\x01\x22 args=[] selector=9-11 expression=9-11) keyword=0-3 name=4-6 end=12-15 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atRPAREN 7-8 )\x0atIDENTIFIER 9-11 x\xff\x01\x0akEND 12-15 end\x0aEOF 15-15 " },
    Rec { t: b"def v\xffa(x\xffa) y\xffa end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22)]) body=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=7-9)] expression=6-10 begin=6-7 end=9-10) body=(send method_name=\x22y\xff\x02\x22 args=[] selector=11-13 expression=11-13) keyword=0-3 name=4-6 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atRPAREN 9-10 )\x0atIDENTIFIER 11-13 y\xff\x02\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"def v\xffa; x\xffa; rescue V\xffb => y\xffa; zo; else; qo; ensure; ko; end", shape: b"(def name=\x22v\xff\x00\x22 body=(ensure body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x02\x22)]) exc_var=(lvasgn name=\x22y\xff\x03\x22) body=(send method_name=\x22zo\x22 args=[]))] else_=(send method_name=\x22qo\x22 args=[])) ensure=(send method_name=\x22ko\x22 args=[])))", full: b"(def name=\x22v\xff\x00\x22 body=(ensure body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[] selector=8-10 expression=8-10) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x02\x22 name=19-21 expression=19-21)] expression=19-21) exc_var=(lvasgn name=\x22y\xff\x03\x22 name=25-27 expression=25-27) body=(send method_name=\x22zo\x22 args=[] selector=29-31 expression=29-31) keyword=12-18 assoc=22-24 begin=27-28 expression=12-31)] else_=(send method_name=\x22qo\x22 args=[] selector=39-41 expression=39-41) else=33-37 expression=8-41) ensure=(send method_name=\x22ko\x22 args=[] selector=51-53 expression=51-53) keyword=43-49 expression=8-53) keyword=0-3 name=4-6 end=55-58 expression=0-58)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 x\xff\x01\x0atSEMI 10-11 ;\x0akRESCUE 12-18 rescue\x0atCONSTANT 19-21 V\xff\x02\x0atASSOC 22-24 =>\x0atIDENTIFIER 25-27 y\xff\x03\x0atSEMI 27-28 ;\x0atIDENTIFIER 29-31 zo\x0atSEMI 31-32 ;\x0akELSE 33-37 else\x0atSEMI 37-38 ;\x0atIDENTIFIER 39-41 qo\x0atSEMI 41-42 ;\x0akENSURE 43-49 ensure\x0atSEMI 49-50 ;\x0atIDENTIFIER 51-53 ko\x0atSEMI 53-54 ;\x0akEND 55-58 end\x0aEOF 58-58 " },
    Rec { t: b"def v\xffa; x\xffa; ensure; end", shape: b"(def name=\x22v\xff\x00\x22 body=(ensure body=(send method_name=\x22x\xff\x01\x22 args=[])))", full: b"(def name=\x22v\xff\x00\x22 body=(ensure body=(send method_name=\x22x\xff\x01\x22 args=[] selector=8-10 expression=8-10) keyword=12-18 expression=8-18) keyword=0-3 name=4-6 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 x\xff\x01\x0atSEMI 10-11 ;\x0akENSURE 12-18 ensure\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"def self.v\xffa() = \xffd", shape: b"(defs definee=(self_) name=\x22v\xff\x00\x22 args=(args args=[]) body=(int value=\x22\xff\x01\x22))", full: b"(defs definee=(self_ expression=4-8) name=\x22v\xff\x00\x22 args=(args args=[] expression=11-13 begin=11-12 end=12-13) body=(int value=\x22\xff\x01\x22 expression=16-17) keyword=0-3 operator=8-9 name=9-11 assignment=14-15 expression=0-17)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 v\xff\x00\x0atLPAREN2 11-12 (\x0atRPAREN 12-13 )\x0atEQL 14-15 =\x0atINTEGER 16-17 \xff\x01\x0aEOF 17-17 " },
    Rec { t: b"def self.v\xffa(x\xffa) = y\xffa rescue \xffd", shape: b"(defs definee=(self_) name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22)]) body=(rescue body=(send method_name=\x22y\xff\x02\x22 args=[]) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x03\x22))]))", full: b"(defs definee=(self_ expression=4-8) name=\x22v\xff\x00\x22 args=(args args=[(arg name=\x22x\xff\x01\x22 expression=12-14)] expression=11-15 begin=11-12 end=14-15) body=(rescue body=(send method_name=\x22y\xff\x02\x22 args=[] selector=18-20 expression=18-20) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x03\x22 expression=28-29) keyword=21-27 expression=21-29)] expression=18-29) keyword=0-3 operator=8-9 name=9-11 assignment=16-17 expression=0-29)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 v\xff\x00\x0atLPAREN2 11-12 (\x0atIDENTIFIER 12-14 x\xff\x01\x0atRPAREN 14-15 )\x0atEQL 16-17 =\x0atIDENTIFIER 18-20 y\xff\x02\x0akRESCUE_MOD 21-27 rescue\x0atINTEGER 28-29 \xff\x03\x0aEOF 29-29 " },
    Rec { t: b"def self.v\xffa = x\xffa zo", shape: b"(defs definee=(self_) name=\x22v\xff\x00\x22 body=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22zo\x22 args=[])]))", full: b"(defs definee=(self_ expression=4-8) name=\x22v\xff\x00\x22 body=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22zo\x22 args=[] selector=17-19 expression=17-19)] selector=14-16 expression=14-19) keyword=0-3 operator=8-9 name=9-11 assignment=12-13 expression=0-19)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 v\xff\x00\x0atEQL 12-13 =\x0atIDENTIFIER 14-16 x\xff\x01\x0atIDENTIFIER 17-19 zo\x0aEOF 19-19 " },
    Rec { t: b"def self.v\xffa = x\xffa zo rescue \xffd", shape: b"(defs definee=(self_) name=\x22v\xff\x00\x22 body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22zo\x22 args=[])]) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x02\x22))]))", full: b"(defs definee=(self_ expression=4-8) name=\x22v\xff\x00\x22 body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22zo\x22 args=[] selector=17-19 expression=17-19)] selector=14-16 expression=14-19) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x02\x22 expression=27-28) keyword=20-26 expression=20-28)] expression=14-28) keyword=0-3 operator=8-9 name=9-11 assignment=12-13 expression=0-28)", diag: b"", toks: b"\x0akDEF 0-3 def\x0akSELF 4-8 self\x0atDOT 8-9 .\x0atIDENTIFIER 9-11 v\xff\x00\x0atEQL 12-13 =\x0atIDENTIFIER 14-16 x\xff\x01\x0atIDENTIFIER 17-19 zo\x0akRESCUE_MOD 20-26 rescue\x0atINTEGER 27-28 \xff\x02\x0aEOF 28-28 " },
    Rec { t: b"def v\xffa = x\xffa zo rescue \xffd", shape: b"(def name=\x22v\xff\x00\x22 body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22zo\x22 args=[])]) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x02\x22))]))", full: b"(def name=\x22v\xff\x00\x22 body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22zo\x22 args=[] selector=12-14 expression=12-14)] selector=9-11 expression=9-14) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x02\x22 expression=22-23) keyword=15-21 expression=15-23)] expression=9-23) keyword=0-3 name=4-6 assignment=7-8 expression=0-23)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atEQL 7-8 =\x0atIDENTIFIER 9-11 x\xff\x01\x0atIDENTIFIER 12-14 zo\x0akRESCUE_MOD 15-21 rescue\x0atINTEGER 22-23 \xff\x02\x0aEOF 23-23 " },
    Rec { t: b"def v\xffa = x\xffa rescue \xffd", shape: b"(def name=\x22v\xff\x00\x22 body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x02\x22))]))", full: b"(def name=\x22v\xff\x00\x22 body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[] selector=9-11 expression=9-11) rescue_bodies=[(rescue_body body=(int value=\x22\xff\x02\x22 expression=19-20) keyword=12-18 expression=12-20)] expression=9-20) keyword=0-3 name=4-6 assignment=7-8 expression=0-20)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atEQL 7-8 =\x0atIDENTIFIER 9-11 x\xff\x01\x0akRESCUE_MOD 12-18 rescue\x0atINTEGER 19-20 \xff\x02\x0aEOF 20-20 " },
    Rec { t: b"def v\xffa = (x\xffa; y\xffa)", shape: b"(def name=\x22v\xff\x00\x22 body=(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[]) (send method_name=\x22y\xff\x02\x22 args=[])]))", full: b"(def name=\x22v\xff\x00\x22 body=(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12) (send method_name=\x22y\xff\x02\x22 args=[] selector=14-16 expression=14-16)] begin=9-10 end=16-17 expression=9-17) keyword=0-3 name=4-6 assignment=7-8 expression=0-17)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atEQL 7-8 =\x0atLPAREN 9-10 (\x0atIDENTIFIER 10-12 x\xff\x01\x0atSEMI 12-13 ;\x0atIDENTIFIER 14-16 y\xff\x02\x0atRPAREN 16-17 )\x0aEOF 17-17 " },
    Rec { t: b"def v\xffa() = begin; x\xffa; end", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[]) body=(kw_begin statements=[(send method_name=\x22x\xff\x01\x22 args=[])]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[] expression=6-8 begin=6-7 end=7-8) body=(kw_begin statements=[(send method_name=\x22x\xff\x01\x22 args=[] selector=18-20 expression=18-20)] begin=11-16 end=22-25 expression=11-25) keyword=0-3 name=4-6 assignment=9-10 expression=0-25)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atRPAREN 7-8 )\x0atEQL 9-10 =\x0akBEGIN 11-16 begin\x0atSEMI 16-17 ;\x0atIDENTIFIER 18-20 x\xff\x01\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"def v\xffa = y\xffa do z\xffa end", shape: b"(def name=\x22v\xff\x00\x22 body=(block call=(send method_name=\x22y\xff\x01\x22 args=[]) body=(send method_name=\x22z\xff\x02\x22 args=[])))", full: b"(def name=\x22v\xff\x00\x22 body=(block call=(send method_name=\x22y\xff\x01\x22 args=[] selector=9-11 expression=9-11) body=(send method_name=\x22z\xff\x02\x22 args=[] selector=15-17 expression=15-17) begin=12-14 end=18-21 expression=9-21) keyword=0-3 name=4-6 assignment=7-8 expression=0-21)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atEQL 7-8 =\x0atIDENTIFIER 9-11 y\xff\x01\x0akDO 12-14 do\x0atIDENTIFIER 15-17 z\xff\x02\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"def ==(x\xffa) = y\xffa", shape: b"(def name=\x22==\x22 args=(args args=[(arg name=\x22x\xff\x00\x22)]) body=(send method_name=\x22y\xff\x01\x22 args=[]))", full: b"(def name=\x22==\x22 args=(args args=[(arg name=\x22x\xff\x00\x22 expression=7-9)] expression=6-10 begin=6-7 end=9-10) body=(send method_name=\x22y\xff\x01\x22 args=[] selector=13-15 expression=13-15) keyword=0-3 name=4-6 assignment=11-12 expression=0-15)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atEQ 4-6 ==\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x00\x0atRPAREN 9-10 )\x0atEQL 11-12 =\x0atIDENTIFIER 13-15 y\xff\x01\x0aEOF 15-15 " },
    Rec { t: b"def v\xffa(...) = x\xffa(...)", shape: b"(def name=\x22v\xff\x00\x22 args=(args args=[(forward_arg)]) body=(send method_name=\x22x\xff\x01\x22 args=[(forwarded_args)]))", full: b"(def name=\x22v\xff\x00\x22 args=(args args=[(forward_arg expression=7-10)] expression=6-11 begin=6-7 end=10-11) body=(send method_name=\x22x\xff\x01\x22 args=[(forwarded_args expression=17-20)] selector=14-16 begin=16-17 end=20-21 expression=14-21) keyword=0-3 name=4-6 assignment=12-13 expression=0-21)", diag: b"", toks: b"\x0akDEF 0-3 def\x0atIDENTIFIER 4-6 v\xff\x00\x0atLPAREN2 6-7 (\x0atBDOT3 7-10 ...\x0atRPAREN 10-11 )\x0atEQL 12-13 =\x0atIDENTIFIER 14-16 x\xff\x01\x0atLPAREN2 16-17 (\x0atBDOT3 17-20 ...\x0atRPAREN 20-21 )\x0aEOF 21-21 " },
    Rec { t: b"private def v\xffa = x\xffa", shape: b"(send method_name=\x22private\x22 args=[(def name=\x22v\xff\x00\x22 body=(send method_name=\x22x\xff\x01\x22 args=[]))])", full: b"(send method_name=\x22private\x22 args=[(def name=\x22v\xff\x00\x22 body=(send method_name=\x22x\xff\x01\x22 args=[] selector=17-19 expression=17-19) keyword=8-11 name=12-14 assignment=15-16 expression=8-19)] selector=0-7 expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-7 private\x0akDEF 8-11 def\x0atIDENTIFIER 12-14 v\xff\x00\x0atEQL 15-16 =\x0atIDENTIFIER 17-19 x\xff\x01\x0aEOF 19-19 " },
    Rec { t: b"v\xffa = def x\xffa = y\xffa", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(def name=\x22x\xff\x01\x22 body=(send method_name=\x22y\xff\x02\x22 args=[])))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(def name=\x22x\xff\x01\x22 body=(send method_name=\x22y\xff\x02\x22 args=[] selector=14-16 expression=14-16) keyword=5-8 name=9-11 assignment=12-13 expression=5-16) name=0-2 operator=3-4 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0akDEF 5-8 def\x0atIDENTIFIER 9-11 x\xff\x01\x0atEQL 12-13 =\x0atIDENTIFIER 14-16 y\xff\x02\x0aEOF 16-16 " },
    Rec { t: b"x\xffa y\xffa = def z\xffa; end", shape: b"(send method_name=\x22x\xff\x00\x22 args=[(lvasgn name=\x22y\xff\x01\x22 value=(def name=\x22z\xff\x02\x22))])", full: b"(send method_name=\x22x\xff\x00\x22 args=[(lvasgn name=\x22y\xff\x01\x22 value=(def name=\x22z\xff\x02\x22 keyword=8-11 name=12-14 end=16-19 expression=8-19) name=3-5 operator=6-7 expression=3-19)] selector=0-2 expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 x\xff\x00\x0atIDENTIFIER 3-5 y\xff\x01\x0atEQL 6-7 =\x0akDEF 8-11 def\x0atIDENTIFIER 12-14 z\xff\x02\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
];
pub static ASGN2: &[Rec] = &[
    Rec { t: b"((v\xffa, x\xffa)) = y\xffa", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (lvasgn name=\x22x\xff\x01\x22)]) rhs=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=2-4 expression=2-4) (lvasgn name=\x22x\xff\x01\x22 name=6-8 expression=6-8)] begin=0-1 end=9-10 expression=0-10) rhs=(send method_name=\x22y\xff\x02\x22 args=[] selector=13-15 expression=13-15) operator=11-12 expression=0-15)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atLPAREN 1-2 (\x0atIDENTIFIER 2-4 v\xff\x00\x0atCOMMA 4-5 ,\x0atIDENTIFIER 6-8 x\xff\x01\x0atRPAREN 8-9 )\x0atRPAREN 9-10 )\x0atEQL 11-12 =\x0atIDENTIFIER 13-15 y\xff\x02\x0aEOF 15-15 " },
    Rec { t: b"v\xffa.V\xffb = x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22V\xff\x01=\x22 args=[(send method_name=\x22x\xff\x02\x22 args=[])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22V\xff\x01=\x22 args=[(send method_name=\x22x\xff\x02\x22 args=[] selector=8-10 expression=8-10)] dot=2-3 selector=3-5 operator=6-7 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atCONSTANT 3-5 V\xff\x01\x0atEQL 6-7 =\x0atIDENTIFIER 8-10 x\xff\x02\x0aEOF 10-10 " },
    Rec { t: b"v\xffa.V\xffb, x\xffa = z\xffa", shape: b"(masgn lhs=(mlhs items=[(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22V\xff\x01=\x22 args=[]) (lvasgn name=\x22x\xff\x02\x22)]) rhs=(send method_name=\x22z\xff\x03\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22V\xff\x01=\x22 args=[] dot=2-3 selector=3-5 expression=0-5) (lvasgn name=\x22x\xff\x02\x22 name=7-9 expression=7-9)] expression=0-9) rhs=(send method_name=\x22z\xff\x03\x22 args=[] selector=12-14 expression=12-14) operator=10-11 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atCONSTANT 3-5 V\xff\x01\x0atCOMMA 5-6 ,\x0atIDENTIFIER 7-9 x\xff\x02\x0atEQL 10-11 =\x0atIDENTIFIER 12-14 z\xff\x03\x0aEOF 14-14 " },
    Rec { t: b"*v\xffa.V\xffb, x\xffa = z\xffa", shape: b"(masgn lhs=(mlhs items=[(splat value=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22V\xff\x01=\x22 args=[])) (lvasgn name=\x22x\xff\x02\x22)]) rhs=(send method_name=\x22z\xff\x03\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(splat value=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3) method_name=\x22V\xff\x01=\x22 args=[] dot=3-4 selector=4-6 expression=1-6) operator=0-1 expression=0-6) (lvasgn name=\x22x\xff\x02\x22 name=8-10 expression=8-10)] expression=0-10) rhs=(send method_name=\x22z\xff\x03\x22 args=[] selector=13-15 expression=13-15) operator=11-12 expression=0-15)", diag: b"", toks: b"\x0atSTAR 0-1 *\x0atIDENTIFIER 1-3 v\xff\x00\x0atDOT 3-4 .\x0atCONSTANT 4-6 V\xff\x01\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-10 x\xff\x02\x0atEQL 11-12 =\x0atIDENTIFIER 13-15 z\xff\x03\x0aEOF 15-15 " },
    Rec { t: b"v\xffa.V\xffb += y\xffa z\xffa", shape: b"(op_asgn recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22V\xff\x01\x22 args=[]) operator=\x22+\x22 value=(send method_name=\x22y\xff\x02\x22 args=[(send method_name=\x22z\xff\x03\x22 args=[])]))", full: b"(op_asgn recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22V\xff\x01\x22 args=[] dot=2-3 selector=3-5 expression=0-5) operator=\x22+\x22 value=(send method_name=\x22y\xff\x02\x22 args=[(send method_name=\x22z\xff\x03\x22 args=[] selector=12-14 expression=12-14)] selector=9-11 expression=9-14) operator=6-8 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atCONSTANT 3-5 V\xff\x01\x0atOP_ASGN 6-8 +=\x0atIDENTIFIER 9-11 y\xff\x02\x0atIDENTIFIER 12-14 z\xff\x03\x0aEOF 14-14 " },
    Rec { t: b"v\xffa.V\xffb ||= x\xffa", shape: b"(or_asgn recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22V\xff\x01\x22 args=[]) value=(send method_name=\x22x\xff\x02\x22 args=[]))", full: b"(or_asgn recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22V\xff\x01\x22 args=[] dot=2-3 selector=3-5 expression=0-5) value=(send method_name=\x22x\xff\x02\x22 args=[] selector=10-12 expression=10-12) operator=6-9 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atCONSTANT 3-5 V\xff\x01\x0atOP_ASGN 6-9 ||=\x0atIDENTIFIER 10-12 x\xff\x02\x0aEOF 12-12 " },
    Rec { t: b"v\xffa::V\xffb = x\xffa", shape: b"(casgn scope=(send method_name=\x22v\xff\x00\x22 args=[]) name=\x22V\xff\x01\x22 value=(send method_name=\x22x\xff\x02\x22 args=[]))", full: b"(casgn scope=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) name=\x22V\xff\x01\x22 value=(send method_name=\x22x\xff\x02\x22 args=[] selector=9-11 expression=9-11) double_colon=2-4 name=4-6 operator=7-8 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atCONSTANT 4-6 V\xff\x01\x0atEQL 7-8 =\x0atIDENTIFIER 9-11 x\xff\x02\x0aEOF 11-11 " },
    Rec { t: b"::V\xffb = x\xffa", shape: b"(casgn scope=(cbase) name=\x22V\xff\x00\x22 value=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(casgn scope=(cbase expression=0-2) name=\x22V\xff\x00\x22 value=(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9) double_colon=0-2 name=2-4 operator=5-6 expression=0-9)", diag: b"", toks: b"\x0atCOLON3 0-2 ::\x0atCONSTANT 2-4 V\xff\x00\x0atEQL 5-6 =\x0atIDENTIFIER 7-9 x\xff\x01\x0aEOF 9-9 " },
    Rec { t: b"v\xffa&.V\xffb = x\xffa", shape: b"(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22V\xff\x01=\x22 args=[(send method_name=\x22x\xff\x02\x22 args=[])])", full: b"(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22V\xff\x01=\x22 args=[(send method_name=\x22x\xff\x02\x22 args=[] selector=9-11 expression=9-11)] dot=2-4 selector=4-6 operator=7-8 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atANDDOT 2-4 &.\x0atCONSTANT 4-6 V\xff\x01\x0atEQL 7-8 =\x0atIDENTIFIER 9-11 x\xff\x02\x0aEOF 11-11 " },
    Rec { t: b"v\xffa.x\xffa = y\xffa z\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01=\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[(send method_name=\x22z\xff\x03\x22 args=[])])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01=\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[(send method_name=\x22z\xff\x03\x22 args=[] selector=11-13 expression=11-13)] selector=8-10 expression=8-13)] dot=2-3 selector=3-5 operator=6-7 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atEQL 6-7 =\x0atIDENTIFIER 8-10 y\xff\x02\x0atIDENTIFIER 11-13 z\xff\x03\x0aEOF 13-13 " },
    Rec { t: b"v\xffa[x\xffa] = y\xffa z\xffa", shape: b"(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(send method_name=\x22x\xff\x01\x22 args=[])] value=(send method_name=\x22y\xff\x02\x22 args=[(send method_name=\x22z\xff\x03\x22 args=[])]))", full: b"(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5)] value=(send method_name=\x22y\xff\x02\x22 args=[(send method_name=\x22z\xff\x03\x22 args=[] selector=12-14 expression=12-14)] selector=9-11 expression=9-14) begin=2-3 end=5-6 operator=7-8 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atIDENTIFIER 3-5 x\xff\x01\x0atRBRACK 5-6 ]\x0atEQL 7-8 =\x0atIDENTIFIER 9-11 y\xff\x02\x0atIDENTIFIER 12-14 z\xff\x03\x0aEOF 14-14 " },
    Rec { t: b"v\xffa[x\xffa, y\xffa] = z\xffa", shape: b"(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(send method_name=\x22x\xff\x01\x22 args=[]) (send method_name=\x22y\xff\x02\x22 args=[])] value=(send method_name=\x22z\xff\x03\x22 args=[]))", full: b"(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) (send method_name=\x22y\xff\x02\x22 args=[] selector=7-9 expression=7-9)] value=(send method_name=\x22z\xff\x03\x22 args=[] selector=13-15 expression=13-15) begin=2-3 end=9-10 operator=11-12 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atIDENTIFIER 3-5 x\xff\x01\x0atCOMMA 5-6 ,\x0atIDENTIFIER 7-9 y\xff\x02\x0atRBRACK 9-10 ]\x0atEQL 11-12 =\x0atIDENTIFIER 13-15 z\xff\x03\x0aEOF 15-15 " },
    Rec { t: b"v\xffa[*x\xffa] = y\xffa", shape: b"(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[]))] value=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6) operator=3-4 expression=3-6)] value=(send method_name=\x22y\xff\x02\x22 args=[] selector=10-12 expression=10-12) begin=2-3 end=6-7 operator=8-9 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atSTAR 3-4 *\x0atIDENTIFIER 4-6 x\xff\x01\x0atRBRACK 6-7 ]\x0atEQL 8-9 =\x0atIDENTIFIER 10-12 y\xff\x02\x0aEOF 12-12 " },
    Rec { t: b"v\xffa.x\xffa = *y\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01=\x22 args=[(array elements=[(splat value=(send method_name=\x22y\xff\x02\x22 args=[]))])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01=\x22 args=[(array elements=[(splat value=(send method_name=\x22y\xff\x02\x22 args=[] selector=9-11 expression=9-11) operator=8-9 expression=8-11)] expression=8-11)] dot=2-3 selector=3-5 operator=6-7 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atEQL 6-7 =\x0atSTAR 8-9 *\x0atIDENTIFIER 9-11 y\xff\x02\x0aEOF 11-11 " },
    Rec { t: b"v\xffa.x\xffa = y\xffa, z\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01=\x22 args=[(array elements=[(send method_name=\x22y\xff\x02\x22 args=[]) (send method_name=\x22z\xff\x03\x22 args=[])])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01=\x22 args=[(array elements=[(send method_name=\x22y\xff\x02\x22 args=[] selector=8-10 expression=8-10) (send method_name=\x22z\xff\x03\x22 args=[] selector=12-14 expression=12-14)] expression=8-14)] dot=2-3 selector=3-5 operator=6-7 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atEQL 6-7 =\x0atIDENTIFIER 8-10 y\xff\x02\x0atCOMMA 10-11 ,\x0atIDENTIFIER 12-14 z\xff\x03\x0aEOF 14-14 " },
    Rec { t: b"@v\xffa = *y\xffa, z\xffa", shape: b"(ivasgn name=\x22@v\xff\x00\x22 value=(array elements=[(splat value=(send method_name=\x22y\xff\x01\x22 args=[])) (send method_name=\x22z\xff\x02\x22 args=[])]))", full: b"(ivasgn name=\x22@v\xff\x00\x22 value=(array elements=[(splat value=(send method_name=\x22y\xff\x01\x22 args=[] selector=7-9 expression=7-9) operator=6-7 expression=6-9) (send method_name=\x22z\xff\x02\x22 args=[] selector=11-13 expression=11-13)] expression=6-13) name=0-3 operator=4-5 expression=0-13)", diag: b"", toks: b"\x0atIVAR 0-3 @v\xff\x00\x0atEQL 4-5 =\x0atSTAR 6-7 *\x0atIDENTIFIER 7-9 y\xff\x01\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 z\xff\x02\x0aEOF 13-13 " },
    Rec { t: b"v\xffa.x\xffa += y\xffa z\xffa", shape: b"(op_asgn recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) operator=\x22+\x22 value=(send method_name=\x22y\xff\x02\x22 args=[(send method_name=\x22z\xff\x03\x22 args=[])]))", full: b"(op_asgn recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-3 selector=3-5 expression=0-5) operator=\x22+\x22 value=(send method_name=\x22y\xff\x02\x22 args=[(send method_name=\x22z\xff\x03\x22 args=[] selector=12-14 expression=12-14)] selector=9-11 expression=9-14) operator=6-8 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atOP_ASGN 6-8 +=\x0atIDENTIFIER 9-11 y\xff\x02\x0atIDENTIFIER 12-14 z\xff\x03\x0aEOF 14-14 " },
    Rec { t: b"v\xffa::x\xffa += y\xffa z\xffa", shape: b"(op_asgn recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) operator=\x22+\x22 value=(send method_name=\x22y\xff\x02\x22 args=[(send method_name=\x22z\xff\x03\x22 args=[])]))", full: b"(op_asgn recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-4 selector=4-6 expression=0-6) operator=\x22+\x22 value=(send method_name=\x22y\xff\x02\x22 args=[(send method_name=\x22z\xff\x03\x22 args=[] selector=13-15 expression=13-15)] selector=10-12 expression=10-15) operator=7-9 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atIDENTIFIER 4-6 x\xff\x01\x0atOP_ASGN 7-9 +=\x0atIDENTIFIER 10-12 y\xff\x02\x0atIDENTIFIER 13-15 z\xff\x03\x0aEOF 15-15 " },
    Rec { t: b"v\xffa::V\xffb += y\xffa z\xffa", shape: b"(op_asgn recv=(casgn scope=(send method_name=\x22v\xff\x00\x22 args=[]) name=\x22V\xff\x01\x22) operator=\x22+\x22 value=(send method_name=\x22y\xff\x02\x22 args=[(send method_name=\x22z\xff\x03\x22 args=[])]))", full: b"(op_asgn recv=(casgn scope=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) name=\x22V\xff\x01\x22 double_colon=2-4 name=4-6 expression=0-6) operator=\x22+\x22 value=(send method_name=\x22y\xff\x02\x22 args=[(send method_name=\x22z\xff\x03\x22 args=[] selector=13-15 expression=13-15)] selector=10-12 expression=10-15) operator=7-9 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atCONSTANT 4-6 V\xff\x01\x0atOP_ASGN 7-9 +=\x0atIDENTIFIER 10-12 y\xff\x02\x0atIDENTIFIER 13-15 z\xff\x03\x0aEOF 15-15 " },
    Rec { t: b"V\xffb::X\xffb ||= y\xffa z\xffa", shape: b"(or_asgn recv=(casgn scope=(const name=\x22V\xff\x00\x22) name=\x22X\xff\x01\x22) value=(send method_name=\x22y\xff\x02\x22 args=[(send method_name=\x22z\xff\x03\x22 args=[])]))", full: b"(or_asgn recv=(casgn scope=(const name=\x22V\xff\x00\x22 name=0-2 expression=0-2) name=\x22X\xff\x01\x22 double_colon=2-4 name=4-6 expression=0-6) value=(send method_name=\x22y\xff\x02\x22 args=[(send method_name=\x22z\xff\x03\x22 args=[] selector=14-16 expression=14-16)] selector=11-13 expression=11-16) operator=7-10 expression=0-16)", diag: b"", toks: b"\x0atCONSTANT 0-2 V\xff\x00\x0atCOLON2 2-4 ::\x0atCONSTANT 4-6 X\xff\x01\x0atOP_ASGN 7-10 ||=\x0atIDENTIFIER 11-13 y\xff\x02\x0atIDENTIFIER 14-16 z\xff\x03\x0aEOF 16-16 " },
    Rec { t: b"v\xffa[x\xffa] += y\xffa z\xffa", shape: b"(op_asgn recv=(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(send method_name=\x22x\xff\x01\x22 args=[])]) operator=\x22+\x22 value=(send method_name=\x22y\xff\x02\x22 args=[(send method_name=\x22z\xff\x03\x22 args=[])]))", full: b"(op_asgn recv=(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5)] begin=2-3 end=5-6 expression=0-6) operator=\x22+\x22 value=(send method_name=\x22y\xff\x02\x22 args=[(send method_name=\x22z\xff\x03\x22 args=[] selector=13-15 expression=13-15)] selector=10-12 expression=10-15) operator=7-9 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atIDENTIFIER 3-5 x\xff\x01\x0atRBRACK 5-6 ]\x0atOP_ASGN 7-9 +=\x0atIDENTIFIER 10-12 y\xff\x02\x0atIDENTIFIER 13-15 z\xff\x03\x0aEOF 15-15 " },
    Rec { t: b"v\xffa[] += x\xffa", shape: b"(op_asgn recv=(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[]) operator=\x22+\x22 value=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(op_asgn recv=(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[] begin=2-3 end=3-4 expression=0-4) operator=\x22+\x22 value=(send method_name=\x22x\xff\x01\x22 args=[] selector=8-10 expression=8-10) operator=5-7 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atRBRACK 3-4 ]\x0atOP_ASGN 5-7 +=\x0atIDENTIFIER 8-10 x\xff\x01\x0aEOF 10-10 " },
    Rec { t: b"v\xffa[] = x\xffa", shape: b"(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[] value=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[] value=(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9) begin=2-3 end=3-4 operator=5-6 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atRBRACK 3-4 ]\x0atEQL 5-6 =\x0atIDENTIFIER 7-9 x\xff\x01\x0aEOF 9-9 " },
    Rec { t: b"@v\xffa += y\xffa z\xffa", shape: b"(op_asgn recv=(ivasgn name=\x22@v\xff\x00\x22) operator=\x22+\x22 value=(send method_name=\x22y\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[])]))", full: b"(op_asgn recv=(ivasgn name=\x22@v\xff\x00\x22 name=0-3 expression=0-3) operator=\x22+\x22 value=(send method_name=\x22y\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[] selector=10-12 expression=10-12)] selector=7-9 expression=7-12) operator=4-6 expression=0-12)", diag: b"", toks: b"\x0atIVAR 0-3 @v\xff\x00\x0atOP_ASGN 4-6 +=\x0atIDENTIFIER 7-9 y\xff\x01\x0atIDENTIFIER 10-12 z\xff\x02\x0aEOF 12-12 " },
    Rec { t: b"v\xffa = x\xffa = y\xffa z\xffa", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(lvasgn name=\x22x\xff\x01\x22 value=(send method_name=\x22y\xff\x02\x22 args=[(send method_name=\x22z\xff\x03\x22 args=[])])))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(lvasgn name=\x22x\xff\x01\x22 value=(send method_name=\x22y\xff\x02\x22 args=[(send method_name=\x22z\xff\x03\x22 args=[] selector=13-15 expression=13-15)] selector=10-12 expression=10-15) name=5-7 operator=8-9 expression=5-15) name=0-2 operator=3-4 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atIDENTIFIER 5-7 x\xff\x01\x0atEQL 8-9 =\x0atIDENTIFIER 10-12 y\xff\x02\x0atIDENTIFIER 13-15 z\xff\x03\x0aEOF 15-15 " },
    Rec { t: b"v\xffa += x\xffa += y\xffa z\xffa", shape: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22) operator=\x22+\x22 value=(op_asgn recv=(lvasgn name=\x22x\xff\x01\x22) operator=\x22+\x22 value=(send method_name=\x22y\xff\x02\x22 args=[(send method_name=\x22z\xff\x03\x22 args=[])])))", full: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) operator=\x22+\x22 value=(op_asgn recv=(lvasgn name=\x22x\xff\x01\x22 name=6-8 expression=6-8) operator=\x22+\x22 value=(send method_name=\x22y\xff\x02\x22 args=[(send method_name=\x22z\xff\x03\x22 args=[] selector=15-17 expression=15-17)] selector=12-14 expression=12-17) operator=9-11 expression=6-17) operator=3-5 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atOP_ASGN 3-5 +=\x0atIDENTIFIER 6-8 x\xff\x01\x0atOP_ASGN 9-11 +=\x0atIDENTIFIER 12-14 y\xff\x02\x0atIDENTIFIER 15-17 z\xff\x03\x0aEOF 17-17 " },
    Rec { t: b"v\xffa = x\xffa z\xffa rescue y\xffa", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[])]) rescue_bodies=[(rescue_body body=(send method_name=\x22y\xff\x03\x22 args=[]))]))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[] selector=8-10 expression=8-10)] selector=5-7 expression=5-10) rescue_bodies=[(rescue_body body=(send method_name=\x22y\xff\x03\x22 args=[] selector=18-20 expression=18-20) keyword=11-17 expression=11-20)] expression=5-20) name=0-2 operator=3-4 expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atIDENTIFIER 5-7 x\xff\x01\x0atIDENTIFIER 8-10 z\xff\x02\x0akRESCUE_MOD 11-17 rescue\x0atIDENTIFIER 18-20 y\xff\x03\x0aEOF 20-20 " },
    Rec { t: b"v\xffa += x\xffa z\xffa rescue y\xffa", shape: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22) operator=\x22+\x22 value=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[])]) rescue_bodies=[(rescue_body body=(send method_name=\x22y\xff\x03\x22 args=[]))]))", full: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) operator=\x22+\x22 value=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22z\xff\x02\x22 args=[] selector=9-11 expression=9-11)] selector=6-8 expression=6-11) rescue_bodies=[(rescue_body body=(send method_name=\x22y\xff\x03\x22 args=[] selector=19-21 expression=19-21) keyword=12-18 expression=12-21)] expression=6-21) operator=3-5 expression=0-21)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atOP_ASGN 3-5 +=\x0atIDENTIFIER 6-8 x\xff\x01\x0atIDENTIFIER 9-11 z\xff\x02\x0akRESCUE_MOD 12-18 rescue\x0atIDENTIFIER 19-21 y\xff\x03\x0aEOF 21-21 " },
    Rec { t: b"v\xffa += x\xffa rescue y\xffa", shape: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22) operator=\x22+\x22 value=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22y\xff\x02\x22 args=[]))]))", full: b"(op_asgn recv=(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) operator=\x22+\x22 value=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8) rescue_bodies=[(rescue_body body=(send method_name=\x22y\xff\x02\x22 args=[] selector=16-18 expression=16-18) keyword=9-15 expression=9-18)] expression=6-18) operator=3-5 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atOP_ASGN 3-5 +=\x0atIDENTIFIER 6-8 x\xff\x01\x0akRESCUE_MOD 9-15 rescue\x0atIDENTIFIER 16-18 y\xff\x02\x0aEOF 18-18 " },
    Rec { t: b"v\xffa.x\xffa += z\xffa rescue y\xffa", shape: b"(op_asgn recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) operator=\x22+\x22 value=(rescue body=(send method_name=\x22z\xff\x02\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22y\xff\x03\x22 args=[]))]))", full: b"(op_asgn recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-3 selector=3-5 expression=0-5) operator=\x22+\x22 value=(rescue body=(send method_name=\x22z\xff\x02\x22 args=[] selector=9-11 expression=9-11) rescue_bodies=[(rescue_body body=(send method_name=\x22y\xff\x03\x22 args=[] selector=19-21 expression=19-21) keyword=12-18 expression=12-21)] expression=9-21) operator=6-8 expression=0-21)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atOP_ASGN 6-8 +=\x0atIDENTIFIER 9-11 z\xff\x02\x0akRESCUE_MOD 12-18 rescue\x0atIDENTIFIER 19-21 y\xff\x03\x0aEOF 21-21 " },
    Rec { t: b"v\xffa[x\xffa] ||= z\xffa rescue y\xffa", shape: b"(or_asgn recv=(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(send method_name=\x22x\xff\x01\x22 args=[])]) value=(rescue body=(send method_name=\x22z\xff\x02\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22y\xff\x03\x22 args=[]))]))", full: b"(or_asgn recv=(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5)] begin=2-3 end=5-6 expression=0-6) value=(rescue body=(send method_name=\x22z\xff\x02\x22 args=[] selector=11-13 expression=11-13) rescue_bodies=[(rescue_body body=(send method_name=\x22y\xff\x03\x22 args=[] selector=21-23 expression=21-23) keyword=14-20 expression=14-23)] expression=11-23) operator=7-10 expression=0-23)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atIDENTIFIER 3-5 x\xff\x01\x0atRBRACK 5-6 ]\x0atOP_ASGN 7-10 ||=\x0atIDENTIFIER 11-13 z\xff\x02\x0akRESCUE_MOD 14-20 rescue\x0atIDENTIFIER 21-23 y\xff\x03\x0aEOF 23-23 " },
    Rec { t: b"v\xffa::x\xffa ||= z\xffa rescue y\xffa", shape: b"(or_asgn recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) value=(rescue body=(send method_name=\x22z\xff\x02\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22y\xff\x03\x22 args=[]))]))", full: b"(or_asgn recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-4 selector=4-6 expression=0-6) value=(rescue body=(send method_name=\x22z\xff\x02\x22 args=[] selector=11-13 expression=11-13) rescue_bodies=[(rescue_body body=(send method_name=\x22y\xff\x03\x22 args=[] selector=21-23 expression=21-23) keyword=14-20 expression=14-23)] expression=11-23) operator=7-10 expression=0-23)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atIDENTIFIER 4-6 x\xff\x01\x0atOP_ASGN 7-10 ||=\x0atIDENTIFIER 11-13 z\xff\x02\x0akRESCUE_MOD 14-20 rescue\x0atIDENTIFIER 21-23 y\xff\x03\x0aEOF 23-23 " },
    Rec { t: b"v\xffa::V\xffb ||= z\xffa rescue y\xffa", shape: b"(or_asgn recv=(casgn scope=(send method_name=\x22v\xff\x00\x22 args=[]) name=\x22V\xff\x01\x22) value=(rescue body=(send method_name=\x22z\xff\x02\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22y\xff\x03\x22 args=[]))]))", full: b"(or_asgn recv=(casgn scope=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) name=\x22V\xff\x01\x22 double_colon=2-4 name=4-6 expression=0-6) value=(rescue body=(send method_name=\x22z\xff\x02\x22 args=[] selector=11-13 expression=11-13) rescue_bodies=[(rescue_body body=(send method_name=\x22y\xff\x03\x22 args=[] selector=21-23 expression=21-23) keyword=14-20 expression=14-23)] expression=11-23) operator=7-10 expression=0-23)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atCONSTANT 4-6 V\xff\x01\x0atOP_ASGN 7-10 ||=\x0atIDENTIFIER 11-13 z\xff\x02\x0akRESCUE_MOD 14-20 rescue\x0atIDENTIFIER 21-23 y\xff\x03\x0aEOF 23-23 " },
    Rec { t: b"::V\xffb &&= z\xffa rescue y\xffa", shape: b"(and_asgn recv=(casgn scope=(cbase) name=\x22V\xff\x00\x22) value=(rescue body=(send method_name=\x22z\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22y\xff\x02\x22 args=[]))]))", full: b"(and_asgn recv=(casgn scope=(cbase expression=0-2) name=\x22V\xff\x00\x22 double_colon=0-2 name=2-4 expression=0-4) value=(rescue body=(send method_name=\x22z\xff\x01\x22 args=[] selector=9-11 expression=9-11) rescue_bodies=[(rescue_body body=(send method_name=\x22y\xff\x02\x22 args=[] selector=19-21 expression=19-21) keyword=12-18 expression=12-21)] expression=9-21) operator=5-8 expression=0-21)", diag: b"", toks: b"\x0atCOLON3 0-2 ::\x0atCONSTANT 2-4 V\xff\x00\x0atOP_ASGN 5-8 &&=\x0atIDENTIFIER 9-11 z\xff\x01\x0akRESCUE_MOD 12-18 rescue\x0atIDENTIFIER 19-21 y\xff\x02\x0aEOF 21-21 " },
    Rec { t: b"v\xffa, x\xffa = y\xffa z\xffa", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (lvasgn name=\x22x\xff\x01\x22)]) rhs=(send method_name=\x22y\xff\x02\x22 args=[(send method_name=\x22z\xff\x03\x22 args=[])]))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) (lvasgn name=\x22x\xff\x01\x22 name=4-6 expression=4-6)] expression=0-6) rhs=(send method_name=\x22y\xff\x02\x22 args=[(send method_name=\x22z\xff\x03\x22 args=[] selector=12-14 expression=12-14)] selector=9-11 expression=9-14) operator=7-8 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOMMA 2-3 ,\x0atIDENTIFIER 4-6 x\xff\x01\x0atEQL 7-8 =\x0atIDENTIFIER 9-11 y\xff\x02\x0atIDENTIFIER 12-14 z\xff\x03\x0aEOF 14-14 " },
    Rec { t: b"v\xffa, x\xffa = y\xffa rescue z\xffa", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (lvasgn name=\x22x\xff\x01\x22)]) rhs=(rescue body=(send method_name=\x22y\xff\x02\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22z\xff\x03\x22 args=[]))]))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) (lvasgn name=\x22x\xff\x01\x22 name=4-6 expression=4-6)] expression=0-6) rhs=(rescue body=(send method_name=\x22y\xff\x02\x22 args=[] selector=9-11 expression=9-11) rescue_bodies=[(rescue_body body=(send method_name=\x22z\xff\x03\x22 args=[] selector=19-21 expression=19-21) keyword=12-18 expression=12-21)] expression=9-21) operator=7-8 expression=0-21)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOMMA 2-3 ,\x0atIDENTIFIER 4-6 x\xff\x01\x0atEQL 7-8 =\x0atIDENTIFIER 9-11 y\xff\x02\x0akRESCUE_MOD 12-18 rescue\x0atIDENTIFIER 19-21 z\xff\x03\x0aEOF 21-21 " },
    Rec { t: b"v\xffa, x\xffa = y\xffa z\xffa rescue zo", shape: b"(rescue body=(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (lvasgn name=\x22x\xff\x01\x22)]) rhs=(send method_name=\x22y\xff\x02\x22 args=[(send method_name=\x22z\xff\x03\x22 args=[])])) rescue_bodies=[(rescue_body body=(send method_name=\x22zo\x22 args=[]))])", full: b"(rescue body=(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) (lvasgn name=\x22x\xff\x01\x22 name=4-6 expression=4-6)] expression=0-6) rhs=(send method_name=\x22y\xff\x02\x22 args=[(send method_name=\x22z\xff\x03\x22 args=[] selector=12-14 expression=12-14)] selector=9-11 expression=9-14) operator=7-8 expression=0-14) rescue_bodies=[(rescue_body body=(send method_name=\x22zo\x22 args=[] selector=22-24 expression=22-24) keyword=15-21 expression=15-24)] expression=0-24)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOMMA 2-3 ,\x0atIDENTIFIER 4-6 x\xff\x01\x0atEQL 7-8 =\x0atIDENTIFIER 9-11 y\xff\x02\x0atIDENTIFIER 12-14 z\xff\x03\x0akRESCUE_MOD 15-21 rescue\x0atIDENTIFIER 22-24 zo\x0aEOF 24-24 " },
    Rec { t: b"v\xffa, x\xffa = *y\xffa", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (lvasgn name=\x22x\xff\x01\x22)]) rhs=(array elements=[(splat value=(send method_name=\x22y\xff\x02\x22 args=[]))]))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) (lvasgn name=\x22x\xff\x01\x22 name=4-6 expression=4-6)] expression=0-6) rhs=(array elements=[(splat value=(send method_name=\x22y\xff\x02\x22 args=[] selector=10-12 expression=10-12) operator=9-10 expression=9-12)] expression=9-12) operator=7-8 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOMMA 2-3 ,\x0atIDENTIFIER 4-6 x\xff\x01\x0atEQL 7-8 =\x0atSTAR 9-10 *\x0atIDENTIFIER 10-12 y\xff\x02\x0aEOF 12-12 " },
    Rec { t: b"v\xffa, x\xffa = y\xffa, *z\xffa", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (lvasgn name=\x22x\xff\x01\x22)]) rhs=(array elements=[(send method_name=\x22y\xff\x02\x22 args=[]) (splat value=(send method_name=\x22z\xff\x03\x22 args=[]))]))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) (lvasgn name=\x22x\xff\x01\x22 name=4-6 expression=4-6)] expression=0-6) rhs=(array elements=[(send method_name=\x22y\xff\x02\x22 args=[] selector=9-11 expression=9-11) (splat value=(send method_name=\x22z\xff\x03\x22 args=[] selector=14-16 expression=14-16) operator=13-14 expression=13-16)] expression=9-16) operator=7-8 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOMMA 2-3 ,\x0atIDENTIFIER 4-6 x\xff\x01\x0atEQL 7-8 =\x0atIDENTIFIER 9-11 y\xff\x02\x0atCOMMA 11-12 ,\x0atSTAR 13-14 *\x0atIDENTIFIER 14-16 z\xff\x03\x0aEOF 16-16 " },
    Rec { t: b"v\xffa, x\xffa = *y\xffa, z\xffa", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (lvasgn name=\x22x\xff\x01\x22)]) rhs=(array elements=[(splat value=(send method_name=\x22y\xff\x02\x22 args=[])) (send method_name=\x22z\xff\x03\x22 args=[])]))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) (lvasgn name=\x22x\xff\x01\x22 name=4-6 expression=4-6)] expression=0-6) rhs=(array elements=[(splat value=(send method_name=\x22y\xff\x02\x22 args=[] selector=10-12 expression=10-12) operator=9-10 expression=9-12) (send method_name=\x22z\xff\x03\x22 args=[] selector=14-16 expression=14-16)] expression=9-16) operator=7-8 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOMMA 2-3 ,\x0atIDENTIFIER 4-6 x\xff\x01\x0atEQL 7-8 =\x0atSTAR 9-10 *\x0atIDENTIFIER 10-12 y\xff\x02\x0atCOMMA 12-13 ,\x0atIDENTIFIER 14-16 z\xff\x03\x0aEOF 16-16 " },
    Rec { t: b"v\xffa = *x\xffa, y\xffa", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(array elements=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[])) (send method_name=\x22y\xff\x02\x22 args=[])]))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(array elements=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8) operator=5-6 expression=5-8) (send method_name=\x22y\xff\x02\x22 args=[] selector=10-12 expression=10-12)] expression=5-12) name=0-2 operator=3-4 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atSTAR 5-6 *\x0atIDENTIFIER 6-8 x\xff\x01\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 y\xff\x02\x0aEOF 12-12 " },
    Rec { t: b"v\xffa = x\xffa, *y\xffa", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(array elements=[(send method_name=\x22x\xff\x01\x22 args=[]) (splat value=(send method_name=\x22y\xff\x02\x22 args=[]))]))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(array elements=[(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7) (splat value=(send method_name=\x22y\xff\x02\x22 args=[] selector=10-12 expression=10-12) operator=9-10 expression=9-12)] expression=5-12) name=0-2 operator=3-4 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atIDENTIFIER 5-7 x\xff\x01\x0atCOMMA 7-8 ,\x0atSTAR 9-10 *\x0atIDENTIFIER 10-12 y\xff\x02\x0aEOF 12-12 " },
    Rec { t: b"v\xffa = x\xffa, y\xffa, z\xffa", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(array elements=[(send method_name=\x22x\xff\x01\x22 args=[]) (send method_name=\x22y\xff\x02\x22 args=[]) (send method_name=\x22z\xff\x03\x22 args=[])]))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(array elements=[(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7) (send method_name=\x22y\xff\x02\x22 args=[] selector=9-11 expression=9-11) (send method_name=\x22z\xff\x03\x22 args=[] selector=13-15 expression=13-15)] expression=5-15) name=0-2 operator=3-4 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atIDENTIFIER 5-7 x\xff\x01\x0atCOMMA 7-8 ,\x0atIDENTIFIER 9-11 y\xff\x02\x0atCOMMA 11-12 ,\x0atIDENTIFIER 13-15 z\xff\x03\x0aEOF 15-15 " },
    Rec { t: b"v\xffa, = x\xffa", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22)]) rhs=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2)] expression=0-2) rhs=(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8) operator=4-5 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOMMA 2-3 ,\x0atEQL 4-5 =\x0atIDENTIFIER 6-8 x\xff\x01\x0aEOF 8-8 " },
    Rec { t: b"v\xffa, (x\xffa, y\xffa) = z\xffa", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (mlhs items=[(lvasgn name=\x22x\xff\x01\x22) (lvasgn name=\x22y\xff\x02\x22)])]) rhs=(send method_name=\x22z\xff\x03\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) (mlhs items=[(lvasgn name=\x22x\xff\x01\x22 name=5-7 expression=5-7) (lvasgn name=\x22y\xff\x02\x22 name=9-11 expression=9-11)] begin=4-5 end=11-12 expression=4-12)] expression=0-12) rhs=(send method_name=\x22z\xff\x03\x22 args=[] selector=15-17 expression=15-17) operator=13-14 expression=0-17)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOMMA 2-3 ,\x0atLPAREN 4-5 (\x0atIDENTIFIER 5-7 x\xff\x01\x0atCOMMA 7-8 ,\x0atIDENTIFIER 9-11 y\xff\x02\x0atRPAREN 11-12 )\x0atEQL 13-14 =\x0atIDENTIFIER 15-17 z\xff\x03\x0aEOF 17-17 " },
    Rec { t: b"v\xffa, (x\xffa, *y\xffa) = z\xffa", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (mlhs items=[(lvasgn name=\x22x\xff\x01\x22) (splat value=(lvasgn name=\x22y\xff\x02\x22))])]) rhs=(send method_name=\x22z\xff\x03\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) (mlhs items=[(lvasgn name=\x22x\xff\x01\x22 name=5-7 expression=5-7) (splat value=(lvasgn name=\x22y\xff\x02\x22 name=10-12 expression=10-12) operator=9-10 expression=9-12)] begin=4-5 end=12-13 expression=4-13)] expression=0-13) rhs=(send method_name=\x22z\xff\x03\x22 args=[] selector=16-18 expression=16-18) operator=14-15 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOMMA 2-3 ,\x0atLPAREN 4-5 (\x0atIDENTIFIER 5-7 x\xff\x01\x0atCOMMA 7-8 ,\x0atSTAR 9-10 *\x0atIDENTIFIER 10-12 y\xff\x02\x0atRPAREN 12-13 )\x0atEQL 14-15 =\x0atIDENTIFIER 16-18 z\xff\x03\x0aEOF 18-18 " },
    Rec { t: b"(v\xffa, x\xffa) = y\xffa", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (lvasgn name=\x22x\xff\x01\x22)]) rhs=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=1-3 expression=1-3) (lvasgn name=\x22x\xff\x01\x22 name=5-7 expression=5-7)] begin=0-1 end=7-8 expression=0-8) rhs=(send method_name=\x22y\xff\x02\x22 args=[] selector=11-13 expression=11-13) operator=9-10 expression=0-13)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atIDENTIFIER 1-3 v\xff\x00\x0atCOMMA 3-4 ,\x0atIDENTIFIER 5-7 x\xff\x01\x0atRPAREN 7-8 )\x0atEQL 9-10 =\x0atIDENTIFIER 11-13 y\xff\x02\x0aEOF 13-13 " },
    Rec { t: b"((v\xffa, x\xffa), y\xffa) = z\xffa", shape: b"(masgn lhs=(mlhs items=[(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (lvasgn name=\x22x\xff\x01\x22)]) (lvasgn name=\x22y\xff\x02\x22)]) rhs=(send method_name=\x22z\xff\x03\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=2-4 expression=2-4) (lvasgn name=\x22x\xff\x01\x22 name=6-8 expression=6-8)] begin=1-2 end=8-9 expression=1-9) (lvasgn name=\x22y\xff\x02\x22 name=11-13 expression=11-13)] begin=0-1 end=13-14 expression=0-14) rhs=(send method_name=\x22z\xff\x03\x22 args=[] selector=17-19 expression=17-19) operator=15-16 expression=0-19)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atLPAREN 1-2 (\x0atIDENTIFIER 2-4 v\xff\x00\x0atCOMMA 4-5 ,\x0atIDENTIFIER 6-8 x\xff\x01\x0atRPAREN 8-9 )\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 y\xff\x02\x0atRPAREN 13-14 )\x0atEQL 15-16 =\x0atIDENTIFIER 17-19 z\xff\x03\x0aEOF 19-19 " },
    Rec { t: b"(v\xffa, x\xffa), y\xffa = z\xffa", shape: b"(masgn lhs=(mlhs items=[(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (lvasgn name=\x22x\xff\x01\x22)]) (lvasgn name=\x22y\xff\x02\x22)]) rhs=(send method_name=\x22z\xff\x03\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=1-3 expression=1-3) (lvasgn name=\x22x\xff\x01\x22 name=5-7 expression=5-7)] begin=0-1 end=7-8 expression=0-8) (lvasgn name=\x22y\xff\x02\x22 name=10-12 expression=10-12)] expression=0-12) rhs=(send method_name=\x22z\xff\x03\x22 args=[] selector=15-17 expression=15-17) operator=13-14 expression=0-17)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atIDENTIFIER 1-3 v\xff\x00\x0atCOMMA 3-4 ,\x0atIDENTIFIER 5-7 x\xff\x01\x0atRPAREN 7-8 )\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 y\xff\x02\x0atEQL 13-14 =\x0atIDENTIFIER 15-17 z\xff\x03\x0aEOF 17-17 " },
    Rec { t: b"*v\xffa, x\xffa = y\xffa", shape: b"(masgn lhs=(mlhs items=[(splat value=(lvasgn name=\x22v\xff\x00\x22)) (lvasgn name=\x22x\xff\x01\x22)]) rhs=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(splat value=(lvasgn name=\x22v\xff\x00\x22 name=1-3 expression=1-3) operator=0-1 expression=0-3) (lvasgn name=\x22x\xff\x01\x22 name=5-7 expression=5-7)] expression=0-7) rhs=(send method_name=\x22y\xff\x02\x22 args=[] selector=10-12 expression=10-12) operator=8-9 expression=0-12)", diag: b"", toks: b"\x0atSTAR 0-1 *\x0atIDENTIFIER 1-3 v\xff\x00\x0atCOMMA 3-4 ,\x0atIDENTIFIER 5-7 x\xff\x01\x0atEQL 8-9 =\x0atIDENTIFIER 10-12 y\xff\x02\x0aEOF 12-12 " },
    Rec { t: b"*v\xffa, x\xffa, z\xffa = y\xffa", shape: b"(masgn lhs=(mlhs items=[(splat value=(lvasgn name=\x22v\xff\x00\x22)) (lvasgn name=\x22x\xff\x01\x22) (lvasgn name=\x22z\xff\x02\x22)]) rhs=(send method_name=\x22y\xff\x03\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(splat value=(lvasgn name=\x22v\xff\x00\x22 name=1-3 expression=1-3) operator=0-1 expression=0-3) (lvasgn name=\x22x\xff\x01\x22 name=5-7 expression=5-7) (lvasgn name=\x22z\xff\x02\x22 name=9-11 expression=9-11)] expression=0-11) rhs=(send method_name=\x22y\xff\x03\x22 args=[] selector=14-16 expression=14-16) operator=12-13 expression=0-16)", diag: b"", toks: b"\x0atSTAR 0-1 *\x0atIDENTIFIER 1-3 v\xff\x00\x0atCOMMA 3-4 ,\x0atIDENTIFIER 5-7 x\xff\x01\x0atCOMMA 7-8 ,\x0atIDENTIFIER 9-11 z\xff\x02\x0atEQL 12-13 =\x0atIDENTIFIER 14-16 y\xff\x03\x0aEOF 16-16 " },
    Rec { t: b"v\xffa, *x\xffa, z\xffa = y\xffa", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (splat value=(lvasgn name=\x22x\xff\x01\x22)) (lvasgn name=\x22z\xff\x02\x22)]) rhs=(send method_name=\x22y\xff\x03\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) (splat value=(lvasgn name=\x22x\xff\x01\x22 name=5-7 expression=5-7) operator=4-5 expression=4-7) (lvasgn name=\x22z\xff\x02\x22 name=9-11 expression=9-11)] expression=0-11) rhs=(send method_name=\x22y\xff\x03\x22 args=[] selector=14-16 expression=14-16) operator=12-13 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOMMA 2-3 ,\x0atSTAR 4-5 *\x0atIDENTIFIER 5-7 x\xff\x01\x0atCOMMA 7-8 ,\x0atIDENTIFIER 9-11 z\xff\x02\x0atEQL 12-13 =\x0atIDENTIFIER 14-16 y\xff\x03\x0aEOF 16-16 " },
    Rec { t: b"v\xffa, *x\xffa, z\xffa, q\xffa = y\xffa", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (splat value=(lvasgn name=\x22x\xff\x01\x22)) (lvasgn name=\x22z\xff\x02\x22) (lvasgn name=\x22q\xff\x03\x22)]) rhs=(send method_name=\x22y\xff\x04\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) (splat value=(lvasgn name=\x22x\xff\x01\x22 name=5-7 expression=5-7) operator=4-5 expression=4-7) (lvasgn name=\x22z\xff\x02\x22 name=9-11 expression=9-11) (lvasgn name=\x22q\xff\x03\x22 name=13-15 expression=13-15)] expression=0-15) rhs=(send method_name=\x22y\xff\x04\x22 args=[] selector=18-20 expression=18-20) operator=16-17 expression=0-20)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOMMA 2-3 ,\x0atSTAR 4-5 *\x0atIDENTIFIER 5-7 x\xff\x01\x0atCOMMA 7-8 ,\x0atIDENTIFIER 9-11 z\xff\x02\x0atCOMMA 11-12 ,\x0atIDENTIFIER 13-15 q\xff\x03\x0atEQL 16-17 =\x0atIDENTIFIER 18-20 y\xff\x04\x0aEOF 20-20 " },
    Rec { t: b"v\xffa, * = y\xffa", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (splat)]) rhs=(send method_name=\x22y\xff\x01\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) (splat operator=4-5 expression=4-5)] expression=0-5) rhs=(send method_name=\x22y\xff\x01\x22 args=[] selector=8-10 expression=8-10) operator=6-7 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOMMA 2-3 ,\x0atSTAR 4-5 *\x0atEQL 6-7 =\x0atIDENTIFIER 8-10 y\xff\x01\x0aEOF 10-10 " },
    Rec { t: b"*, v\xffa = y\xffa", shape: b"(masgn lhs=(mlhs items=[(splat) (lvasgn name=\x22v\xff\x00\x22)]) rhs=(send method_name=\x22y\xff\x01\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(splat operator=0-1 expression=0-1) (lvasgn name=\x22v\xff\x00\x22 name=3-5 expression=3-5)] expression=0-5) rhs=(send method_name=\x22y\xff\x01\x22 args=[] selector=8-10 expression=8-10) operator=6-7 expression=0-10)", diag: b"", toks: b"\x0atSTAR 0-1 *\x0atCOMMA 1-2 ,\x0atIDENTIFIER 3-5 v\xff\x00\x0atEQL 6-7 =\x0atIDENTIFIER 8-10 y\xff\x01\x0aEOF 10-10 " },
    Rec { t: b"* = y\xffa", shape: b"(masgn lhs=(mlhs items=[(splat)]) rhs=(send method_name=\x22y\xff\x00\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(splat operator=0-1 expression=0-1)] expression=0-1) rhs=(send method_name=\x22y\xff\x00\x22 args=[] selector=4-6 expression=4-6) operator=2-3 expression=0-6)", diag: b"", toks: b"\x0atSTAR 0-1 *\x0atEQL 2-3 =\x0atIDENTIFIER 4-6 y\xff\x00\x0aEOF 6-6 " },
    Rec { t: b"v\xffa, *, x\xffa = y\xffa", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (splat) (lvasgn name=\x22x\xff\x01\x22)]) rhs=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) (splat operator=4-5 expression=4-5) (lvasgn name=\x22x\xff\x01\x22 name=7-9 expression=7-9)] expression=0-9) rhs=(send method_name=\x22y\xff\x02\x22 args=[] selector=12-14 expression=12-14) operator=10-11 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOMMA 2-3 ,\x0atSTAR 4-5 *\x0atCOMMA 5-6 ,\x0atIDENTIFIER 7-9 x\xff\x01\x0atEQL 10-11 =\x0atIDENTIFIER 12-14 y\xff\x02\x0aEOF 14-14 " },
    Rec { t: b"(*v\xffa) = x\xffa", shape: b"(masgn lhs=(mlhs items=[(splat value=(lvasgn name=\x22v\xff\x00\x22))]) rhs=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(splat value=(lvasgn name=\x22v\xff\x00\x22 name=2-4 expression=2-4) operator=1-2 expression=1-4)] begin=0-1 end=4-5 expression=0-5) rhs=(send method_name=\x22x\xff\x01\x22 args=[] selector=8-10 expression=8-10) operator=6-7 expression=0-10)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atSTAR 1-2 *\x0atIDENTIFIER 2-4 v\xff\x00\x0atRPAREN 4-5 )\x0atEQL 6-7 =\x0atIDENTIFIER 8-10 x\xff\x01\x0aEOF 10-10 " },
    Rec { t: b"(v\xffa, *) = x\xffa", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (splat)]) rhs=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=1-3 expression=1-3) (splat operator=5-6 expression=5-6)] begin=0-1 end=6-7 expression=0-7) rhs=(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12) operator=8-9 expression=0-12)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atIDENTIFIER 1-3 v\xff\x00\x0atCOMMA 3-4 ,\x0atSTAR 5-6 *\x0atRPAREN 6-7 )\x0atEQL 8-9 =\x0atIDENTIFIER 10-12 x\xff\x01\x0aEOF 12-12 " },
    Rec { t: b"(*, v\xffa) = x\xffa", shape: b"(masgn lhs=(mlhs items=[(splat) (lvasgn name=\x22v\xff\x00\x22)]) rhs=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(splat operator=1-2 expression=1-2) (lvasgn name=\x22v\xff\x00\x22 name=4-6 expression=4-6)] begin=0-1 end=6-7 expression=0-7) rhs=(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12) operator=8-9 expression=0-12)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atSTAR 1-2 *\x0atCOMMA 2-3 ,\x0atIDENTIFIER 4-6 v\xff\x00\x0atRPAREN 6-7 )\x0atEQL 8-9 =\x0atIDENTIFIER 10-12 x\xff\x01\x0aEOF 12-12 " },
    Rec { t: b"v\xffa.x\xffa, y\xffa = z\xffa", shape: b"(masgn lhs=(mlhs items=[(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01=\x22 args=[]) (lvasgn name=\x22y\xff\x02\x22)]) rhs=(send method_name=\x22z\xff\x03\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01=\x22 args=[] dot=2-3 selector=3-5 expression=0-5) (lvasgn name=\x22y\xff\x02\x22 name=7-9 expression=7-9)] expression=0-9) rhs=(send method_name=\x22z\xff\x03\x22 args=[] selector=12-14 expression=12-14) operator=10-11 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atCOMMA 5-6 ,\x0atIDENTIFIER 7-9 y\xff\x02\x0atEQL 10-11 =\x0atIDENTIFIER 12-14 z\xff\x03\x0aEOF 14-14 " },
    Rec { t: b"v\xffa::x\xffa, y\xffa = z\xffa", shape: b"(masgn lhs=(mlhs items=[(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01=\x22 args=[]) (lvasgn name=\x22y\xff\x02\x22)]) rhs=(send method_name=\x22z\xff\x03\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01=\x22 args=[] dot=2-4 selector=4-6 expression=0-6) (lvasgn name=\x22y\xff\x02\x22 name=8-10 expression=8-10)] expression=0-10) rhs=(send method_name=\x22z\xff\x03\x22 args=[] selector=13-15 expression=13-15) operator=11-12 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atIDENTIFIER 4-6 x\xff\x01\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-10 y\xff\x02\x0atEQL 11-12 =\x0atIDENTIFIER 13-15 z\xff\x03\x0aEOF 15-15 " },
    Rec { t: b"v\xffa::V\xffb, y\xffa = z\xffa", shape: b"(masgn lhs=(mlhs items=[(casgn scope=(send method_name=\x22v\xff\x00\x22 args=[]) name=\x22V\xff\x01\x22) (lvasgn name=\x22y\xff\x02\x22)]) rhs=(send method_name=\x22z\xff\x03\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(casgn scope=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) name=\x22V\xff\x01\x22 double_colon=2-4 name=4-6 expression=0-6) (lvasgn name=\x22y\xff\x02\x22 name=8-10 expression=8-10)] expression=0-10) rhs=(send method_name=\x22z\xff\x03\x22 args=[] selector=13-15 expression=13-15) operator=11-12 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOLON2 2-4 ::\x0atCONSTANT 4-6 V\xff\x01\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-10 y\xff\x02\x0atEQL 11-12 =\x0atIDENTIFIER 13-15 z\xff\x03\x0aEOF 15-15 " },
    Rec { t: b"::V\xffb, y\xffa = z\xffa", shape: b"(masgn lhs=(mlhs items=[(casgn scope=(cbase) name=\x22V\xff\x00\x22) (lvasgn name=\x22y\xff\x01\x22)]) rhs=(send method_name=\x22z\xff\x02\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(casgn scope=(cbase expression=0-2) name=\x22V\xff\x00\x22 double_colon=0-2 name=2-4 expression=0-4) (lvasgn name=\x22y\xff\x01\x22 name=6-8 expression=6-8)] expression=0-8) rhs=(send method_name=\x22z\xff\x02\x22 args=[] selector=11-13 expression=11-13) operator=9-10 expression=0-13)", diag: b"", toks: b"\x0atCOLON3 0-2 ::\x0atCONSTANT 2-4 V\xff\x00\x0atCOMMA 4-5 ,\x0atIDENTIFIER 6-8 y\xff\x01\x0atEQL 9-10 =\x0atIDENTIFIER 11-13 z\xff\x02\x0aEOF 13-13 " },
    Rec { t: b"v\xffa[x\xffa], y\xffa = z\xffa", shape: b"(masgn lhs=(mlhs items=[(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(send method_name=\x22x\xff\x01\x22 args=[])]) (lvasgn name=\x22y\xff\x02\x22)]) rhs=(send method_name=\x22z\xff\x03\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5)] begin=2-3 end=5-6 expression=0-6) (lvasgn name=\x22y\xff\x02\x22 name=8-10 expression=8-10)] expression=0-10) rhs=(send method_name=\x22z\xff\x03\x22 args=[] selector=13-15 expression=13-15) operator=11-12 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atIDENTIFIER 3-5 x\xff\x01\x0atRBRACK 5-6 ]\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-10 y\xff\x02\x0atEQL 11-12 =\x0atIDENTIFIER 13-15 z\xff\x03\x0aEOF 15-15 " },
    Rec { t: b"v\xffa&.x\xffa = y\xffa", shape: b"(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01=\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[])])", full: b"(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01=\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[] selector=9-11 expression=9-11)] dot=2-4 selector=4-6 operator=7-8 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atANDDOT 2-4 &.\x0atIDENTIFIER 4-6 x\xff\x01\x0atEQL 7-8 =\x0atIDENTIFIER 9-11 y\xff\x02\x0aEOF 11-11 " },
    Rec { t: b"v\xffa&.x\xffa += y\xffa", shape: b"(op_asgn recv=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) operator=\x22+\x22 value=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(op_asgn recv=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-4 selector=4-6 expression=0-6) operator=\x22+\x22 value=(send method_name=\x22y\xff\x02\x22 args=[] selector=10-12 expression=10-12) operator=7-9 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atANDDOT 2-4 &.\x0atIDENTIFIER 4-6 x\xff\x01\x0atOP_ASGN 7-9 +=\x0atIDENTIFIER 10-12 y\xff\x02\x0aEOF 12-12 " },
    Rec { t: b"v\xffa&.x\xffa ||= y\xffa", shape: b"(or_asgn recv=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) value=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(or_asgn recv=(c_send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[] dot=2-4 selector=4-6 expression=0-6) value=(send method_name=\x22y\xff\x02\x22 args=[] selector=11-13 expression=11-13) operator=7-10 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atANDDOT 2-4 &.\x0atIDENTIFIER 4-6 x\xff\x01\x0atOP_ASGN 7-10 ||=\x0atIDENTIFIER 11-13 y\xff\x02\x0aEOF 13-13 " },
    Rec { t: b"@v\xffa, $x\xffa, @@y\xffa, V\xffb = z\xffa", shape: b"(masgn lhs=(mlhs items=[(ivasgn name=\x22@v\xff\x00\x22) (gvasgn name=\x22$x\xff\x01\x22) (cvasgn name=\x22@@y\xff\x02\x22) (casgn name=\x22V\xff\x03\x22)]) rhs=(send method_name=\x22z\xff\x04\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(ivasgn name=\x22@v\xff\x00\x22 name=0-3 expression=0-3) (gvasgn name=\x22$x\xff\x01\x22 name=5-8 expression=5-8) (cvasgn name=\x22@@y\xff\x02\x22 name=10-14 expression=10-14) (casgn name=\x22V\xff\x03\x22 name=16-18 expression=16-18)] expression=0-18) rhs=(send method_name=\x22z\xff\x04\x22 args=[] selector=21-23 expression=21-23) operator=19-20 expression=0-23)", diag: b"", toks: b"\x0atIVAR 0-3 @v\xff\x00\x0atCOMMA 3-4 ,\x0atGVAR 5-8 $x\xff\x01\x0atCOMMA 8-9 ,\x0atCVAR 10-14 @@y\xff\x02\x0atCOMMA 14-15 ,\x0atCONSTANT 16-18 V\xff\x03\x0atEQL 19-20 =\x0atIDENTIFIER 21-23 z\xff\x04\x0aEOF 23-23 " },
    Rec { t: b"*v\xffa.x\xffa, y\xffa = z\xffa", shape: b"(masgn lhs=(mlhs items=[(splat value=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01=\x22 args=[])) (lvasgn name=\x22y\xff\x02\x22)]) rhs=(send method_name=\x22z\xff\x03\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(splat value=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3) method_name=\x22x\xff\x01=\x22 args=[] dot=3-4 selector=4-6 expression=1-6) operator=0-1 expression=0-6) (lvasgn name=\x22y\xff\x02\x22 name=8-10 expression=8-10)] expression=0-10) rhs=(send method_name=\x22z\xff\x03\x22 args=[] selector=13-15 expression=13-15) operator=11-12 expression=0-15)", diag: b"", toks: b"\x0atSTAR 0-1 *\x0atIDENTIFIER 1-3 v\xff\x00\x0atDOT 3-4 .\x0atIDENTIFIER 4-6 x\xff\x01\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-10 y\xff\x02\x0atEQL 11-12 =\x0atIDENTIFIER 13-15 z\xff\x03\x0aEOF 15-15 " },
    Rec { t: b"*v\xffa[x\xffa], y\xffa = z\xffa", shape: b"(masgn lhs=(mlhs items=[(splat value=(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(send method_name=\x22x\xff\x01\x22 args=[])])) (lvasgn name=\x22y\xff\x02\x22)]) rhs=(send method_name=\x22z\xff\x03\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(splat value=(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3) indexes=[(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6)] begin=3-4 end=6-7 expression=1-7) operator=0-1 expression=0-7) (lvasgn name=\x22y\xff\x02\x22 name=9-11 expression=9-11)] expression=0-11) rhs=(send method_name=\x22z\xff\x03\x22 args=[] selector=14-16 expression=14-16) operator=12-13 expression=0-16)", diag: b"", toks: b"\x0atSTAR 0-1 *\x0atIDENTIFIER 1-3 v\xff\x00\x0atLBRACK2 3-4 [\x0atIDENTIFIER 4-6 x\xff\x01\x0atRBRACK 6-7 ]\x0atCOMMA 7-8 ,\x0atIDENTIFIER 9-11 y\xff\x02\x0atEQL 12-13 =\x0atIDENTIFIER 14-16 z\xff\x03\x0aEOF 16-16 " },
    Rec { t: b"*v\xffa::x\xffa = y\xffa", shape: b"(masgn lhs=(mlhs items=[(splat value=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01=\x22 args=[]))]) rhs=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(splat value=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3) method_name=\x22x\xff\x01=\x22 args=[] dot=3-5 selector=5-7 expression=1-7) operator=0-1 expression=0-7)] expression=0-7) rhs=(send method_name=\x22y\xff\x02\x22 args=[] selector=10-12 expression=10-12) operator=8-9 expression=0-12)", diag: b"", toks: b"\x0atSTAR 0-1 *\x0atIDENTIFIER 1-3 v\xff\x00\x0atCOLON2 3-5 ::\x0atIDENTIFIER 5-7 x\xff\x01\x0atEQL 8-9 =\x0atIDENTIFIER 10-12 y\xff\x02\x0aEOF 12-12 " },
    Rec { t: b"*v\xffa::V\xffb = y\xffa", shape: b"(masgn lhs=(mlhs items=[(splat value=(casgn scope=(send method_name=\x22v\xff\x00\x22 args=[]) name=\x22V\xff\x01\x22))]) rhs=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(splat value=(casgn scope=(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3) name=\x22V\xff\x01\x22 double_colon=3-5 name=5-7 expression=1-7) operator=0-1 expression=0-7)] expression=0-7) rhs=(send method_name=\x22y\xff\x02\x22 args=[] selector=10-12 expression=10-12) operator=8-9 expression=0-12)", diag: b"", toks: b"\x0atSTAR 0-1 *\x0atIDENTIFIER 1-3 v\xff\x00\x0atCOLON2 3-5 ::\x0atCONSTANT 5-7 V\xff\x01\x0atEQL 8-9 =\x0atIDENTIFIER 10-12 y\xff\x02\x0aEOF 12-12 " },
    Rec { t: b"*::V\xffb = y\xffa", shape: b"(masgn lhs=(mlhs items=[(splat value=(casgn scope=(cbase) name=\x22V\xff\x00\x22))]) rhs=(send method_name=\x22y\xff\x01\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(splat value=(casgn scope=(cbase expression=1-3) name=\x22V\xff\x00\x22 double_colon=1-3 name=3-5 expression=1-5) operator=0-1 expression=0-5)] expression=0-5) rhs=(send method_name=\x22y\xff\x01\x22 args=[] selector=8-10 expression=8-10) operator=6-7 expression=0-10)", diag: b"", toks: b"\x0atSTAR 0-1 *\x0atCOLON3 1-3 ::\x0atCONSTANT 3-5 V\xff\x00\x0atEQL 6-7 =\x0atIDENTIFIER 8-10 y\xff\x01\x0aEOF 10-10 " },
    Rec { t: b"*@v\xffa = x\xffa", shape: b"(masgn lhs=(mlhs items=[(splat value=(ivasgn name=\x22@v\xff\x00\x22))]) rhs=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(masgn lhs=(mlhs items=[(splat value=(ivasgn name=\x22@v\xff\x00\x22 name=1-4 expression=1-4) operator=0-1 expression=0-4)] expression=0-4) rhs=(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9) operator=5-6 expression=0-9)", diag: b"", toks: b"\x0atSTAR 0-1 *\x0atIVAR 1-4 @v\xff\x00\x0atEQL 5-6 =\x0atIDENTIFIER 7-9 x\xff\x01\x0aEOF 9-9 " },
    Rec { t: b"v\xffa, (x\xffa.y\xffa, *z\xffa[q\xffa]) = \xffd", shape: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (mlhs items=[(send recv=(send method_name=\x22x\xff\x01\x22 args=[]) method_name=\x22y\xff\x02=\x22 args=[]) (splat value=(index_asgn recv=(send method_name=\x22z\xff\x03\x22 args=[]) indexes=[(send method_name=\x22q\xff\x04\x22 args=[])]))])]) rhs=(int value=\x22\xff\x05\x22))", full: b"(masgn lhs=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=0-2 expression=0-2) (mlhs items=[(send recv=(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7) method_name=\x22y\xff\x02=\x22 args=[] dot=7-8 selector=8-10 expression=5-10) (splat value=(index_asgn recv=(send method_name=\x22z\xff\x03\x22 args=[] selector=13-15 expression=13-15) indexes=[(send method_name=\x22q\xff\x04\x22 args=[] selector=16-18 expression=16-18)] begin=15-16 end=18-19 expression=13-19) operator=12-13 expression=12-19)] begin=4-5 end=19-20 expression=4-20)] expression=0-20) rhs=(int value=\x22\xff\x05\x22 expression=23-24) operator=21-22 expression=0-24)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCOMMA 2-3 ,\x0atLPAREN 4-5 (\x0atIDENTIFIER 5-7 x\xff\x01\x0atDOT 7-8 .\x0atIDENTIFIER 8-10 y\xff\x02\x0atCOMMA 10-11 ,\x0atSTAR 12-13 *\x0atIDENTIFIER 13-15 z\xff\x03\x0atLBRACK2 15-16 [\x0atIDENTIFIER 16-18 q\xff\x04\x0atRBRACK 18-19 ]\x0atRPAREN 19-20 )\x0atEQL 21-22 =\x0atINTEGER 23-24 \xff\x05\x0aEOF 24-24 " },
    Rec { t: b"v\xffa = (x\xffa, y\xffa = z\xffa)", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(begin statements=[(masgn lhs=(mlhs items=[(lvasgn name=\x22x\xff\x01\x22) (lvasgn name=\x22y\xff\x02\x22)]) rhs=(send method_name=\x22z\xff\x03\x22 args=[]))]))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(begin statements=[(masgn lhs=(mlhs items=[(lvasgn name=\x22x\xff\x01\x22 name=6-8 expression=6-8) (lvasgn name=\x22y\xff\x02\x22 name=10-12 expression=10-12)] expression=6-12) rhs=(send method_name=\x22z\xff\x03\x22 args=[] selector=15-17 expression=15-17) operator=13-14 expression=6-17)] begin=5-6 end=17-18 expression=5-18) name=0-2 operator=3-4 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0atLPAREN 5-6 (\x0atIDENTIFIER 6-8 x\xff\x01\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 y\xff\x02\x0atEQL 13-14 =\x0atIDENTIFIER 15-17 z\xff\x03\x0atRPAREN 17-18 )\x0aEOF 18-18 " },
    Rec { t: b"v\xffa = begin; x\xffa; end", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(kw_begin statements=[(send method_name=\x22x\xff\x01\x22 args=[])]))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(kw_begin statements=[(send method_name=\x22x\xff\x01\x22 args=[] selector=12-14 expression=12-14)] begin=5-10 end=16-19 expression=5-19) name=0-2 operator=3-4 expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0akBEGIN 5-10 begin\x0atSEMI 10-11 ;\x0atIDENTIFIER 12-14 x\xff\x01\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"v\xffa = if x\xffa; y\xffa; end", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(if cond=(send method_name=\x22x\xff\x01\x22 args=[]) if_true=(send method_name=\x22y\xff\x02\x22 args=[])))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(if cond=(send method_name=\x22x\xff\x01\x22 args=[] selector=8-10 expression=8-10) if_true=(send method_name=\x22y\xff\x02\x22 args=[] selector=12-14 expression=12-14) keyword=5-7 begin=10-11 end=16-19 expression=5-19) name=0-2 operator=3-4 expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0akIF 5-7 if\x0atIDENTIFIER 8-10 x\xff\x01\x0atSEMI 10-11 ;\x0atIDENTIFIER 12-14 y\xff\x02\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"v\xffa = if x\xffa then y\xffa else z\xffa end", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(if cond=(send method_name=\x22x\xff\x01\x22 args=[]) if_true=(send method_name=\x22y\xff\x02\x22 args=[]) if_false=(send method_name=\x22z\xff\x03\x22 args=[])))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(if cond=(send method_name=\x22x\xff\x01\x22 args=[] selector=8-10 expression=8-10) if_true=(send method_name=\x22y\xff\x02\x22 args=[] selector=16-18 expression=16-18) if_false=(send method_name=\x22z\xff\x03\x22 args=[] selector=24-26 expression=24-26) keyword=5-7 begin=11-15 else=19-23 end=27-30 expression=5-30) name=0-2 operator=3-4 expression=0-30)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0akIF 5-7 if\x0atIDENTIFIER 8-10 x\xff\x01\x0akTHEN 11-15 then\x0atIDENTIFIER 16-18 y\xff\x02\x0akELSE 19-23 else\x0atIDENTIFIER 24-26 z\xff\x03\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"v\xffa = while x\xffa; end", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(while cond=(send method_name=\x22x\xff\x01\x22 args=[])))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(while cond=(send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13) keyword=5-10 begin=13-14 end=15-18 expression=5-18) name=0-2 operator=3-4 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0akWHILE 5-10 while\x0atIDENTIFIER 11-13 x\xff\x01\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"v\xffa = case x\xffa; when y\xffa; end", shape: b"(lvasgn name=\x22v\xff\x00\x22 value=(case expr=(send method_name=\x22x\xff\x01\x22 args=[]) when_bodies=[(when patterns=[(send method_name=\x22y\xff\x02\x22 args=[])])]))", full: b"(lvasgn name=\x22v\xff\x00\x22 value=(case expr=(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12) when_bodies=[(when patterns=[(send method_name=\x22y\xff\x02\x22 args=[] selector=19-21 expression=19-21)] keyword=14-18 begin=21-22 expression=14-21)] keyword=5-9 end=23-26 expression=5-26) name=0-2 operator=3-4 expression=0-26)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEQL 3-4 =\x0akCASE 5-9 case\x0atIDENTIFIER 10-12 x\xff\x01\x0atSEMI 12-13 ;\x0akWHEN 14-18 when\x0atIDENTIFIER 19-21 y\xff\x02\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
];
pub static ARGS: &[Rec] = &[
    Rec { t: b"v\xffa[x\xffa, y\xffa: \xffd,]", shape: b"(index recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(send method_name=\x22x\xff\x01\x22 args=[]) (kwargs pairs=[(pair key=(sym name=\x22y\xff\x02\x22) value=(int value=\x22\xff\x03\x22))])])", full: b"(index recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) (kwargs pairs=[(pair key=(sym name=\x22y\xff\x02\x22 expression=7-9) value=(int value=\x22\xff\x03\x22 expression=11-12) operator=9-10 expression=7-12)] expression=7-12)] begin=2-3 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atIDENTIFIER 3-5 x\xff\x01\x0atCOMMA 5-6 ,\x0atLABEL 7-10 y\xff\x02\x0atINTEGER 11-12 \xff\x03\x0atCOMMA 12-13 ,\x0atRBRACK 13-14 ]\x0aEOF 14-14 " },
    Rec { t: b"v\xffa[y\xffa: \xffd,]", shape: b"(index recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(kwargs pairs=[(pair key=(sym name=\x22y\xff\x01\x22) value=(int value=\x22\xff\x02\x22))])])", full: b"(index recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(kwargs pairs=[(pair key=(sym name=\x22y\xff\x01\x22 expression=3-5) value=(int value=\x22\xff\x02\x22 expression=7-8) operator=5-6 expression=3-8)] expression=3-8)] begin=2-3 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atLABEL 3-6 y\xff\x01\x0atINTEGER 7-8 \xff\x02\x0atCOMMA 8-9 ,\x0atRBRACK 9-10 ]\x0aEOF 10-10 " },
    Rec { t: b"v\xffa[x\xffa,]", shape: b"(index recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(index recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5)] begin=2-3 end=6-7 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atIDENTIFIER 3-5 x\xff\x01\x0atCOMMA 5-6 ,\x0atRBRACK 6-7 ]\x0aEOF 7-7 " },
    Rec { t: b"v\xffa[*x\xffa, y\xffa]", shape: b"(index recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[])) (send method_name=\x22y\xff\x02\x22 args=[])])", full: b"(index recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6) operator=3-4 expression=3-6) (send method_name=\x22y\xff\x02\x22 args=[] selector=8-10 expression=8-10)] begin=2-3 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atSTAR 3-4 *\x0atIDENTIFIER 4-6 x\xff\x01\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-10 y\xff\x02\x0atRBRACK 10-11 ]\x0aEOF 11-11 " },
    Rec { t: b"v\xffa[**x\xffa]", shape: b"(index recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(kwargs pairs=[(kwsplat value=(send method_name=\x22x\xff\x01\x22 args=[]))])])", full: b"(index recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(kwargs pairs=[(kwsplat value=(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7) operator=3-5 expression=3-7)] expression=3-7)] begin=2-3 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atDSTAR 3-5 **\x0atIDENTIFIER 5-7 x\xff\x01\x0atRBRACK 7-8 ]\x0aEOF 8-8 " },
    Rec { t: b"v\xffa[x\xffa => y\xffa]", shape: b"(index recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(kwargs pairs=[(pair key=(send method_name=\x22x\xff\x01\x22 args=[]) value=(send method_name=\x22y\xff\x02\x22 args=[]))])])", full: b"(index recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(kwargs pairs=[(pair key=(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) value=(send method_name=\x22y\xff\x02\x22 args=[] selector=9-11 expression=9-11) operator=6-8 expression=3-11)] expression=3-11)] begin=2-3 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atIDENTIFIER 3-5 x\xff\x01\x0atASSOC 6-8 =>\x0atIDENTIFIER 9-11 y\xff\x02\x0atRBRACK 11-12 ]\x0aEOF 12-12 " },
    Rec { t: b"v\xffa[&x\xffa]", shape: b"(index recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(block_pass value=(send method_name=\x22x\xff\x01\x22 args=[]))])", full: b"(index recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) indexes=[(block_pass value=(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6) operator=3-4 expression=3-6)] begin=2-3 end=6-7 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK2 2-3 [\x0atAMPER 3-4 &\x0atIDENTIFIER 4-6 x\xff\x01\x0atRBRACK 6-7 ]\x0aEOF 7-7 " },
    Rec { t: b"v\xffa(x\xffa,)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5)] selector=0-2 begin=2-3 end=6-7 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x01\x0atCOMMA 5-6 ,\x0atRPAREN 6-7 )\x0aEOF 7-7 " },
    Rec { t: b"v\xffa(x\xffa: \xffd,)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22x\xff\x01\x22) value=(int value=\x22\xff\x02\x22))])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22x\xff\x01\x22 expression=3-5) value=(int value=\x22\xff\x02\x22 expression=7-8) operator=5-6 expression=3-8)] expression=3-8)] selector=0-2 begin=2-3 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atLABEL 3-6 x\xff\x01\x0atINTEGER 7-8 \xff\x02\x0atCOMMA 8-9 ,\x0atRPAREN 9-10 )\x0aEOF 10-10 " },
    Rec { t: b"v\xffa(*x\xffa,)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[]))])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6) operator=3-4 expression=3-6)] selector=0-2 begin=2-3 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atSTAR 3-4 *\x0atIDENTIFIER 4-6 x\xff\x01\x0atCOMMA 6-7 ,\x0atRPAREN 7-8 )\x0aEOF 8-8 " },
    Rec { t: b"v\xffa(x\xffa, *y\xffa,)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[]) (splat value=(send method_name=\x22y\xff\x02\x22 args=[]))])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) (splat value=(send method_name=\x22y\xff\x02\x22 args=[] selector=8-10 expression=8-10) operator=7-8 expression=7-10)] selector=0-2 begin=2-3 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x01\x0atCOMMA 5-6 ,\x0atSTAR 7-8 *\x0atIDENTIFIER 8-10 y\xff\x02\x0atCOMMA 10-11 ,\x0atRPAREN 11-12 )\x0aEOF 12-12 " },
    Rec { t: b"v\xffa(x\xffa, **y\xffa)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[]) (kwargs pairs=[(kwsplat value=(send method_name=\x22y\xff\x02\x22 args=[]))])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) (kwargs pairs=[(kwsplat value=(send method_name=\x22y\xff\x02\x22 args=[] selector=9-11 expression=9-11) operator=7-9 expression=7-11)] expression=7-11)] selector=0-2 begin=2-3 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x01\x0atCOMMA 5-6 ,\x0atDSTAR 7-9 **\x0atIDENTIFIER 9-11 y\xff\x02\x0atRPAREN 11-12 )\x0aEOF 12-12 " },
    Rec { t: b"v\xffa(x\xffa: \xffd, **y\xffa)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22x\xff\x01\x22) value=(int value=\x22\xff\x02\x22)) (kwsplat value=(send method_name=\x22y\xff\x03\x22 args=[]))])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22x\xff\x01\x22 expression=3-5) value=(int value=\x22\xff\x02\x22 expression=7-8) operator=5-6 expression=3-8) (kwsplat value=(send method_name=\x22y\xff\x03\x22 args=[] selector=12-14 expression=12-14) operator=10-12 expression=10-14)] expression=3-14)] selector=0-2 begin=2-3 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atLABEL 3-6 x\xff\x01\x0atINTEGER 7-8 \xff\x02\x0atCOMMA 8-9 ,\x0atDSTAR 10-12 **\x0atIDENTIFIER 12-14 y\xff\x03\x0atRPAREN 14-15 )\x0aEOF 15-15 " },
    Rec { t: b"v\xffa(x\xffa, y\xffa: \xffd, &z\xffa)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[]) (kwargs pairs=[(pair key=(sym name=\x22y\xff\x02\x22) value=(int value=\x22\xff\x03\x22))]) (block_pass value=(send method_name=\x22z\xff\x04\x22 args=[]))])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) (kwargs pairs=[(pair key=(sym name=\x22y\xff\x02\x22 expression=7-9) value=(int value=\x22\xff\x03\x22 expression=11-12) operator=9-10 expression=7-12)] expression=7-12) (block_pass value=(send method_name=\x22z\xff\x04\x22 args=[] selector=15-17 expression=15-17) operator=14-15 expression=14-17)] selector=0-2 begin=2-3 end=17-18 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x01\x0atCOMMA 5-6 ,\x0atLABEL 7-10 y\xff\x02\x0atINTEGER 11-12 \xff\x03\x0atCOMMA 12-13 ,\x0atAMPER 14-15 &\x0atIDENTIFIER 15-17 z\xff\x04\x0atRPAREN 17-18 )\x0aEOF 18-18 " },
    Rec { t: b"v\xffa(*x\xffa, y\xffa, *z\xffa)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[])) (send method_name=\x22y\xff\x02\x22 args=[]) (splat value=(send method_name=\x22z\xff\x03\x22 args=[]))])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6) operator=3-4 expression=3-6) (send method_name=\x22y\xff\x02\x22 args=[] selector=8-10 expression=8-10) (splat value=(send method_name=\x22z\xff\x03\x22 args=[] selector=13-15 expression=13-15) operator=12-13 expression=12-15)] selector=0-2 begin=2-3 end=15-16 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atSTAR 3-4 *\x0atIDENTIFIER 4-6 x\xff\x01\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-10 y\xff\x02\x0atCOMMA 10-11 ,\x0atSTAR 12-13 *\x0atIDENTIFIER 13-15 z\xff\x03\x0atRPAREN 15-16 )\x0aEOF 16-16 " },
    Rec { t: b"v\xffa(*x\xffa, &y\xffa)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[])) (block_pass value=(send method_name=\x22y\xff\x02\x22 args=[]))])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6) operator=3-4 expression=3-6) (block_pass value=(send method_name=\x22y\xff\x02\x22 args=[] selector=9-11 expression=9-11) operator=8-9 expression=8-11)] selector=0-2 begin=2-3 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atSTAR 3-4 *\x0atIDENTIFIER 4-6 x\xff\x01\x0atCOMMA 6-7 ,\x0atAMPER 8-9 &\x0atIDENTIFIER 9-11 y\xff\x02\x0atRPAREN 11-12 )\x0aEOF 12-12 " },
    Rec { t: b"v\xffa(x\xffa => y\xffa, z\xffa: \xffd)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(send method_name=\x22x\xff\x01\x22 args=[]) value=(send method_name=\x22y\xff\x02\x22 args=[])) (pair key=(sym name=\x22z\xff\x03\x22) value=(int value=\x22\xff\x04\x22))])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) value=(send method_name=\x22y\xff\x02\x22 args=[] selector=9-11 expression=9-11) operator=6-8 expression=3-11) (pair key=(sym name=\x22z\xff\x03\x22 expression=13-15) value=(int value=\x22\xff\x04\x22 expression=17-18) operator=15-16 expression=13-18)] expression=3-18)] selector=0-2 begin=2-3 end=18-19 expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x01\x0atASSOC 6-8 =>\x0atIDENTIFIER 9-11 y\xff\x02\x0atCOMMA 11-12 ,\x0atLABEL 13-16 z\xff\x03\x0atINTEGER 17-18 \xff\x04\x0atRPAREN 18-19 )\x0aEOF 19-19 " },
    Rec { t: b"v\xffa(\x22x\xffa\x22: \xffd)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22x\xff\x01\x22) value=(int value=\x22\xff\x02\x22))])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22x\xff\x01\x22 begin=3-4 end=6-7 expression=3-7) value=(int value=\x22\xff\x02\x22 expression=9-10) operator=7-8 expression=3-10)] expression=3-10)] selector=0-2 begin=2-3 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atSTRING_BEG 3-4 \x22\x0atSTRING_CONTENT 4-6 x\xff\x01\x0atLABEL_END 6-8 \x22:\x0atINTEGER 9-10 \xff\x02\x0atRPAREN 10-11 )\x0aEOF 11-11 " },
    Rec { t: b"v\xffa(\x22x#{y\xffa}\x22: \xffd)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(dsym parts=[(str value=\x22x\x22) (begin statements=[(send method_name=\x22y\xff\x01\x22 args=[])])]) value=(int value=\x22\xff\x02\x22))])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(dsym parts=[(str value=\x22x\x22 expression=4-5) (begin statements=[(send method_name=\x22y\xff\x01\x22 args=[] selector=7-9 expression=7-9)] begin=5-7 end=9-10 expression=5-10)] begin=3-4 end=10-11 expression=3-11) value=(int value=\x22\xff\x02\x22 expression=13-14) operator=11-12 expression=3-14)] expression=3-14)] selector=0-2 begin=2-3 end=14-15 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atSTRING_BEG 3-4 \x22\x0atSTRING_CONTENT 4-5 x\x0atSTRING_DBEG 5-7 #{\x0atIDENTIFIER 7-9 y\xff\x01\x0atSTRING_DEND 9-10 }\x0atLABEL_END 10-12 \x22:\x0atINTEGER 13-14 \xff\x02\x0atRPAREN 14-15 )\x0aEOF 15-15 " },
    Rec { t: b"v\xffa(x\xffa:, y\xffa:)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22x\xff\x01\x22) value=(send method_name=\x22x\xff\x01\x22 args=[])) (pair key=(sym name=\x22y\xff\x02\x22) value=(send method_name=\x22y\xff\x02\x22 args=[]))])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22x\xff\x01\x22 expression=3-5) value=(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) operator=5-6 expression=3-6) (pair key=(sym name=\x22y\xff\x02\x22 expression=8-10) value=(send method_name=\x22y\xff\x02\x22 args=[] selector=8-10 expression=8-10) operator=10-11 expression=8-11)] expression=3-11)] selector=0-2 begin=2-3 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atLABEL 3-6 x\xff\x01\x0atCOMMA 6-7 ,\x0atLABEL 8-11 y\xff\x02\x0atRPAREN 11-12 )\x0aEOF 12-12 " },
    Rec { t: b"v\xffa x\xffa: \xffd, y\xffa: \xffd", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22x\xff\x01\x22) value=(int value=\x22\xff\x02\x22)) (pair key=(sym name=\x22y\xff\x03\x22) value=(int value=\x22\xff\x04\x22))])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(sym name=\x22x\xff\x01\x22 expression=3-5) value=(int value=\x22\xff\x02\x22 expression=7-8) operator=5-6 expression=3-8) (pair key=(sym name=\x22y\xff\x03\x22 expression=10-12) value=(int value=\x22\xff\x04\x22 expression=14-15) operator=12-13 expression=10-15)] expression=3-15)] selector=0-2 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLABEL 3-6 x\xff\x01\x0atINTEGER 7-8 \xff\x02\x0atCOMMA 8-9 ,\x0atLABEL 10-13 y\xff\x03\x0atINTEGER 14-15 \xff\x04\x0aEOF 15-15 " },
    Rec { t: b"v\xffa *x\xffa, y\xffa", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[])) (send method_name=\x22y\xff\x02\x22 args=[])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6) operator=3-4 expression=3-6) (send method_name=\x22y\xff\x02\x22 args=[] selector=8-10 expression=8-10)] selector=0-2 expression=0-10)", diag: b"\x0aW 3-4 `*' interpreted as argument prefix", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atSTAR 3-4 *\x0atIDENTIFIER 4-6 x\xff\x01\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-10 y\xff\x02\x0aEOF 10-10 " },
    Rec { t: b"v\xffa x\xffa, &y\xffa", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[]) (block_pass value=(send method_name=\x22y\xff\x02\x22 args=[]))])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) (block_pass value=(send method_name=\x22y\xff\x02\x22 args=[] selector=8-10 expression=8-10) operator=7-8 expression=7-10)] selector=0-2 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 x\xff\x01\x0atCOMMA 5-6 ,\x0atAMPER 7-8 &\x0atIDENTIFIER 8-10 y\xff\x02\x0aEOF 10-10 " },
    Rec { t: b"v\xffa x\xffa, *y\xffa, &z\xffa", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[]) (splat value=(send method_name=\x22y\xff\x02\x22 args=[])) (block_pass value=(send method_name=\x22z\xff\x03\x22 args=[]))])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) (splat value=(send method_name=\x22y\xff\x02\x22 args=[] selector=8-10 expression=8-10) operator=7-8 expression=7-10) (block_pass value=(send method_name=\x22z\xff\x03\x22 args=[] selector=13-15 expression=13-15) operator=12-13 expression=12-15)] selector=0-2 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 x\xff\x01\x0atCOMMA 5-6 ,\x0atSTAR 7-8 *\x0atIDENTIFIER 8-10 y\xff\x02\x0atCOMMA 10-11 ,\x0atAMPER 12-13 &\x0atIDENTIFIER 13-15 z\xff\x03\x0aEOF 15-15 " },
    Rec { t: b"v\xffa x\xffa => y\xffa", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(send method_name=\x22x\xff\x01\x22 args=[]) value=(send method_name=\x22y\xff\x02\x22 args=[]))])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(kwargs pairs=[(pair key=(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) value=(send method_name=\x22y\xff\x02\x22 args=[] selector=9-11 expression=9-11) operator=6-8 expression=3-11)] expression=3-11)] selector=0-2 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 x\xff\x01\x0atASSOC 6-8 =>\x0atIDENTIFIER 9-11 y\xff\x02\x0aEOF 11-11 " },
    Rec { t: b"v\xffa ()", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(begin statements=[])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(begin statements=[] begin=3-4 end=4-5 expression=3-5)] selector=0-2 expression=0-5)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN_ARG 3-4 (\x0atRPAREN 4-5 )\x0aEOF 5-5 " },
    Rec { t: b"v\xffa () { \xffd }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(begin statements=[])]) body=(int value=\x22\xff\x01\x22))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(begin statements=[] begin=3-4 end=4-5 expression=3-5)] selector=0-2 expression=0-5) body=(int value=\x22\xff\x01\x22 expression=8-9) begin=6-7 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN_ARG 3-4 (\x0atRPAREN 4-5 )\x0atLBRACE_ARG 6-7 {\x0atINTEGER 8-9 \xff\x01\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"v\xffa (x\xffa)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[])])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6)] begin=3-4 end=6-7 expression=3-7)] selector=0-2 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN_ARG 3-4 (\x0atIDENTIFIER 4-6 x\xff\x01\x0atRPAREN 6-7 )\x0aEOF 7-7 " },
    Rec { t: b"v\xffa (x\xffa), y\xffa", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[])]) (send method_name=\x22y\xff\x02\x22 args=[])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6)] begin=3-4 end=6-7 expression=3-7) (send method_name=\x22y\xff\x02\x22 args=[] selector=9-11 expression=9-11)] selector=0-2 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN_ARG 3-4 (\x0atIDENTIFIER 4-6 x\xff\x01\x0atRPAREN 6-7 )\x0atCOMMA 7-8 ,\x0atIDENTIFIER 9-11 y\xff\x02\x0aEOF 11-11 " },
    Rec { t: b"v\xffa (x\xffa).y\xffa", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(send recv=(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[])]) method_name=\x22y\xff\x02\x22 args=[])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(send recv=(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6)] begin=3-4 end=6-7 expression=3-7) method_name=\x22y\xff\x02\x22 args=[] dot=7-8 selector=8-10 expression=3-10)] selector=0-2 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN_ARG 3-4 (\x0atIDENTIFIER 4-6 x\xff\x01\x0atRPAREN 6-7 )\x0atDOT 7-8 .\x0atIDENTIFIER 8-10 y\xff\x02\x0aEOF 10-10 " },
    Rec { t: b"v\xffa (x\xffa) { y\xffa }", shape: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[])])]) body=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(block call=(send method_name=\x22v\xff\x00\x22 args=[(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6)] begin=3-4 end=6-7 expression=3-7)] selector=0-2 expression=0-7) body=(send method_name=\x22y\xff\x02\x22 args=[] selector=10-12 expression=10-12) begin=8-9 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN_ARG 3-4 (\x0atIDENTIFIER 4-6 x\xff\x01\x0atRPAREN 6-7 )\x0atLBRACE_ARG 8-9 {\x0atIDENTIFIER 10-12 y\xff\x02\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"v\xffa (x\xffa) + y\xffa", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(send recv=(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[])]) method_name=\x22+\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[])])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(send recv=(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6)] begin=3-4 end=6-7 expression=3-7) method_name=\x22+\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[] selector=10-12 expression=10-12)] selector=8-9 expression=3-12)] selector=0-2 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN_ARG 3-4 (\x0atIDENTIFIER 4-6 x\xff\x01\x0atRPAREN 6-7 )\x0atPLUS 8-9 +\x0atIDENTIFIER 10-12 y\xff\x02\x0aEOF 12-12 " },
    Rec { t: b"v\xffa(x\xffa y\xffa)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[])])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[] selector=6-8 expression=6-8)] selector=3-5 expression=3-8)] selector=0-2 begin=2-3 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x01\x0atIDENTIFIER 6-8 y\xff\x02\x0atRPAREN 8-9 )\x0aEOF 9-9 " },
    Rec { t: b"v\xffa((x\xffa; y\xffa))", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[]) (send method_name=\x22y\xff\x02\x22 args=[])])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6) (send method_name=\x22y\xff\x02\x22 args=[] selector=8-10 expression=8-10)] begin=3-4 end=10-11 expression=3-11)] selector=0-2 begin=2-3 end=11-12 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atLPAREN 3-4 (\x0atIDENTIFIER 4-6 x\xff\x01\x0atSEMI 6-7 ;\x0atIDENTIFIER 8-10 y\xff\x02\x0atRPAREN 10-11 )\x0atRPAREN 11-12 )\x0aEOF 12-12 " },
    Rec { t: b"v\xffa(x\xffa do end)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(block call=(send method_name=\x22x\xff\x01\x22 args=[]))])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(block call=(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) begin=6-8 end=9-12 expression=3-12)] selector=0-2 begin=2-3 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atIDENTIFIER 3-5 x\xff\x01\x0akDO 6-8 do\x0akEND 9-12 end\x0atRPAREN 12-13 )\x0aEOF 13-13 " },
    Rec { t: b"v\xffa x\xffa y\xffa z\xffa", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[(send method_name=\x22z\xff\x03\x22 args=[])])])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[(send method_name=\x22z\xff\x03\x22 args=[] selector=9-11 expression=9-11)] selector=6-8 expression=6-11)] selector=3-5 expression=3-11)] selector=0-2 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 x\xff\x01\x0atIDENTIFIER 6-8 y\xff\x02\x0atIDENTIFIER 9-11 z\xff\x03\x0aEOF 11-11 " },
    Rec { t: b"v\xffa.x\xffa y\xffa z\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[(send method_name=\x22z\xff\x03\x22 args=[])])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[(send method_name=\x22z\xff\x03\x22 args=[] selector=9-11 expression=9-11)] selector=6-8 expression=6-11)] dot=2-3 selector=3-5 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 x\xff\x01\x0atIDENTIFIER 6-8 y\xff\x02\x0atIDENTIFIER 9-11 z\xff\x03\x0aEOF 11-11 " },
    Rec { t: b"v\xffa [x\xffa]", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(array elements=[(send method_name=\x22x\xff\x01\x22 args=[])])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(array elements=[(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6)] begin=3-4 end=6-7 expression=3-7)] selector=0-2 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK 3-4 [\x0atIDENTIFIER 4-6 x\xff\x01\x0atRBRACK 6-7 ]\x0aEOF 7-7 " },
    Rec { t: b"v\xffa [x\xffa], y\xffa", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(array elements=[(send method_name=\x22x\xff\x01\x22 args=[])]) (send method_name=\x22y\xff\x02\x22 args=[])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(array elements=[(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6)] begin=3-4 end=6-7 expression=3-7) (send method_name=\x22y\xff\x02\x22 args=[] selector=9-11 expression=9-11)] selector=0-2 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLBRACK 3-4 [\x0atIDENTIFIER 4-6 x\xff\x01\x0atRBRACK 6-7 ]\x0atCOMMA 7-8 ,\x0atIDENTIFIER 9-11 y\xff\x02\x0aEOF 11-11 " },
    Rec { t: b"v\xffa({ x\xffa: \xffd })", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(hash pairs=[(pair key=(sym name=\x22x\xff\x01\x22) value=(int value=\x22\xff\x02\x22))])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(hash pairs=[(pair key=(sym name=\x22x\xff\x01\x22 expression=5-7) value=(int value=\x22\xff\x02\x22 expression=9-10) operator=7-8 expression=5-10)] begin=3-4 end=11-12 expression=3-12)] selector=0-2 begin=2-3 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0atLBRACE 3-4 {\x0atLABEL 5-8 x\xff\x01\x0atINTEGER 9-10 \xff\x02\x0atRCURLY 11-12 }\x0atRPAREN 12-13 )\x0aEOF 13-13 " },
    Rec { t: b"v\xffa x\xffa ? y\xffa : z\xffa", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(if_ternary cond=(send method_name=\x22x\xff\x01\x22 args=[]) if_true=(send method_name=\x22y\xff\x02\x22 args=[]) if_false=(send method_name=\x22z\xff\x03\x22 args=[]))])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(if_ternary cond=(send method_name=\x22x\xff\x01\x22 args=[] selector=3-5 expression=3-5) if_true=(send method_name=\x22y\xff\x02\x22 args=[] selector=8-10 expression=8-10) if_false=(send method_name=\x22z\xff\x03\x22 args=[] selector=13-15 expression=13-15) question=6-7 colon=11-12 expression=3-15)] selector=0-2 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atIDENTIFIER 3-5 x\xff\x01\x0atEH 6-7 ?\x0atIDENTIFIER 8-10 y\xff\x02\x0atCOLON 11-12 :\x0atIDENTIFIER 13-15 z\xff\x03\x0aEOF 15-15 " },
    Rec { t: b"v\xffa %w[x\xffa]", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(array elements=[(str value=\x22x\xff\x01\x22)])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(array elements=[(str value=\x22x\xff\x01\x22 expression=6-8)] begin=3-6 end=8-9 expression=3-9)] selector=0-2 expression=0-9)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atQWORDS_BEG 3-6 %w[\x0atSPACE 6-6 \x0atSTRING_CONTENT 6-8 x\xff\x01\x0atSPACE 8-8 \x0atSTRING_END 8-9 ]\x0aEOF 9-9 " },
    Rec { t: b"v\xffa /x\xffa/", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(regexp parts=[(str value=\x22x\xff\x01\x22)])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(regexp parts=[(str value=\x22x\xff\x01\x22 expression=4-6)] begin=3-4 end=6-7 expression=3-7)] selector=0-2 expression=0-7)", diag: b"\x0aW 3-4 ambiguity between regexp and two divisions: wrap regexp in parentheses or add a space after `/' operator", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atREGEXP_BEG 3-4 /\x0atSTRING_CONTENT 4-6 x\xff\x01\x0atREGEXP_END 6-7 /\x0aEOF 7-7 " },
    Rec { t: b"v\xffa ?x", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(str value=\x22x\x22)])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(str value=\x22x\x22 begin=3-4 expression=3-5)] selector=0-2 expression=0-5)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atCHAR 3-5 x\x0aEOF 5-5 " },
    Rec { t: b"v\xffa <<A\x0ax\xfft\x0aA", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(heredoc parts=[(str value=\x22x\xff\x01\x0a\x22)])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(heredoc parts=[(str value=\x22x\xff\x01\x0a\x22 expression=7-10)] heredoc_body=7-10 heredoc_end=10-11 expression=3-6)] selector=0-2 expression=0-6)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atSTRING_BEG 3-6 <<A\x0atSTRING_CONTENT 7-10 x\xff\x01\x0a\x0atSTRING_END 10-11 A\x0atNL 6-7 \x0a\x0aEOF 6-6 " },
    Rec { t: b"v\xffa defined? x\xffa", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(defined value=(send method_name=\x22x\xff\x01\x22 args=[]))])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(defined value=(send method_name=\x22x\xff\x01\x22 args=[] selector=12-14 expression=12-14) keyword=3-11 expression=3-14)] selector=0-2 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akDEFINED 3-11 defined?\x0atIDENTIFIER 12-14 x\xff\x01\x0aEOF 14-14 " },
    Rec { t: b"v\xffa not(x\xffa)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(send recv=(send method_name=\x22x\xff\x01\x22 args=[]) method_name=\x22!\x22 args=[])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(send recv=(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9) method_name=\x22!\x22 args=[] selector=3-6 begin=6-7 end=9-10 expression=3-10)] selector=0-2 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akNOT 3-6 not\x0atLPAREN2 6-7 (\x0atIDENTIFIER 7-9 x\xff\x01\x0atRPAREN 9-10 )\x0aEOF 10-10 " },
    Rec { t: b"v\xffa (not x\xffa)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(begin statements=[(send recv=(send method_name=\x22x\xff\x01\x22 args=[]) method_name=\x22!\x22 args=[])])])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(begin statements=[(send recv=(send method_name=\x22x\xff\x01\x22 args=[] selector=8-10 expression=8-10) method_name=\x22!\x22 args=[] selector=4-7 expression=4-10)] begin=3-4 end=10-11 expression=3-11)] selector=0-2 expression=0-11)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN_ARG 3-4 (\x0akNOT 4-7 not\x0atIDENTIFIER 8-10 x\xff\x01\x0atRPAREN 10-11 )\x0aEOF 11-11 " },
    Rec { t: b"v\xffa(if x\xffa; y\xffa; end)", shape: b"(send method_name=\x22v\xff\x00\x22 args=[(if cond=(send method_name=\x22x\xff\x01\x22 args=[]) if_true=(send method_name=\x22y\xff\x02\x22 args=[]))])", full: b"(send method_name=\x22v\xff\x00\x22 args=[(if cond=(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8) if_true=(send method_name=\x22y\xff\x02\x22 args=[] selector=10-12 expression=10-12) keyword=3-5 begin=8-9 end=14-17 expression=3-17)] selector=0-2 begin=2-3 end=17-18 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLPAREN2 2-3 (\x0akIF 3-5 if\x0atIDENTIFIER 6-8 x\xff\x01\x0atSEMI 8-9 ;\x0atIDENTIFIER 10-12 y\xff\x02\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0atRPAREN 17-18 )\x0aEOF 18-18 " },
    Rec { t: b"super v\xffa, x\xffa", shape: b"(super args=[(send method_name=\x22v\xff\x00\x22 args=[]) (send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(super args=[(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) (send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12)] keyword=0-5 expression=0-12)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atIDENTIFIER 6-8 v\xff\x00\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 x\xff\x01\x0aEOF 12-12 " },
    Rec { t: b"super(v\xffa, &x\xffa)", shape: b"(super args=[(send method_name=\x22v\xff\x00\x22 args=[]) (block_pass value=(send method_name=\x22x\xff\x01\x22 args=[]))])", full: b"(super args=[(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) (block_pass value=(send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13) operator=10-11 expression=10-13)] keyword=0-5 begin=5-6 end=13-14 expression=0-14)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 v\xff\x00\x0atCOMMA 8-9 ,\x0atAMPER 10-11 &\x0atIDENTIFIER 11-13 x\xff\x01\x0atRPAREN 13-14 )\x0aEOF 14-14 " },
    Rec { t: b"super(*v\xffa)", shape: b"(super args=[(splat value=(send method_name=\x22v\xff\x00\x22 args=[]))])", full: b"(super args=[(splat value=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) operator=6-7 expression=6-9)] keyword=0-5 begin=5-6 end=9-10 expression=0-10)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atLPAREN2 5-6 (\x0atSTAR 6-7 *\x0atIDENTIFIER 7-9 v\xff\x00\x0atRPAREN 9-10 )\x0aEOF 10-10 " },
    Rec { t: b"super v\xffa: \xffd", shape: b"(super args=[(kwargs pairs=[(pair key=(sym name=\x22v\xff\x00\x22) value=(int value=\x22\xff\x01\x22))])])", full: b"(super args=[(kwargs pairs=[(pair key=(sym name=\x22v\xff\x00\x22 expression=6-8) value=(int value=\x22\xff\x01\x22 expression=10-11) operator=8-9 expression=6-11)] expression=6-11)] keyword=0-5 expression=0-11)", diag: b"", toks: b"\x0akSUPER 0-5 super\x0atLABEL 6-9 v\xff\x00\x0atINTEGER 10-11 \xff\x01\x0aEOF 11-11 " },
    Rec { t: b"yield v\xffa", shape: b"(yield args=[(send method_name=\x22v\xff\x00\x22 args=[])])", full: b"(yield args=[(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8)] keyword=0-5 expression=0-8)", diag: b"", toks: b"\x0akYIELD 0-5 yield\x0atIDENTIFIER 6-8 v\xff\x00\x0aEOF 8-8 " },
    Rec { t: b"yield(v\xffa)", shape: b"(yield args=[(send method_name=\x22v\xff\x00\x22 args=[])])", full: b"(yield args=[(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8)] keyword=0-5 begin=5-6 end=8-9 expression=0-9)", diag: b"", toks: b"\x0akYIELD 0-5 yield\x0atLPAREN2 5-6 (\x0atIDENTIFIER 6-8 v\xff\x00\x0atRPAREN 8-9 )\x0aEOF 9-9 " },
    Rec { t: b"yield v\xffa, x\xffa: \xffd", shape: b"(yield args=[(send method_name=\x22v\xff\x00\x22 args=[]) (kwargs pairs=[(pair key=(sym name=\x22x\xff\x01\x22) value=(int value=\x22\xff\x02\x22))])])", full: b"(yield args=[(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) (kwargs pairs=[(pair key=(sym name=\x22x\xff\x01\x22 expression=10-12) value=(int value=\x22\xff\x02\x22 expression=14-15) operator=12-13 expression=10-15)] expression=10-15)] keyword=0-5 expression=0-15)", diag: b"", toks: b"\x0akYIELD 0-5 yield\x0atIDENTIFIER 6-8 v\xff\x00\x0atCOMMA 8-9 ,\x0atLABEL 10-13 x\xff\x01\x0atINTEGER 14-15 \xff\x02\x0aEOF 15-15 " },
    Rec { t: b"return v\xffa", shape: b"(return args=[(send method_name=\x22v\xff\x00\x22 args=[])])", full: b"(return args=[(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9)] keyword=0-6 expression=0-9)", diag: b"", toks: b"\x0akRETURN 0-6 return\x0atIDENTIFIER 7-9 v\xff\x00\x0aEOF 9-9 " },
    Rec { t: b"return v\xffa, x\xffa", shape: b"(return args=[(send method_name=\x22v\xff\x00\x22 args=[]) (send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(return args=[(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) (send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13)] keyword=0-6 expression=0-13)", diag: b"", toks: b"\x0akRETURN 0-6 return\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atIDENTIFIER 11-13 x\xff\x01\x0aEOF 13-13 " },
    Rec { t: b"return v\xffa, *x\xffa", shape: b"(return args=[(send method_name=\x22v\xff\x00\x22 args=[]) (splat value=(send method_name=\x22x\xff\x01\x22 args=[]))])", full: b"(return args=[(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) (splat value=(send method_name=\x22x\xff\x01\x22 args=[] selector=12-14 expression=12-14) operator=11-12 expression=11-14)] keyword=0-6 expression=0-14)", diag: b"", toks: b"\x0akRETURN 0-6 return\x0atIDENTIFIER 7-9 v\xff\x00\x0atCOMMA 9-10 ,\x0atSTAR 11-12 *\x0atIDENTIFIER 12-14 x\xff\x01\x0aEOF 14-14 " },
    Rec { t: b"return [v\xffa]", shape: b"(return args=[(array elements=[(send method_name=\x22v\xff\x00\x22 args=[])])])", full: b"(return args=[(array elements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=8-10 expression=8-10)] begin=7-8 end=10-11 expression=7-11)] keyword=0-6 expression=0-11)", diag: b"", toks: b"\x0akRETURN 0-6 return\x0atLBRACK 7-8 [\x0atIDENTIFIER 8-10 v\xff\x00\x0atRBRACK 10-11 ]\x0aEOF 11-11 " },
    Rec { t: b"break v\xffa", shape: b"(break args=[(send method_name=\x22v\xff\x00\x22 args=[])])", full: b"(break args=[(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8)] keyword=0-5 expression=0-8)", diag: b"", toks: b"\x0akBREAK 0-5 break\x0atIDENTIFIER 6-8 v\xff\x00\x0aEOF 8-8 " },
    Rec { t: b"next v\xffa, x\xffa", shape: b"(next args=[(send method_name=\x22v\xff\x00\x22 args=[]) (send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(next args=[(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) (send method_name=\x22x\xff\x01\x22 args=[] selector=9-11 expression=9-11)] keyword=0-4 expression=0-11)", diag: b"", toks: b"\x0akNEXT 0-4 next\x0atIDENTIFIER 5-7 v\xff\x00\x0atCOMMA 7-8 ,\x0atIDENTIFIER 9-11 x\xff\x01\x0aEOF 11-11 " },
    Rec { t: b"[v\xffa, *x\xffa]", shape: b"(array elements=[(send method_name=\x22v\xff\x00\x22 args=[]) (splat value=(send method_name=\x22x\xff\x01\x22 args=[]))])", full: b"(array elements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3) (splat value=(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8) operator=5-6 expression=5-8)] begin=0-1 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atIDENTIFIER 1-3 v\xff\x00\x0atCOMMA 3-4 ,\x0atSTAR 5-6 *\x0atIDENTIFIER 6-8 x\xff\x01\x0atRBRACK 8-9 ]\x0aEOF 9-9 " },
    Rec { t: b"[v\xffa => x\xffa]", shape: b"(array elements=[(hash pairs=[(pair key=(send method_name=\x22v\xff\x00\x22 args=[]) value=(send method_name=\x22x\xff\x01\x22 args=[]))])])", full: b"(array elements=[(hash pairs=[(pair key=(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3) value=(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9) operator=4-6 expression=1-9)] expression=1-9)] begin=0-1 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atIDENTIFIER 1-3 v\xff\x00\x0atASSOC 4-6 =>\x0atIDENTIFIER 7-9 x\xff\x01\x0atRBRACK 9-10 ]\x0aEOF 10-10 " },
    Rec { t: b"[v\xffa: \xffd]", shape: b"(array elements=[(hash pairs=[(pair key=(sym name=\x22v\xff\x00\x22) value=(int value=\x22\xff\x01\x22))])])", full: b"(array elements=[(hash pairs=[(pair key=(sym name=\x22v\xff\x00\x22 expression=1-3) value=(int value=\x22\xff\x01\x22 expression=5-6) operator=3-4 expression=1-6)] expression=1-6)] begin=0-1 end=6-7 expression=0-7)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atLABEL 1-4 v\xff\x00\x0atINTEGER 5-6 \xff\x01\x0atRBRACK 6-7 ]\x0aEOF 7-7 " },
    Rec { t: b"[v\xffa, x\xffa: \xffd]", shape: b"(array elements=[(send method_name=\x22v\xff\x00\x22 args=[]) (hash pairs=[(pair key=(sym name=\x22x\xff\x01\x22) value=(int value=\x22\xff\x02\x22))])])", full: b"(array elements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3) (hash pairs=[(pair key=(sym name=\x22x\xff\x01\x22 expression=5-7) value=(int value=\x22\xff\x02\x22 expression=9-10) operator=7-8 expression=5-10)] expression=5-10)] begin=0-1 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atIDENTIFIER 1-3 v\xff\x00\x0atCOMMA 3-4 ,\x0atLABEL 5-8 x\xff\x01\x0atINTEGER 9-10 \xff\x02\x0atRBRACK 10-11 ]\x0aEOF 11-11 " },
    Rec { t: b"[\x0av\xffa,\x0ax\xffa\x0a]", shape: b"(array elements=[(send method_name=\x22v\xff\x00\x22 args=[]) (send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(array elements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=2-4 expression=2-4) (send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8)] begin=0-1 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atIDENTIFIER 2-4 v\xff\x00\x0atCOMMA 4-5 ,\x0atIDENTIFIER 6-8 x\xff\x01\x0atNL 8-9 \x0a\x0atRBRACK 9-10 ]\x0aEOF 10-10 " },
    Rec { t: b"[v\xffa,]", shape: b"(array elements=[(send method_name=\x22v\xff\x00\x22 args=[])])", full: b"(array elements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3)] begin=0-1 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atIDENTIFIER 1-3 v\xff\x00\x0atCOMMA 3-4 ,\x0atRBRACK 4-5 ]\x0aEOF 5-5 " },
    Rec { t: b"{v\xffa => x\xffa,}", shape: b"(hash pairs=[(pair key=(send method_name=\x22v\xff\x00\x22 args=[]) value=(send method_name=\x22x\xff\x01\x22 args=[]))])", full: b"(hash pairs=[(pair key=(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3) value=(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9) operator=4-6 expression=1-9)] begin=0-1 end=10-11 expression=0-11)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atIDENTIFIER 1-3 v\xff\x00\x0atASSOC 4-6 =>\x0atIDENTIFIER 7-9 x\xff\x01\x0atCOMMA 9-10 ,\x0atRCURLY 10-11 }\x0aEOF 11-11 " },
    Rec { t: b"{v\xffa: \xffd, x\xffa => y\xffa}", shape: b"(hash pairs=[(pair key=(sym name=\x22v\xff\x00\x22) value=(int value=\x22\xff\x01\x22)) (pair key=(send method_name=\x22x\xff\x02\x22 args=[]) value=(send method_name=\x22y\xff\x03\x22 args=[]))])", full: b"(hash pairs=[(pair key=(sym name=\x22v\xff\x00\x22 expression=1-3) value=(int value=\x22\xff\x01\x22 expression=5-6) operator=3-4 expression=1-6) (pair key=(send method_name=\x22x\xff\x02\x22 args=[] selector=8-10 expression=8-10) value=(send method_name=\x22y\xff\x03\x22 args=[] selector=14-16 expression=14-16) operator=11-13 expression=8-16)] begin=0-1 end=16-17 expression=0-17)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 1-4 v\xff\x00\x0atINTEGER 5-6 \xff\x01\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-10 x\xff\x02\x0atASSOC 11-13 =>\x0atIDENTIFIER 14-16 y\xff\x03\x0atRCURLY 16-17 }\x0aEOF 17-17 " },
    Rec { t: b"{\x22v\xffa\x22: \xffd}", shape: b"(hash pairs=[(pair key=(sym name=\x22v\xff\x00\x22) value=(int value=\x22\xff\x01\x22))])", full: b"(hash pairs=[(pair key=(sym name=\x22v\xff\x00\x22 begin=1-2 end=4-5 expression=1-5) value=(int value=\x22\xff\x01\x22 expression=7-8) operator=5-6 expression=1-8)] begin=0-1 end=8-9 expression=0-9)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atSTRING_BEG 1-2 \x22\x0atSTRING_CONTENT 2-4 v\xff\x00\x0atLABEL_END 4-6 \x22:\x0atINTEGER 7-8 \xff\x01\x0atRCURLY 8-9 }\x0aEOF 9-9 " },
    Rec { t: b"{\x22v\xffa#{x\xffa}\x22: \xffd}", shape: b"(hash pairs=[(pair key=(dsym parts=[(str value=\x22v\xff\x00\x22) (begin statements=[(send method_name=\x22x\xff\x01\x22 args=[])])]) value=(int value=\x22\xff\x02\x22))])", full: b"(hash pairs=[(pair key=(dsym parts=[(str value=\x22v\xff\x00\x22 expression=2-4) (begin statements=[(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8)] begin=4-6 end=8-9 expression=4-9)] begin=1-2 end=9-10 expression=1-10) value=(int value=\x22\xff\x02\x22 expression=12-13) operator=10-11 expression=1-13)] begin=0-1 end=13-14 expression=0-14)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atSTRING_BEG 1-2 \x22\x0atSTRING_CONTENT 2-4 v\xff\x00\x0atSTRING_DBEG 4-6 #{\x0atIDENTIFIER 6-8 x\xff\x01\x0atSTRING_DEND 8-9 }\x0atLABEL_END 9-11 \x22:\x0atINTEGER 12-13 \xff\x02\x0atRCURLY 13-14 }\x0aEOF 14-14 " },
    Rec { t: b"{**v\xffa}", shape: b"(hash pairs=[(kwsplat value=(send method_name=\x22v\xff\x00\x22 args=[]))])", full: b"(hash pairs=[(kwsplat value=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) operator=1-3 expression=1-5)] begin=0-1 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atDSTAR 1-3 **\x0atIDENTIFIER 3-5 v\xff\x00\x0atRCURLY 5-6 }\x0aEOF 6-6 " },
    Rec { t: b"{**v\xffa, x\xffa: \xffd}", shape: b"(hash pairs=[(kwsplat value=(send method_name=\x22v\xff\x00\x22 args=[])) (pair key=(sym name=\x22x\xff\x01\x22) value=(int value=\x22\xff\x02\x22))])", full: b"(hash pairs=[(kwsplat value=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) operator=1-3 expression=1-5) (pair key=(sym name=\x22x\xff\x01\x22 expression=7-9) value=(int value=\x22\xff\x02\x22 expression=11-12) operator=9-10 expression=7-12)] begin=0-1 end=12-13 expression=0-13)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atDSTAR 1-3 **\x0atIDENTIFIER 3-5 v\xff\x00\x0atCOMMA 5-6 ,\x0atLABEL 7-10 x\xff\x01\x0atINTEGER 11-12 \xff\x02\x0atRCURLY 12-13 }\x0aEOF 13-13 " },
    Rec { t: b"{v\xffa:}", shape: b"(hash pairs=[(pair key=(sym name=\x22v\xff\x00\x22) value=(send method_name=\x22v\xff\x00\x22 args=[]))])", full: b"(hash pairs=[(pair key=(sym name=\x22v\xff\x00\x22 expression=1-3) value=(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3) operator=3-4 expression=1-4)] begin=0-1 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 1-4 v\xff\x00\x0atRCURLY 4-5 }\x0aEOF 5-5 " },
    Rec { t: b"{v\xffa:, x\xffa:}", shape: b"(hash pairs=[(pair key=(sym name=\x22v\xff\x00\x22) value=(send method_name=\x22v\xff\x00\x22 args=[])) (pair key=(sym name=\x22x\xff\x01\x22) value=(send method_name=\x22x\xff\x01\x22 args=[]))])", full: b"(hash pairs=[(pair key=(sym name=\x22v\xff\x00\x22 expression=1-3) value=(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3) operator=3-4 expression=1-4) (pair key=(sym name=\x22x\xff\x01\x22 expression=6-8) value=(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8) operator=8-9 expression=6-9)] begin=0-1 end=9-10 expression=0-10)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 1-4 v\xff\x00\x0atCOMMA 4-5 ,\x0atLABEL 6-9 x\xff\x01\x0atRCURLY 9-10 }\x0aEOF 10-10 " },
    Rec { t: b"{if: \xffd}", shape: b"(hash pairs=[(pair key=(sym name=\x22if\x22) value=(int value=\x22\xff\x00\x22))])", full: b"(hash pairs=[(pair key=(sym name=\x22if\x22 expression=1-3) value=(int value=\x22\xff\x00\x22 expression=5-6) operator=3-4 expression=1-6)] begin=0-1 end=6-7 expression=0-7)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 1-4 if\x0atINTEGER 5-6 \xff\x00\x0atRCURLY 6-7 }\x0aEOF 7-7 " },
    Rec { t: b"{V\xffb: \xffd}", shape: b"(hash pairs=[(pair key=(sym name=\x22V\xff\x00\x22) value=(int value=\x22\xff\x01\x22))])", full: b"(hash pairs=[(pair key=(sym name=\x22V\xff\x00\x22 expression=1-3) value=(int value=\x22\xff\x01\x22 expression=5-6) operator=3-4 expression=1-6)] begin=0-1 end=6-7 expression=0-7)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 1-4 V\xff\x00\x0atINTEGER 5-6 \xff\x01\x0atRCURLY 6-7 }\x0aEOF 7-7 " },
    Rec { t: b"{v\xffa?: \xffd}", shape: b"(hash pairs=[(pair key=(sym name=\x22v\xff\x00?\x22) value=(int value=\x22\xff\x01\x22))])", full: b"(hash pairs=[(pair key=(sym name=\x22v\xff\x00?\x22 expression=1-4) value=(int value=\x22\xff\x01\x22 expression=6-7) operator=4-5 expression=1-7)] begin=0-1 end=7-8 expression=0-8)", diag: b"", toks: b"\x0atLBRACE 0-1 {\x0atLABEL 1-5 v\xff\x00?\x0atINTEGER 6-7 \xff\x01\x0atRCURLY 7-8 }\x0aEOF 8-8 " },
];
pub static OPS2: &[Rec] = &[
    Rec { t: b"v\xffa < x\xffa < y\xffa", shape: b"(send recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22<\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])]) method_name=\x22<\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[])])", full: b"(send recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22<\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7)] selector=3-4 expression=0-7) method_name=\x22<\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[] selector=10-12 expression=10-12)] selector=8-9 expression=0-12)", diag: b"\x0aW 8-9 comparison '<' after comparison", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLT 3-4 <\x0atIDENTIFIER 5-7 x\xff\x01\x0atLT 8-9 <\x0atIDENTIFIER 10-12 y\xff\x02\x0aEOF 12-12 " },
    Rec { t: b"v\xffa <= x\xffa > y\xffa", shape: b"(send recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22<=\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])]) method_name=\x22>\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[])])", full: b"(send recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22<=\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8)] selector=3-5 expression=0-8) method_name=\x22>\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[] selector=11-13 expression=11-13)] selector=9-10 expression=0-13)", diag: b"\x0aW 9-10 comparison '>' after comparison", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atLEQ 3-5 <=\x0atIDENTIFIER 6-8 x\xff\x01\x0atGT 9-10 >\x0atIDENTIFIER 11-13 y\xff\x02\x0aEOF 13-13 " },
    Rec { t: b"-\xffd ** x\xffa", shape: b"(send recv=(send recv=(int value=\x22\xff\x00\x22) method_name=\x22**\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])]) method_name=\x22-@\x22 args=[])", full: b"(send recv=(send recv=(int value=\x22\xff\x00\x22 expression=1-2) method_name=\x22**\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8)] selector=3-5 expression=1-8) method_name=\x22-@\x22 args=[] selector=0-1 expression=0-8)", diag: b"", toks: b"\x0atUMINUS_NUM 0-1 -\x0atINTEGER 1-2 \xff\x00\x0atPOW 3-5 **\x0atIDENTIFIER 6-8 x\xff\x01\x0aEOF 8-8 " },
    Rec { t: b"-\xffd.\xffd ** x\xffa", shape: b"(send recv=(send recv=(float value=\x22\xff\x00.\xff\x01\x22) method_name=\x22**\x22 args=[(send method_name=\x22x\xff\x02\x22 args=[])]) method_name=\x22-@\x22 args=[])", full: b"(send recv=(send recv=(float value=\x22\xff\x00.\xff\x01\x22 expression=1-4) method_name=\x22**\x22 args=[(send method_name=\x22x\xff\x02\x22 args=[] selector=8-10 expression=8-10)] selector=5-7 expression=1-10) method_name=\x22-@\x22 args=[] selector=0-1 expression=0-10)", diag: b"", toks: b"\x0atUMINUS_NUM 0-1 -\x0atFLOAT 1-4 \xff\x00.\xff\x01\x0atPOW 5-7 **\x0atIDENTIFIER 8-10 x\xff\x02\x0aEOF 10-10 " },
    Rec { t: b"-\xffdi", shape: b"(complex value=\x22-\xff\x00i\x22)", full: b"(complex value=\x22-\xff\x00i\x22 operator=0-1 expression=0-3)", diag: b"", toks: b"\x0atUMINUS_NUM 0-1 -\x0atIMAGINARY 1-3 \xff\x00i\x0aEOF 3-3 " },
    Rec { t: b"-\xffdr", shape: b"(rational value=\x22-\xff\x00r\x22)", full: b"(rational value=\x22-\xff\x00r\x22 operator=0-1 expression=0-3)", diag: b"", toks: b"\x0atUMINUS_NUM 0-1 -\x0atRATIONAL 1-3 \xff\x00r\x0aEOF 3-3 " },
    Rec { t: b"+\xffd", shape: b"(int value=\x22+\xff\x00\x22)", full: b"(int value=\x22+\xff\x00\x22 expression=0-2)", diag: b"", toks: b"\x0atINTEGER 0-2 +\xff\x00\x0aEOF 2-2 " },
    Rec { t: b"-\xffd.v\xffa", shape: b"(send recv=(int value=\x22-\xff\x00\x22) method_name=\x22v\xff\x01\x22 args=[])", full: b"(send recv=(int value=\x22-\xff\x00\x22 operator=0-1 expression=0-2) method_name=\x22v\xff\x01\x22 args=[] dot=2-3 selector=3-5 expression=0-5)", diag: b"", toks: b"\x0atUMINUS_NUM 0-1 -\x0atINTEGER 1-2 \xff\x00\x0atDOT 2-3 .\x0atIDENTIFIER 3-5 v\xff\x01\x0aEOF 5-5 " },
    Rec { t: b"- \xffd", shape: b"(send recv=(int value=\x22\xff\x00\x22) method_name=\x22-@\x22 args=[])", full: b"(send recv=(int value=\x22\xff\x00\x22 expression=2-3) method_name=\x22-@\x22 args=[] selector=0-1 expression=0-3)", diag: b"", toks: b"\x0atUMINUS 0-1 -\x0atINTEGER 2-3 \xff\x00\x0aEOF 3-3 " },
    Rec { t: b"/(?<v\xffa>x)/ =~ x\xffa", shape: b"(send recv=(regexp parts=[(str value=\x22(?<v\xff\x00>x)\x22)]) method_name=\x22=~\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(send recv=(regexp parts=[(str value=\x22(?<v\xff\x00>x)\x22 expression=1-9)] begin=0-1 end=9-10 expression=0-10) method_name=\x22=~\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=14-16 expression=14-16)] selector=11-13 expression=0-16)", diag: b"", toks: b"\x0atREGEXP_BEG 0-1 /\x0atSTRING_CONTENT 1-9 (?<v\xff\x00>x)\x0atREGEXP_END 9-10 /\x0atMATCH 11-13 =~\x0atIDENTIFIER 14-16 x\xff\x01\x0aEOF 16-16 " },
    Rec { t: b"v\xffa =~ /x\xffa/", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22=~\x22 args=[(regexp parts=[(str value=\x22x\xff\x01\x22)])])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) method_name=\x22=~\x22 args=[(regexp parts=[(str value=\x22x\xff\x01\x22 expression=7-9)] begin=6-7 end=9-10 expression=6-10)] selector=3-5 expression=0-10)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atMATCH 3-5 =~\x0atREGEXP_BEG 6-7 /\x0atSTRING_CONTENT 7-9 x\xff\x01\x0atREGEXP_END 9-10 /\x0aEOF 10-10 " },
    Rec { t: b"!()", shape: b"(send recv=(begin statements=[]) method_name=\x22!\x22 args=[])", full: b"(send recv=(begin statements=[] begin=1-2 end=2-3 expression=1-3) method_name=\x22!\x22 args=[] selector=0-1 expression=0-3)", diag: b"", toks: b"\x0atBANG 0-1 !\x0atLPAREN 1-2 (\x0atRPAREN 2-3 )\x0aEOF 3-3 " },
    Rec { t: b"!v\xffa.x\xffa", shape: b"(send recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01\x22 args=[]) method_name=\x22!\x22 args=[])", full: b"(send recv=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3) method_name=\x22x\xff\x01\x22 args=[] dot=3-4 selector=4-6 expression=1-6) method_name=\x22!\x22 args=[] selector=0-1 expression=0-6)", diag: b"", toks: b"\x0atBANG 0-1 !\x0atIDENTIFIER 1-3 v\xff\x00\x0atDOT 3-4 .\x0atIDENTIFIER 4-6 x\xff\x01\x0aEOF 6-6 " },
    Rec { t: b"not v\xffa x\xffa", shape: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])]) method_name=\x22!\x22 args=[])", full: b"(send recv=(send method_name=\x22v\xff\x00\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9)] selector=4-6 expression=4-9) method_name=\x22!\x22 args=[] selector=0-3 expression=0-9)", diag: b"", toks: b"\x0akNOT 0-3 not\x0atIDENTIFIER 4-6 v\xff\x00\x0atIDENTIFIER 7-9 x\xff\x01\x0aEOF 9-9 " },
    Rec { t: b"v\xffa and x\xffa y\xffa", shape: b"(and lhs=(send method_name=\x22v\xff\x00\x22 args=[]) rhs=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[])]))", full: b"(and lhs=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) rhs=(send method_name=\x22x\xff\x01\x22 args=[(send method_name=\x22y\xff\x02\x22 args=[] selector=10-12 expression=10-12)] selector=7-9 expression=7-12) operator=3-6 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akAND 3-6 and\x0atIDENTIFIER 7-9 x\xff\x01\x0atIDENTIFIER 10-12 y\xff\x02\x0aEOF 12-12 " },
    Rec { t: b"v\xffa or not x\xffa", shape: b"(or lhs=(send method_name=\x22v\xff\x00\x22 args=[]) rhs=(send recv=(send method_name=\x22x\xff\x01\x22 args=[]) method_name=\x22!\x22 args=[]))", full: b"(or lhs=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) rhs=(send recv=(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12) method_name=\x22!\x22 args=[] selector=6-9 expression=6-12) operator=3-5 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akOR 3-5 or\x0akNOT 6-9 not\x0atIDENTIFIER 10-12 x\xff\x01\x0aEOF 12-12 " },
    Rec { t: b"v\xffa and return", shape: b"(and lhs=(send method_name=\x22v\xff\x00\x22 args=[]) rhs=(return args=[]))", full: b"(and lhs=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) rhs=(return args=[] keyword=7-13 expression=7-13) operator=3-6 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akAND 3-6 and\x0akRETURN 7-13 return\x0aEOF 13-13 " },
    Rec { t: b"v\xffa or raise x\xffa", shape: b"(or lhs=(send method_name=\x22v\xff\x00\x22 args=[]) rhs=(send method_name=\x22raise\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[])]))", full: b"(or lhs=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) rhs=(send method_name=\x22raise\x22 args=[(send method_name=\x22x\xff\x01\x22 args=[] selector=12-14 expression=12-14)] selector=6-11 expression=6-14) operator=3-5 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akOR 3-5 or\x0atIDENTIFIER 6-11 raise\x0atIDENTIFIER 12-14 x\xff\x01\x0aEOF 14-14 " },
    Rec { t: b"v\xffa..", shape: b"(irange left=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(irange left=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) operator=2-4 expression=0-4)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT2 2-4 ..\x0aEOF 4-4 " },
    Rec { t: b"v\xffa...", shape: b"(erange left=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(erange left=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) operator=2-5 expression=0-5)", diag: b"\x0aW 2-5 ... at EOL, should be parenthesized?", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT3 2-5 ...\x0aEOF 5-5 " },
    Rec { t: b"..v\xffa", shape: b"(irange right=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(irange right=(send method_name=\x22v\xff\x00\x22 args=[] selector=2-4 expression=2-4) operator=0-2 expression=0-4)", diag: b"", toks: b"\x0atBDOT2 0-2 ..\x0atIDENTIFIER 2-4 v\xff\x00\x0aEOF 4-4 " },
    Rec { t: b"...v\xffa", shape: b"(erange right=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(erange right=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) operator=0-3 expression=0-5)", diag: b"", toks: b"\x0atBDOT3 0-3 ...\x0atIDENTIFIER 3-5 v\xff\x00\x0aEOF 5-5 " },
    Rec { t: b"(v\xffa..)", shape: b"(begin statements=[(irange left=(send method_name=\x22v\xff\x00\x22 args=[]))])", full: b"(begin statements=[(irange left=(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3) operator=3-5 expression=1-5)] begin=0-1 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atIDENTIFIER 1-3 v\xff\x00\x0atDOT2 3-5 ..\x0atRPAREN 5-6 )\x0aEOF 6-6 " },
    Rec { t: b"[v\xffa..]", shape: b"(array elements=[(irange left=(send method_name=\x22v\xff\x00\x22 args=[]))])", full: b"(array elements=[(irange left=(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3) operator=3-5 expression=1-5)] begin=0-1 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atIDENTIFIER 1-3 v\xff\x00\x0atDOT2 3-5 ..\x0atRBRACK 5-6 ]\x0aEOF 6-6 " },
    Rec { t: b"[..v\xffa]", shape: b"(array elements=[(irange right=(send method_name=\x22v\xff\x00\x22 args=[]))])", full: b"(array elements=[(irange right=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) operator=1-3 expression=1-5)] begin=0-1 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atLBRACK 0-1 [\x0atBDOT2 1-3 ..\x0atIDENTIFIER 3-5 v\xff\x00\x0atRBRACK 5-6 ]\x0aEOF 6-6 " },
    Rec { t: b"(\xffd..\xffd)", shape: b"(begin statements=[(irange left=(int value=\x22\xff\x00\x22) right=(int value=\x22\xff\x01\x22))])", full: b"(begin statements=[(irange left=(int value=\x22\xff\x00\x22 expression=1-2) right=(int value=\x22\xff\x01\x22 expression=4-5) operator=2-4 expression=1-5)] begin=0-1 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atINTEGER 1-2 \xff\x00\x0atDOT2 2-4 ..\x0atINTEGER 4-5 \xff\x01\x0atRPAREN 5-6 )\x0aEOF 6-6 " },
    Rec { t: b"v\xffa ? x\xffa : y\xffa", shape: b"(if_ternary cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]) if_false=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(if_ternary cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7) if_false=(send method_name=\x22y\xff\x02\x22 args=[] selector=10-12 expression=10-12) question=3-4 colon=8-9 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEH 3-4 ?\x0atIDENTIFIER 5-7 x\xff\x01\x0atCOLON 8-9 :\x0atIDENTIFIER 10-12 y\xff\x02\x0aEOF 12-12 " },
    Rec { t: b"v\xffa ? x\xffa : y\xffa ? z\xffa : q\xffa", shape: b"(if_ternary cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]) if_false=(if_ternary cond=(send method_name=\x22y\xff\x02\x22 args=[]) if_true=(send method_name=\x22z\xff\x03\x22 args=[]) if_false=(send method_name=\x22q\xff\x04\x22 args=[])))", full: b"(if_ternary cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7) if_false=(if_ternary cond=(send method_name=\x22y\xff\x02\x22 args=[] selector=10-12 expression=10-12) if_true=(send method_name=\x22z\xff\x03\x22 args=[] selector=15-17 expression=15-17) if_false=(send method_name=\x22q\xff\x04\x22 args=[] selector=20-22 expression=20-22) question=13-14 colon=18-19 expression=10-22) question=3-4 colon=8-9 expression=0-22)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEH 3-4 ?\x0atIDENTIFIER 5-7 x\xff\x01\x0atCOLON 8-9 :\x0atIDENTIFIER 10-12 y\xff\x02\x0atEH 13-14 ?\x0atIDENTIFIER 15-17 z\xff\x03\x0atCOLON 18-19 :\x0atIDENTIFIER 20-22 q\xff\x04\x0aEOF 22-22 " },
    Rec { t: b"v\xffa ? x\xffa ? y\xffa : z\xffa : q\xffa", shape: b"(if_ternary cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(if_ternary cond=(send method_name=\x22x\xff\x01\x22 args=[]) if_true=(send method_name=\x22y\xff\x02\x22 args=[]) if_false=(send method_name=\x22z\xff\x03\x22 args=[])) if_false=(send method_name=\x22q\xff\x04\x22 args=[]))", full: b"(if_ternary cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) if_true=(if_ternary cond=(send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7) if_true=(send method_name=\x22y\xff\x02\x22 args=[] selector=10-12 expression=10-12) if_false=(send method_name=\x22z\xff\x03\x22 args=[] selector=15-17 expression=15-17) question=8-9 colon=13-14 expression=5-17) if_false=(send method_name=\x22q\xff\x04\x22 args=[] selector=20-22 expression=20-22) question=3-4 colon=18-19 expression=0-22)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEH 3-4 ?\x0atIDENTIFIER 5-7 x\xff\x01\x0atEH 8-9 ?\x0atIDENTIFIER 10-12 y\xff\x02\x0atCOLON 13-14 :\x0atIDENTIFIER 15-17 z\xff\x03\x0atCOLON 18-19 :\x0atIDENTIFIER 20-22 q\xff\x04\x0aEOF 22-22 " },
    Rec { t: b"v\xffa ? :x\xffa : :y\xffa", shape: b"(if_ternary cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(sym name=\x22x\xff\x01\x22) if_false=(sym name=\x22y\xff\x02\x22))", full: b"(if_ternary cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) if_true=(sym name=\x22x\xff\x01\x22 begin=5-6 expression=5-8) if_false=(sym name=\x22y\xff\x02\x22 begin=11-12 expression=11-14) question=3-4 colon=9-10 expression=0-14)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEH 3-4 ?\x0atSYMBEG 5-6 :\x0atIDENTIFIER 6-8 x\xff\x01\x0atCOLON 9-10 :\x0atSYMBEG 11-12 :\x0atIDENTIFIER 12-14 y\xff\x02\x0aEOF 14-14 " },
    Rec { t: b"v\xffa ?x\xffa : y\xffa", shape: b"(if_ternary cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]) if_false=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(if_ternary cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6) if_false=(send method_name=\x22y\xff\x02\x22 args=[] selector=9-11 expression=9-11) question=3-4 colon=7-8 expression=0-11)", diag: b"\x0aW 3-4 `?' just followed by `x\xff\x01' is interpreted as a conditional operator, put a space after `?'", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atEH 3-4 ?\x0atIDENTIFIER 4-6 x\xff\x01\x0atCOLON 7-8 :\x0atIDENTIFIER 9-11 y\xff\x02\x0aEOF 11-11 " },
    Rec { t: b"defined? v\xffa && x\xffa", shape: b"(defined value=(and lhs=(send method_name=\x22v\xff\x00\x22 args=[]) rhs=(send method_name=\x22x\xff\x01\x22 args=[])))", full: b"(defined value=(and lhs=(send method_name=\x22v\xff\x00\x22 args=[] selector=9-11 expression=9-11) rhs=(send method_name=\x22x\xff\x01\x22 args=[] selector=15-17 expression=15-17) operator=12-14 expression=9-17) keyword=0-8 expression=0-17)", diag: b"", toks: b"\x0akDEFINED 0-8 defined?\x0atIDENTIFIER 9-11 v\xff\x00\x0atANDOP 12-14 &&\x0atIDENTIFIER 15-17 x\xff\x01\x0aEOF 17-17 " },
    Rec { t: b"\xffdi", shape: b"(complex value=\x22\xff\x00i\x22)", full: b"(complex value=\x22\xff\x00i\x22 expression=0-2)", diag: b"", toks: b"\x0atIMAGINARY 0-2 \xff\x00i\x0aEOF 2-2 " },
    Rec { t: b"\xffdr", shape: b"(rational value=\x22\xff\x00r\x22)", full: b"(rational value=\x22\xff\x00r\x22 expression=0-2)", diag: b"", toks: b"\x0atRATIONAL 0-2 \xff\x00r\x0aEOF 2-2 " },
    Rec { t: b"\xffdri", shape: b"(complex value=\x22\xff\x00ri\x22)", full: b"(complex value=\x22\xff\x00ri\x22 expression=0-3)", diag: b"", toks: b"\x0atIMAGINARY 0-3 \xff\x00ri\x0aEOF 3-3 " },
    Rec { t: b"\xffd.\xffdi", shape: b"(complex value=\x22\xff\x00.\xff\x01i\x22)", full: b"(complex value=\x22\xff\x00.\xff\x01i\x22 expression=0-4)", diag: b"", toks: b"\x0atIMAGINARY 0-4 \xff\x00.\xff\x01i\x0aEOF 4-4 " },
    Rec { t: b"\xffd.\xffdri", shape: b"(complex value=\x22\xff\x00.\xff\x01ri\x22)", full: b"(complex value=\x22\xff\x00.\xff\x01ri\x22 expression=0-5)", diag: b"", toks: b"\x0atIMAGINARY 0-5 \xff\x00.\xff\x01ri\x0aEOF 5-5 " },
    Rec { t: b"\xffde\xffd", shape: b"(float value=\x22\xff\x00e\xff\x01\x22)", full: b"(float value=\x22\xff\x00e\xff\x01\x22 expression=0-3)", diag: b"", toks: b"\x0atFLOAT 0-3 \xff\x00e\xff\x01\x0aEOF 3-3 " },
    Rec { t: b"\xffD_\xffd", shape: b"(int value=\x22\xff\x00_\xff\x01\x22)", full: b"(int value=\x22\xff\x00_\xff\x01\x22 expression=0-3)", diag: b"", toks: b"\x0atINTEGER 0-3 \xff\x00_\xff\x01\x0aEOF 3-3 " },
    Rec { t: b"0x\xffx", shape: b"(int value=\x220x\xff\x00\x22)", full: b"(int value=\x220x\xff\x00\x22 expression=0-3)", diag: b"", toks: b"\x0atINTEGER 0-3 0x\xff\x00\x0aEOF 3-3 " },
    Rec { t: b"0o7", shape: b"(int value=\x220o7\x22)", full: b"(int value=\x220o7\x22 expression=0-3)", diag: b"", toks: b"\x0atINTEGER 0-3 0o7\x0aEOF 3-3 " },
    Rec { t: b"\xffd if v\xffa...x\xffa", shape: b"(if_mod cond=(e_flip_flop left=(send method_name=\x22v\xff\x01\x22 args=[]) right=(send method_name=\x22x\xff\x02\x22 args=[])) if_true=(int value=\x22\xff\x00\x22))", full: b"(if_mod cond=(e_flip_flop left=(send method_name=\x22v\xff\x01\x22 args=[] selector=5-7 expression=5-7) right=(send method_name=\x22x\xff\x02\x22 args=[] selector=10-12 expression=10-12) operator=7-10 expression=5-12) if_true=(int value=\x22\xff\x00\x22 expression=0-1) keyword=2-4 expression=0-12)", diag: b"", toks: b"\x0atINTEGER 0-1 \xff\x00\x0akIF_MOD 2-4 if\x0atIDENTIFIER 5-7 v\xff\x01\x0atDOT3 7-10 ...\x0atIDENTIFIER 10-12 x\xff\x02\x0aEOF 12-12 " },
    Rec { t: b"\xffd if /v\xffa/", shape: b"(if_mod cond=(match_current_line re=(regexp parts=[(str value=\x22v\xff\x01\x22)])) if_true=(int value=\x22\xff\x00\x22))", full: b"(if_mod cond=(match_current_line re=(regexp parts=[(str value=\x22v\xff\x01\x22 expression=6-8)] begin=5-6 end=8-9 expression=5-9) expression=5-9) if_true=(int value=\x22\xff\x00\x22 expression=0-1) keyword=2-4 expression=0-9)", diag: b"", toks: b"\x0atINTEGER 0-1 \xff\x00\x0akIF_MOD 2-4 if\x0atREGEXP_BEG 5-6 /\x0atSTRING_CONTENT 6-8 v\xff\x01\x0atREGEXP_END 8-9 /\x0aEOF 9-9 " },
    Rec { t: b"\xffd if /v\xffa/ or x\xffa", shape: b"(if_mod cond=(or lhs=(match_current_line re=(regexp parts=[(str value=\x22v\xff\x01\x22)])) rhs=(send method_name=\x22x\xff\x02\x22 args=[])) if_true=(int value=\x22\xff\x00\x22))", full: b"(if_mod cond=(or lhs=(match_current_line re=(regexp parts=[(str value=\x22v\xff\x01\x22 expression=6-8)] begin=5-6 end=8-9 expression=5-9) expression=5-9) rhs=(send method_name=\x22x\xff\x02\x22 args=[] selector=13-15 expression=13-15) operator=10-12 expression=5-15) if_true=(int value=\x22\xff\x00\x22 expression=0-1) keyword=2-4 expression=0-15)", diag: b"", toks: b"\x0atINTEGER 0-1 \xff\x00\x0akIF_MOD 2-4 if\x0atREGEXP_BEG 5-6 /\x0atSTRING_CONTENT 6-8 v\xff\x01\x0atREGEXP_END 8-9 /\x0akOR 10-12 or\x0atIDENTIFIER 13-15 x\xff\x02\x0aEOF 15-15 " },
    Rec { t: b"\xffd if /v\xffa/ && x\xffa..y\xffa", shape: b"(if_mod cond=(i_flip_flop left=(and lhs=(match_current_line re=(regexp parts=[(str value=\x22v\xff\x01\x22)])) rhs=(send method_name=\x22x\xff\x02\x22 args=[])) right=(send method_name=\x22y\xff\x03\x22 args=[])) if_true=(int value=\x22\xff\x00\x22))", full: b"(if_mod cond=(i_flip_flop left=(and lhs=(match_current_line re=(regexp parts=[(str value=\x22v\xff\x01\x22 expression=6-8)] begin=5-6 end=8-9 expression=5-9) expression=5-9) rhs=(send method_name=\x22x\xff\x02\x22 args=[] selector=13-15 expression=13-15) operator=10-12 expression=5-15) right=(send method_name=\x22y\xff\x03\x22 args=[] selector=17-19 expression=17-19) operator=15-17 expression=5-19) if_true=(int value=\x22\xff\x00\x22 expression=0-1) keyword=2-4 expression=0-19)", diag: b"", toks: b"\x0atINTEGER 0-1 \xff\x00\x0akIF_MOD 2-4 if\x0atREGEXP_BEG 5-6 /\x0atSTRING_CONTENT 6-8 v\xff\x01\x0atREGEXP_END 8-9 /\x0atANDOP 10-12 &&\x0atIDENTIFIER 13-15 x\xff\x02\x0atDOT2 15-17 ..\x0atIDENTIFIER 17-19 y\xff\x03\x0aEOF 19-19 " },
    Rec { t: b"\xffd if not /v\xffa/", shape: b"(if_mod cond=(send recv=(match_current_line re=(regexp parts=[(str value=\x22v\xff\x01\x22)])) method_name=\x22!\x22 args=[]) if_true=(int value=\x22\xff\x00\x22))", full: b"(if_mod cond=(send recv=(match_current_line re=(regexp parts=[(str value=\x22v\xff\x01\x22 expression=10-12)] begin=9-10 end=12-13 expression=9-13) expression=9-13) method_name=\x22!\x22 args=[] selector=5-8 expression=5-13) if_true=(int value=\x22\xff\x00\x22 expression=0-1) keyword=2-4 expression=0-13)", diag: b"\x0aW 9-10 ambiguity between regexp and two divisions: wrap regexp in parentheses or add a space after `/' operator", toks: b"\x0atINTEGER 0-1 \xff\x00\x0akIF_MOD 2-4 if\x0akNOT 5-8 not\x0atREGEXP_BEG 9-10 /\x0atSTRING_CONTENT 10-12 v\xff\x01\x0atREGEXP_END 12-13 /\x0aEOF 13-13 " },
    Rec { t: b"\xffd if !/v\xffa/", shape: b"(if_mod cond=(send recv=(match_current_line re=(regexp parts=[(str value=\x22v\xff\x01\x22)])) method_name=\x22!\x22 args=[]) if_true=(int value=\x22\xff\x00\x22))", full: b"(if_mod cond=(send recv=(match_current_line re=(regexp parts=[(str value=\x22v\xff\x01\x22 expression=7-9)] begin=6-7 end=9-10 expression=6-10) expression=6-10) method_name=\x22!\x22 args=[] selector=5-6 expression=5-10) if_true=(int value=\x22\xff\x00\x22 expression=0-1) keyword=2-4 expression=0-10)", diag: b"", toks: b"\x0atINTEGER 0-1 \xff\x00\x0akIF_MOD 2-4 if\x0atBANG 5-6 !\x0atREGEXP_BEG 6-7 /\x0atSTRING_CONTENT 7-9 v\xff\x01\x0atREGEXP_END 9-10 /\x0aEOF 10-10 " },
    Rec { t: b"\xffd unless \xffd..\xffd", shape: b"(if_mod cond=(i_flip_flop left=(int value=\x22\xff\x01\x22) right=(int value=\x22\xff\x02\x22)) if_false=(int value=\x22\xff\x00\x22))", full: b"(if_mod cond=(i_flip_flop left=(int value=\x22\xff\x01\x22 expression=9-10) right=(int value=\x22\xff\x02\x22 expression=12-13) operator=10-12 expression=9-13) if_false=(int value=\x22\xff\x00\x22 expression=0-1) keyword=2-8 expression=0-13)", diag: b"", toks: b"\x0atINTEGER 0-1 \xff\x00\x0akUNLESS_MOD 2-8 unless\x0atINTEGER 9-10 \xff\x01\x0atDOT2 10-12 ..\x0atINTEGER 12-13 \xff\x02\x0aEOF 13-13 " },
    Rec { t: b"v\xffa..x\xffa ? y\xffa : z\xffa", shape: b"(if_ternary cond=(i_flip_flop left=(send method_name=\x22v\xff\x00\x22 args=[]) right=(send method_name=\x22x\xff\x01\x22 args=[])) if_true=(send method_name=\x22y\xff\x02\x22 args=[]) if_false=(send method_name=\x22z\xff\x03\x22 args=[]))", full: b"(if_ternary cond=(i_flip_flop left=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) right=(send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6) operator=2-4 expression=0-6) if_true=(send method_name=\x22y\xff\x02\x22 args=[] selector=9-11 expression=9-11) if_false=(send method_name=\x22z\xff\x03\x22 args=[] selector=14-16 expression=14-16) question=7-8 colon=12-13 expression=0-16)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atDOT2 2-4 ..\x0atIDENTIFIER 4-6 x\xff\x01\x0atEH 7-8 ?\x0atIDENTIFIER 9-11 y\xff\x02\x0atCOLON 12-13 :\x0atIDENTIFIER 14-16 z\xff\x03\x0aEOF 16-16 " },
];
pub static CONTROL2: &[Rec] = &[
    Rec { t: b"begin; v\xffa; rescue; x\xffa; else; y\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x01\x22 args=[]))] else_=(send method_name=\x22y\xff\x02\x22 args=[]))])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x01\x22 args=[] selector=19-21 expression=19-21) keyword=11-17 begin=17-18 expression=11-21)] else_=(send method_name=\x22y\xff\x02\x22 args=[] selector=29-31 expression=29-31) else=23-27 expression=7-31)] begin=0-5 end=33-36 expression=0-36)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSEMI 17-18 ;\x0atIDENTIFIER 19-21 x\xff\x01\x0atSEMI 21-22 ;\x0akELSE 23-27 else\x0atSEMI 27-28 ;\x0atIDENTIFIER 29-31 y\xff\x02\x0atSEMI 31-32 ;\x0akEND 33-36 end\x0aEOF 36-36 " },
    Rec { t: b"begin; v\xffa; rescue V\xffb, X\xffb; x\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22) (const name=\x22X\xff\x02\x22)]) body=(send method_name=\x22x\xff\x03\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22 name=18-20 expression=18-20) (const name=\x22X\xff\x02\x22 name=22-24 expression=22-24)] expression=18-24) body=(send method_name=\x22x\xff\x03\x22 args=[] selector=26-28 expression=26-28) keyword=11-17 begin=24-25 expression=11-28)] expression=7-28)] begin=0-5 end=30-33 expression=0-33)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atCONSTANT 18-20 V\xff\x01\x0atCOMMA 20-21 ,\x0atCONSTANT 22-24 X\xff\x02\x0atSEMI 24-25 ;\x0atIDENTIFIER 26-28 x\xff\x03\x0atSEMI 28-29 ;\x0akEND 30-33 end\x0aEOF 33-33 " },
    Rec { t: b"begin; v\xffa; rescue *x\xffa; y\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[]))]) body=(send method_name=\x22y\xff\x02\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_list=(array elements=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[] selector=19-21 expression=19-21) operator=18-19 expression=18-21)] expression=18-21) body=(send method_name=\x22y\xff\x02\x22 args=[] selector=23-25 expression=23-25) keyword=11-17 begin=21-22 expression=11-25)] expression=7-25)] begin=0-5 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSTAR 18-19 *\x0atIDENTIFIER 19-21 x\xff\x01\x0atSEMI 21-22 ;\x0atIDENTIFIER 23-25 y\xff\x02\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"begin; v\xffa; rescue V\xffb, *x\xffa; y\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22) (splat value=(send method_name=\x22x\xff\x02\x22 args=[]))]) body=(send method_name=\x22y\xff\x03\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22 name=18-20 expression=18-20) (splat value=(send method_name=\x22x\xff\x02\x22 args=[] selector=23-25 expression=23-25) operator=22-23 expression=22-25)] expression=18-25) body=(send method_name=\x22y\xff\x03\x22 args=[] selector=27-29 expression=27-29) keyword=11-17 begin=25-26 expression=11-29)] expression=7-29)] begin=0-5 end=31-34 expression=0-34)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atCONSTANT 18-20 V\xff\x01\x0atCOMMA 20-21 ,\x0atSTAR 22-23 *\x0atIDENTIFIER 23-25 x\xff\x02\x0atSEMI 25-26 ;\x0atIDENTIFIER 27-29 y\xff\x03\x0atSEMI 29-30 ;\x0akEND 31-34 end\x0aEOF 34-34 " },
    Rec { t: b"begin; v\xffa; rescue *x\xffa, V\xffb; y\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[])) (const name=\x22V\xff\x02\x22)]) body=(send method_name=\x22y\xff\x03\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_list=(array elements=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[] selector=19-21 expression=19-21) operator=18-19 expression=18-21) (const name=\x22V\xff\x02\x22 name=23-25 expression=23-25)] expression=18-25) body=(send method_name=\x22y\xff\x03\x22 args=[] selector=27-29 expression=27-29) keyword=11-17 begin=25-26 expression=11-29)] expression=7-29)] begin=0-5 end=31-34 expression=0-34)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSTAR 18-19 *\x0atIDENTIFIER 19-21 x\xff\x01\x0atCOMMA 21-22 ,\x0atCONSTANT 23-25 V\xff\x02\x0atSEMI 25-26 ;\x0atIDENTIFIER 27-29 y\xff\x03\x0atSEMI 29-30 ;\x0akEND 31-34 end\x0aEOF 34-34 " },
    Rec { t: b"begin; v\xffa; rescue => x\xffa; y\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_var=(lvasgn name=\x22x\xff\x01\x22) body=(send method_name=\x22y\xff\x02\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_var=(lvasgn name=\x22x\xff\x01\x22 name=21-23 expression=21-23) body=(send method_name=\x22y\xff\x02\x22 args=[] selector=25-27 expression=25-27) keyword=11-17 assoc=18-20 begin=23-24 expression=11-27)] expression=7-27)] begin=0-5 end=29-32 expression=0-32)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atASSOC 18-20 =>\x0atIDENTIFIER 21-23 x\xff\x01\x0atSEMI 23-24 ;\x0atIDENTIFIER 25-27 y\xff\x02\x0atSEMI 27-28 ;\x0akEND 29-32 end\x0aEOF 32-32 " },
    Rec { t: b"begin; v\xffa; rescue => @x\xffa; y\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_var=(ivasgn name=\x22@x\xff\x01\x22) body=(send method_name=\x22y\xff\x02\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_var=(ivasgn name=\x22@x\xff\x01\x22 name=21-24 expression=21-24) body=(send method_name=\x22y\xff\x02\x22 args=[] selector=26-28 expression=26-28) keyword=11-17 assoc=18-20 begin=24-25 expression=11-28)] expression=7-28)] begin=0-5 end=30-33 expression=0-33)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atASSOC 18-20 =>\x0atIVAR 21-24 @x\xff\x01\x0atSEMI 24-25 ;\x0atIDENTIFIER 26-28 y\xff\x02\x0atSEMI 28-29 ;\x0akEND 30-33 end\x0aEOF 33-33 " },
    Rec { t: b"begin; v\xffa; rescue => x\xffa.y\xffa; z\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_var=(send recv=(send method_name=\x22x\xff\x01\x22 args=[]) method_name=\x22y\xff\x02=\x22 args=[]) body=(send method_name=\x22z\xff\x03\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_var=(send recv=(send method_name=\x22x\xff\x01\x22 args=[] selector=21-23 expression=21-23) method_name=\x22y\xff\x02=\x22 args=[] dot=23-24 selector=24-26 expression=21-26) body=(send method_name=\x22z\xff\x03\x22 args=[] selector=28-30 expression=28-30) keyword=11-17 assoc=18-20 begin=26-27 expression=11-30)] expression=7-30)] begin=0-5 end=32-35 expression=0-35)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atASSOC 18-20 =>\x0atIDENTIFIER 21-23 x\xff\x01\x0atDOT 23-24 .\x0atIDENTIFIER 24-26 y\xff\x02\x0atSEMI 26-27 ;\x0atIDENTIFIER 28-30 z\xff\x03\x0atSEMI 30-31 ;\x0akEND 32-35 end\x0aEOF 35-35 " },
    Rec { t: b"begin; v\xffa; rescue => x\xffa[y\xffa]; z\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_var=(index_asgn recv=(send method_name=\x22x\xff\x01\x22 args=[]) indexes=[(send method_name=\x22y\xff\x02\x22 args=[])]) body=(send method_name=\x22z\xff\x03\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_var=(index_asgn recv=(send method_name=\x22x\xff\x01\x22 args=[] selector=21-23 expression=21-23) indexes=[(send method_name=\x22y\xff\x02\x22 args=[] selector=24-26 expression=24-26)] begin=23-24 end=26-27 expression=21-27) body=(send method_name=\x22z\xff\x03\x22 args=[] selector=29-31 expression=29-31) keyword=11-17 assoc=18-20 begin=27-28 expression=11-31)] expression=7-31)] begin=0-5 end=33-36 expression=0-36)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atASSOC 18-20 =>\x0atIDENTIFIER 21-23 x\xff\x01\x0atLBRACK2 23-24 [\x0atIDENTIFIER 24-26 y\xff\x02\x0atRBRACK 26-27 ]\x0atSEMI 27-28 ;\x0atIDENTIFIER 29-31 z\xff\x03\x0atSEMI 31-32 ;\x0akEND 33-36 end\x0aEOF 36-36 " },
    Rec { t: b"begin; v\xffa; rescue V\xffb => x\xffa then y\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22)]) exc_var=(lvasgn name=\x22x\xff\x02\x22) body=(send method_name=\x22y\xff\x03\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body exc_list=(array elements=[(const name=\x22V\xff\x01\x22 name=18-20 expression=18-20)] expression=18-20) exc_var=(lvasgn name=\x22x\xff\x02\x22 name=24-26 expression=24-26) body=(send method_name=\x22y\xff\x03\x22 args=[] selector=32-34 expression=32-34) keyword=11-17 assoc=21-23 begin=27-31 expression=11-34)] expression=7-34)] begin=0-5 end=36-39 expression=0-39)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atCONSTANT 18-20 V\xff\x01\x0atASSOC 21-23 =>\x0atIDENTIFIER 24-26 x\xff\x02\x0akTHEN 27-31 then\x0atIDENTIFIER 32-34 y\xff\x03\x0atSEMI 34-35 ;\x0akEND 36-39 end\x0aEOF 39-39 " },
    Rec { t: b"begin; v\xffa; rescue; x\xffa; rescue V\xffb; y\xffa; end", shape: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x01\x22 args=[])) (rescue_body exc_list=(array elements=[(const name=\x22V\xff\x02\x22)]) body=(send method_name=\x22y\xff\x03\x22 args=[]))])])", full: b"(kw_begin statements=[(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x01\x22 args=[] selector=19-21 expression=19-21) keyword=11-17 begin=17-18 expression=11-21) (rescue_body exc_list=(array elements=[(const name=\x22V\xff\x02\x22 name=30-32 expression=30-32)] expression=30-32) body=(send method_name=\x22y\xff\x03\x22 args=[] selector=34-36 expression=34-36) keyword=23-29 begin=32-33 expression=23-36)] expression=7-36)] begin=0-5 end=38-41 expression=0-41)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atSEMI 5-6 ;\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0akRESCUE 11-17 rescue\x0atSEMI 17-18 ;\x0atIDENTIFIER 19-21 x\xff\x01\x0atSEMI 21-22 ;\x0akRESCUE 23-29 rescue\x0atCONSTANT 30-32 V\xff\x02\x0atSEMI 32-33 ;\x0atIDENTIFIER 34-36 y\xff\x03\x0atSEMI 36-37 ;\x0akEND 38-41 end\x0aEOF 41-41 " },
    Rec { t: b"begin v\xffa end", shape: b"(kw_begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])])", full: b"(kw_begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8)] begin=0-5 end=9-12 expression=0-12)", diag: b"", toks: b"\x0akBEGIN 0-5 begin\x0atIDENTIFIER 6-8 v\xff\x00\x0akEND 9-12 end\x0aEOF 12-12 " },
    Rec { t: b"v\xffa rescue x\xffa rescue y\xffa", shape: b"(rescue body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x01\x22 args=[]))]) rescue_bodies=[(rescue_body body=(send method_name=\x22y\xff\x02\x22 args=[]))])", full: b"(rescue body=(rescue body=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) rescue_bodies=[(rescue_body body=(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12) keyword=3-9 expression=3-12)] expression=0-12) rescue_bodies=[(rescue_body body=(send method_name=\x22y\xff\x02\x22 args=[] selector=20-22 expression=20-22) keyword=13-19 expression=13-22)] expression=0-22)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akRESCUE_MOD 3-9 rescue\x0atIDENTIFIER 10-12 x\xff\x01\x0akRESCUE_MOD 13-19 rescue\x0atIDENTIFIER 20-22 y\xff\x02\x0aEOF 22-22 " },
    Rec { t: b"v\xffa if x\xffa unless y\xffa", shape: b"(if_mod cond=(send method_name=\x22y\xff\x02\x22 args=[]) if_false=(if_mod cond=(send method_name=\x22x\xff\x01\x22 args=[]) if_true=(send method_name=\x22v\xff\x00\x22 args=[])))", full: b"(if_mod cond=(send method_name=\x22y\xff\x02\x22 args=[] selector=16-18 expression=16-18) if_false=(if_mod cond=(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8) if_true=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) keyword=3-5 expression=0-8) keyword=9-15 expression=0-18)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akIF_MOD 3-5 if\x0atIDENTIFIER 6-8 x\xff\x01\x0akUNLESS_MOD 9-15 unless\x0atIDENTIFIER 16-18 y\xff\x02\x0aEOF 18-18 " },
    Rec { t: b"if v\xffa then x\xffa elsif y\xffa then z\xffa else q\xffa end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]) if_false=(if cond=(send method_name=\x22y\xff\x02\x22 args=[]) if_true=(send method_name=\x22z\xff\x03\x22 args=[]) if_false=(send method_name=\x22q\xff\x04\x22 args=[])))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13) if_false=(if cond=(send method_name=\x22y\xff\x02\x22 args=[] selector=20-22 expression=20-22) if_true=(send method_name=\x22z\xff\x03\x22 args=[] selector=28-30 expression=28-30) if_false=(send method_name=\x22q\xff\x04\x22 args=[] selector=36-38 expression=36-38) keyword=14-19 begin=23-27 else=31-35 expression=14-38) keyword=0-2 begin=6-10 else=14-19 end=39-42 expression=0-42)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0akTHEN 6-10 then\x0atIDENTIFIER 11-13 x\xff\x01\x0akELSIF 14-19 elsif\x0atIDENTIFIER 20-22 y\xff\x02\x0akTHEN 23-27 then\x0atIDENTIFIER 28-30 z\xff\x03\x0akELSE 31-35 else\x0atIDENTIFIER 36-38 q\xff\x04\x0akEND 39-42 end\x0aEOF 42-42 " },
    Rec { t: b"if v\xffa; elsif x\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_false=(if cond=(send method_name=\x22x\xff\x01\x22 args=[])))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_false=(if cond=(send method_name=\x22x\xff\x01\x22 args=[] selector=13-15 expression=13-15) keyword=7-12 begin=15-16 expression=7-16) keyword=0-2 begin=5-6 else=7-12 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atSEMI 5-6 ;\x0akELSIF 7-12 elsif\x0atIDENTIFIER 13-15 x\xff\x01\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"if v\xffa\x0ax\xffa\x0aelse\x0ay\xffa\x0aend", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22x\xff\x01\x22 args=[]) if_false=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=3-5 expression=3-5) if_true=(send method_name=\x22x\xff\x01\x22 args=[] selector=6-8 expression=6-8) if_false=(send method_name=\x22y\xff\x02\x22 args=[] selector=14-16 expression=14-16) keyword=0-2 begin=5-6 else=9-13 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akIF 0-2 if\x0atIDENTIFIER 3-5 v\xff\x00\x0atNL 5-6 \x0a\x0atIDENTIFIER 6-8 x\xff\x01\x0atNL 8-9 \x0a\x0akELSE 9-13 else\x0atIDENTIFIER 14-16 y\xff\x02\x0atNL 16-17 \x0a\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"if (v\xffa = x\xffa); end", shape: b"(if cond=(begin statements=[(lvasgn name=\x22v\xff\x00\x22 value=(send method_name=\x22x\xff\x01\x22 args=[]))]))", full: b"(if cond=(begin statements=[(lvasgn name=\x22v\xff\x00\x22 value=(send method_name=\x22x\xff\x01\x22 args=[] selector=9-11 expression=9-11) name=4-6 operator=7-8 expression=4-11)] begin=3-4 end=11-12 expression=3-12) keyword=0-2 begin=12-13 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akIF 0-2 if\x0atLPAREN 3-4 (\x0atIDENTIFIER 4-6 v\xff\x00\x0atEQL 7-8 =\x0atIDENTIFIER 9-11 x\xff\x01\x0atRPAREN 11-12 )\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"unless v\xffa; x\xffa; else; y\xffa; end", shape: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[]) if_true=(send method_name=\x22y\xff\x02\x22 args=[]) if_false=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(if cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=7-9 expression=7-9) if_true=(send method_name=\x22y\xff\x02\x22 args=[] selector=21-23 expression=21-23) if_false=(send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13) keyword=0-6 begin=9-10 else=15-19 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akUNLESS 0-6 unless\x0atIDENTIFIER 7-9 v\xff\x00\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 x\xff\x01\x0atSEMI 13-14 ;\x0akELSE 15-19 else\x0atSEMI 19-20 ;\x0atIDENTIFIER 21-23 y\xff\x02\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"until v\xffa; end", shape: b"(until cond=(send method_name=\x22v\xff\x00\x22 args=[]))", full: b"(until cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) keyword=0-5 begin=8-9 end=10-13 expression=0-13)", diag: b"", toks: b"\x0akUNTIL 0-5 until\x0atIDENTIFIER 6-8 v\xff\x00\x0atSEMI 8-9 ;\x0akEND 10-13 end\x0aEOF 13-13 " },
    Rec { t: b"while v\xffa; x\xffa; break; next; redo; end", shape: b"(while cond=(send method_name=\x22v\xff\x00\x22 args=[]) body=(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[]) (break args=[]) (next args=[]) (redo)]))", full: b"(while cond=(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) body=(begin statements=[(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12) (break args=[] keyword=14-19 expression=14-19) (next args=[] keyword=21-25 expression=21-25) (redo expression=27-31)] expression=10-31) keyword=0-5 begin=8-9 end=33-36 expression=0-36)", diag: b"", toks: b"\x0akWHILE 0-5 while\x0atIDENTIFIER 6-8 v\xff\x00\x0atSEMI 8-9 ;\x0atIDENTIFIER 10-12 x\xff\x01\x0atSEMI 12-13 ;\x0akBREAK 14-19 break\x0atSEMI 19-20 ;\x0akNEXT 21-25 next\x0atSEMI 25-26 ;\x0akREDO 27-31 redo\x0atSEMI 31-32 ;\x0akEND 33-36 end\x0aEOF 36-36 " },
    Rec { t: b"for v\xffa in x\xffa do y\xffa end", shape: b"(for iterator=(lvasgn name=\x22v\xff\x00\x22) iteratee=(send method_name=\x22x\xff\x01\x22 args=[]) body=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(for iterator=(lvasgn name=\x22v\xff\x00\x22 name=4-6 expression=4-6) iteratee=(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12) body=(send method_name=\x22y\xff\x02\x22 args=[] selector=16-18 expression=16-18) keyword=0-3 operator=7-9 begin=13-15 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atIDENTIFIER 4-6 v\xff\x00\x0akIN 7-9 in\x0atIDENTIFIER 10-12 x\xff\x01\x0akDO_COND 13-15 do\x0atIDENTIFIER 16-18 y\xff\x02\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"for v\xffa in x\xffa; y\xffa; end", shape: b"(for iterator=(lvasgn name=\x22v\xff\x00\x22) iteratee=(send method_name=\x22x\xff\x01\x22 args=[]) body=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(for iterator=(lvasgn name=\x22v\xff\x00\x22 name=4-6 expression=4-6) iteratee=(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12) body=(send method_name=\x22y\xff\x02\x22 args=[] selector=14-16 expression=14-16) keyword=0-3 operator=7-9 begin=12-13 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atIDENTIFIER 4-6 v\xff\x00\x0akIN 7-9 in\x0atIDENTIFIER 10-12 x\xff\x01\x0atSEMI 12-13 ;\x0atIDENTIFIER 14-16 y\xff\x02\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"for v\xffa, x\xffa in y\xffa; z\xffa; end", shape: b"(for iterator=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (lvasgn name=\x22x\xff\x01\x22)]) iteratee=(send method_name=\x22y\xff\x02\x22 args=[]) body=(send method_name=\x22z\xff\x03\x22 args=[]))", full: b"(for iterator=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=4-6 expression=4-6) (lvasgn name=\x22x\xff\x01\x22 name=8-10 expression=8-10)] expression=4-10) iteratee=(send method_name=\x22y\xff\x02\x22 args=[] selector=14-16 expression=14-16) body=(send method_name=\x22z\xff\x03\x22 args=[] selector=18-20 expression=18-20) keyword=0-3 operator=11-13 begin=16-17 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atIDENTIFIER 4-6 v\xff\x00\x0atCOMMA 6-7 ,\x0atIDENTIFIER 8-10 x\xff\x01\x0akIN 11-13 in\x0atIDENTIFIER 14-16 y\xff\x02\x0atSEMI 16-17 ;\x0atIDENTIFIER 18-20 z\xff\x03\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"for v\xffa, (x\xffa, y\xffa) in z\xffa; end", shape: b"(for iterator=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22) (mlhs items=[(lvasgn name=\x22x\xff\x01\x22) (lvasgn name=\x22y\xff\x02\x22)])]) iteratee=(send method_name=\x22z\xff\x03\x22 args=[]))", full: b"(for iterator=(mlhs items=[(lvasgn name=\x22v\xff\x00\x22 name=4-6 expression=4-6) (mlhs items=[(lvasgn name=\x22x\xff\x01\x22 name=9-11 expression=9-11) (lvasgn name=\x22y\xff\x02\x22 name=13-15 expression=13-15)] begin=8-9 end=15-16 expression=8-16)] expression=4-16) iteratee=(send method_name=\x22z\xff\x03\x22 args=[] selector=20-22 expression=20-22) keyword=0-3 operator=17-19 begin=22-23 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atIDENTIFIER 4-6 v\xff\x00\x0atCOMMA 6-7 ,\x0atLPAREN 8-9 (\x0atIDENTIFIER 9-11 x\xff\x01\x0atCOMMA 11-12 ,\x0atIDENTIFIER 13-15 y\xff\x02\x0atRPAREN 15-16 )\x0akIN 17-19 in\x0atIDENTIFIER 20-22 z\xff\x03\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"for *v\xffa in x\xffa; end", shape: b"(for iterator=(mlhs items=[(splat value=(lvasgn name=\x22v\xff\x00\x22))]) iteratee=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(for iterator=(mlhs items=[(splat value=(lvasgn name=\x22v\xff\x00\x22 name=5-7 expression=5-7) operator=4-5 expression=4-7)] expression=4-7) iteratee=(send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13) keyword=0-3 operator=8-10 begin=13-14 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atSTAR 4-5 *\x0atIDENTIFIER 5-7 v\xff\x00\x0akIN 8-10 in\x0atIDENTIFIER 11-13 x\xff\x01\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"for @v\xffa in x\xffa; end", shape: b"(for iterator=(ivasgn name=\x22@v\xff\x00\x22) iteratee=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(for iterator=(ivasgn name=\x22@v\xff\x00\x22 name=4-7 expression=4-7) iteratee=(send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13) keyword=0-3 operator=8-10 begin=13-14 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atIVAR 4-7 @v\xff\x00\x0akIN 8-10 in\x0atIDENTIFIER 11-13 x\xff\x01\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"for v\xffa.x\xffa in y\xffa; end", shape: b"(for iterator=(send recv=(send method_name=\x22v\xff\x00\x22 args=[]) method_name=\x22x\xff\x01=\x22 args=[]) iteratee=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(for iterator=(send recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=4-6 expression=4-6) method_name=\x22x\xff\x01=\x22 args=[] dot=6-7 selector=7-9 expression=4-9) iteratee=(send method_name=\x22y\xff\x02\x22 args=[] selector=13-15 expression=13-15) keyword=0-3 operator=10-12 begin=15-16 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atIDENTIFIER 4-6 v\xff\x00\x0atDOT 6-7 .\x0atIDENTIFIER 7-9 x\xff\x01\x0akIN 10-12 in\x0atIDENTIFIER 13-15 y\xff\x02\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"for v\xffa[x\xffa] in y\xffa; end", shape: b"(for iterator=(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[]) indexes=[(send method_name=\x22x\xff\x01\x22 args=[])]) iteratee=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(for iterator=(index_asgn recv=(send method_name=\x22v\xff\x00\x22 args=[] selector=4-6 expression=4-6) indexes=[(send method_name=\x22x\xff\x01\x22 args=[] selector=7-9 expression=7-9)] begin=6-7 end=9-10 expression=4-10) iteratee=(send method_name=\x22y\xff\x02\x22 args=[] selector=14-16 expression=14-16) keyword=0-3 operator=11-13 begin=16-17 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akFOR 0-3 for\x0atIDENTIFIER 4-6 v\xff\x00\x0atLBRACK2 6-7 [\x0atIDENTIFIER 7-9 x\xff\x01\x0atRBRACK 9-10 ]\x0akIN 11-13 in\x0atIDENTIFIER 14-16 y\xff\x02\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"case v\xffa; when x\xffa; y\xffa; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(send method_name=\x22x\xff\x01\x22 args=[])] body=(send method_name=\x22y\xff\x02\x22 args=[]))])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(send method_name=\x22x\xff\x01\x22 args=[] selector=14-16 expression=14-16)] body=(send method_name=\x22y\xff\x02\x22 args=[] selector=18-20 expression=18-20) keyword=9-13 begin=16-17 expression=9-20)] keyword=0-4 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atIDENTIFIER 14-16 x\xff\x01\x0atSEMI 16-17 ;\x0atIDENTIFIER 18-20 y\xff\x02\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"case v\xffa; when x\xffa, y\xffa then z\xffa; else q\xffa; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(send method_name=\x22x\xff\x01\x22 args=[]) (send method_name=\x22y\xff\x02\x22 args=[])] body=(send method_name=\x22z\xff\x03\x22 args=[]))] else_body=(send method_name=\x22q\xff\x04\x22 args=[]))", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(send method_name=\x22x\xff\x01\x22 args=[] selector=14-16 expression=14-16) (send method_name=\x22y\xff\x02\x22 args=[] selector=18-20 expression=18-20)] body=(send method_name=\x22z\xff\x03\x22 args=[] selector=26-28 expression=26-28) keyword=9-13 begin=21-25 expression=9-28)] else_body=(send method_name=\x22q\xff\x04\x22 args=[] selector=35-37 expression=35-37) keyword=0-4 else=30-34 end=39-42 expression=0-42)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atIDENTIFIER 14-16 x\xff\x01\x0atCOMMA 16-17 ,\x0atIDENTIFIER 18-20 y\xff\x02\x0akTHEN 21-25 then\x0atIDENTIFIER 26-28 z\xff\x03\x0atSEMI 28-29 ;\x0akELSE 30-34 else\x0atIDENTIFIER 35-37 q\xff\x04\x0atSEMI 37-38 ;\x0akEND 39-42 end\x0aEOF 42-42 " },
    Rec { t: b"case v\xffa; when *x\xffa; y\xffa; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[]))] body=(send method_name=\x22y\xff\x02\x22 args=[]))])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(splat value=(send method_name=\x22x\xff\x01\x22 args=[] selector=15-17 expression=15-17) operator=14-15 expression=14-17)] body=(send method_name=\x22y\xff\x02\x22 args=[] selector=19-21 expression=19-21) keyword=9-13 begin=17-18 expression=9-21)] keyword=0-4 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atSTAR 14-15 *\x0atIDENTIFIER 15-17 x\xff\x01\x0atSEMI 17-18 ;\x0atIDENTIFIER 19-21 y\xff\x02\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"case v\xffa; when x\xffa, *y\xffa; z\xffa; end", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(send method_name=\x22x\xff\x01\x22 args=[]) (splat value=(send method_name=\x22y\xff\x02\x22 args=[]))] body=(send method_name=\x22z\xff\x03\x22 args=[]))])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(send method_name=\x22x\xff\x01\x22 args=[] selector=14-16 expression=14-16) (splat value=(send method_name=\x22y\xff\x02\x22 args=[] selector=19-21 expression=19-21) operator=18-19 expression=18-21)] body=(send method_name=\x22z\xff\x03\x22 args=[] selector=23-25 expression=23-25) keyword=9-13 begin=21-22 expression=9-25)] keyword=0-4 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akWHEN 9-13 when\x0atIDENTIFIER 14-16 x\xff\x01\x0atCOMMA 16-17 ,\x0atSTAR 18-19 *\x0atIDENTIFIER 19-21 y\xff\x02\x0atSEMI 21-22 ;\x0atIDENTIFIER 23-25 z\xff\x03\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"case; when v\xffa; x\xffa; end", shape: b"(case when_bodies=[(when patterns=[(send method_name=\x22v\xff\x00\x22 args=[])] body=(send method_name=\x22x\xff\x01\x22 args=[]))])", full: b"(case when_bodies=[(when patterns=[(send method_name=\x22v\xff\x00\x22 args=[] selector=11-13 expression=11-13)] body=(send method_name=\x22x\xff\x01\x22 args=[] selector=15-17 expression=15-17) keyword=6-10 begin=13-14 expression=6-17)] keyword=0-4 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atSEMI 4-5 ;\x0akWHEN 6-10 when\x0atIDENTIFIER 11-13 v\xff\x00\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 x\xff\x01\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"case\x0awhen v\xffa then x\xffa\x0awhen y\xffa then z\xffa\x0aend", shape: b"(case when_bodies=[(when patterns=[(send method_name=\x22v\xff\x00\x22 args=[])] body=(send method_name=\x22x\xff\x01\x22 args=[])) (when patterns=[(send method_name=\x22y\xff\x02\x22 args=[])] body=(send method_name=\x22z\xff\x03\x22 args=[]))])", full: b"(case when_bodies=[(when patterns=[(send method_name=\x22v\xff\x00\x22 args=[] selector=10-12 expression=10-12)] body=(send method_name=\x22x\xff\x01\x22 args=[] selector=18-20 expression=18-20) keyword=5-9 begin=13-17 expression=5-20) (when patterns=[(send method_name=\x22y\xff\x02\x22 args=[] selector=26-28 expression=26-28)] body=(send method_name=\x22z\xff\x03\x22 args=[] selector=34-36 expression=34-36) keyword=21-25 begin=29-33 expression=21-36)] keyword=0-4 end=37-40 expression=0-40)", diag: b"", toks: b"\x0akCASE 0-4 case\x0akWHEN 5-9 when\x0atIDENTIFIER 10-12 v\xff\x00\x0akTHEN 13-17 then\x0atIDENTIFIER 18-20 x\xff\x01\x0atNL 20-21 \x0a\x0akWHEN 21-25 when\x0atIDENTIFIER 26-28 y\xff\x02\x0akTHEN 29-33 then\x0atIDENTIFIER 34-36 z\xff\x03\x0atNL 36-37 \x0a\x0akEND 37-40 end\x0aEOF 40-40 " },
    Rec { t: b"case v\xffa\x0awhen x\xffa\x0aelse\x0aend", shape: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[]) when_bodies=[(when patterns=[(send method_name=\x22x\xff\x01\x22 args=[])])])", full: b"(case expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) when_bodies=[(when patterns=[(send method_name=\x22x\xff\x01\x22 args=[] selector=13-15 expression=13-15)] keyword=8-12 begin=15-16 expression=8-15)] keyword=0-4 else=16-20 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atNL 7-8 \x0a\x0akWHEN 8-12 when\x0atIDENTIFIER 13-15 x\xff\x01\x0atNL 15-16 \x0a\x0akELSE 16-20 else\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"BEGIN { v\xffa; x\xffa }", shape: b"(preexe body=(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[]) (send method_name=\x22x\xff\x01\x22 args=[])]))", full: b"(preexe body=(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=8-10 expression=8-10) (send method_name=\x22x\xff\x01\x22 args=[] selector=12-14 expression=12-14)] expression=8-14) keyword=0-5 begin=6-7 end=15-16 expression=0-16)", diag: b"", toks: b"\x0aklBEGIN 0-5 BEGIN\x0atLCURLY 6-7 {\x0atIDENTIFIER 8-10 v\xff\x00\x0atSEMI 10-11 ;\x0atIDENTIFIER 12-14 x\xff\x01\x0atRCURLY 15-16 }\x0aEOF 16-16 " },
    Rec { t: b"BEGIN {}", shape: b"(preexe)", full: b"(preexe keyword=0-5 begin=6-7 end=7-8 expression=0-8)", diag: b"", toks: b"\x0aklBEGIN 0-5 BEGIN\x0atLCURLY 6-7 {\x0atRCURLY 7-8 }\x0aEOF 8-8 " },
    Rec { t: b"class V\xffb < X\xffb; y\xffa; end", shape: b"(class name=(const name=\x22V\xff\x00\x22) superclass=(const name=\x22X\xff\x01\x22) body=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(class name=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) superclass=(const name=\x22X\xff\x01\x22 name=11-13 expression=11-13) body=(send method_name=\x22y\xff\x02\x22 args=[] selector=15-17 expression=15-17) keyword=0-5 operator=9-10 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atLT 9-10 <\x0atCONSTANT 11-13 X\xff\x01\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 y\xff\x02\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"class V\xffb::X\xffb; end", shape: b"(class name=(const scope=(const name=\x22V\xff\x00\x22) name=\x22X\xff\x01\x22))", full: b"(class name=(const scope=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) name=\x22X\xff\x01\x22 double_colon=8-10 name=10-12 expression=6-12) keyword=0-5 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atCOLON2 8-10 ::\x0atCONSTANT 10-12 X\xff\x01\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"class v\xffa::X\xffb; end", shape: b"(class name=(const scope=(send method_name=\x22v\xff\x00\x22 args=[]) name=\x22X\xff\x01\x22))", full: b"(class name=(const scope=(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) name=\x22X\xff\x01\x22 double_colon=8-10 name=10-12 expression=6-12) keyword=0-5 end=14-17 expression=0-17)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atIDENTIFIER 6-8 v\xff\x00\x0atCOLON2 8-10 ::\x0atCONSTANT 10-12 X\xff\x01\x0atSEMI 12-13 ;\x0akEND 14-17 end\x0aEOF 17-17 " },
    Rec { t: b"class << v\xffa; x\xffa; end", shape: b"(s_class expr=(send method_name=\x22v\xff\x00\x22 args=[]) body=(send method_name=\x22x\xff\x01\x22 args=[]))", full: b"(s_class expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=9-11 expression=9-11) body=(send method_name=\x22x\xff\x01\x22 args=[] selector=13-15 expression=13-15) keyword=0-5 operator=6-8 end=17-20 expression=0-20)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atLSHFT 6-8 <<\x0atIDENTIFIER 9-11 v\xff\x00\x0atSEMI 11-12 ;\x0atIDENTIFIER 13-15 x\xff\x01\x0atSEMI 15-16 ;\x0akEND 17-20 end\x0aEOF 20-20 " },
    Rec { t: b"class << self; def x\xffa; end; end", shape: b"(s_class expr=(self_) body=(def name=\x22x\xff\x00\x22))", full: b"(s_class expr=(self_ expression=9-13) body=(def name=\x22x\xff\x00\x22 keyword=15-18 name=19-21 end=23-26 expression=15-26) keyword=0-5 operator=6-8 end=28-31 expression=0-31)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atLSHFT 6-8 <<\x0akSELF 9-13 self\x0atSEMI 13-14 ;\x0akDEF 15-18 def\x0atIDENTIFIER 19-21 x\xff\x00\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0atSEMI 26-27 ;\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"class V\xffb; x\xffa; rescue; y\xffa; end", shape: b"(class name=(const name=\x22V\xff\x00\x22) body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[]) rescue_bodies=[(rescue_body body=(send method_name=\x22y\xff\x02\x22 args=[]))]))", full: b"(class name=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) body=(rescue body=(send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12) rescue_bodies=[(rescue_body body=(send method_name=\x22y\xff\x02\x22 args=[] selector=22-24 expression=22-24) keyword=14-20 begin=20-21 expression=14-24)] expression=10-24) keyword=0-5 end=26-29 expression=0-29)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atSEMI 8-9 ;\x0atIDENTIFIER 10-12 x\xff\x01\x0atSEMI 12-13 ;\x0akRESCUE 14-20 rescue\x0atSEMI 20-21 ;\x0atIDENTIFIER 22-24 y\xff\x02\x0atSEMI 24-25 ;\x0akEND 26-29 end\x0aEOF 29-29 " },
    Rec { t: b"class V\xffb < Struct.new(:x\xffa); end", shape: b"(class name=(const name=\x22V\xff\x00\x22) superclass=(send recv=(const name=\x22Struct\x22) method_name=\x22new\x22 args=[(sym name=\x22x\xff\x01\x22)]))", full: b"(class name=(const name=\x22V\xff\x00\x22 name=6-8 expression=6-8) superclass=(send recv=(const name=\x22Struct\x22 name=11-17 expression=11-17) method_name=\x22new\x22 args=[(sym name=\x22x\xff\x01\x22 begin=22-23 expression=22-25)] dot=17-18 selector=18-21 begin=21-22 end=25-26 expression=11-26) keyword=0-5 operator=9-10 end=28-31 expression=0-31)", diag: b"", toks: b"\x0akCLASS 0-5 class\x0atCONSTANT 6-8 V\xff\x00\x0atLT 9-10 <\x0atCONSTANT 11-17 Struct\x0atDOT 17-18 .\x0atIDENTIFIER 18-21 new\x0atLPAREN2 21-22 (\x0atSYMBEG 22-23 :\x0atIDENTIFIER 23-25 x\xff\x01\x0atRPAREN 25-26 )\x0atSEMI 26-27 ;\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"module V\xffb::X\xffb; y\xffa; end", shape: b"(module name=(const scope=(const name=\x22V\xff\x00\x22) name=\x22X\xff\x01\x22) body=(send method_name=\x22y\xff\x02\x22 args=[]))", full: b"(module name=(const scope=(const name=\x22V\xff\x00\x22 name=7-9 expression=7-9) name=\x22X\xff\x01\x22 double_colon=9-11 name=11-13 expression=7-13) body=(send method_name=\x22y\xff\x02\x22 args=[] selector=15-17 expression=15-17) keyword=0-6 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akMODULE 0-6 module\x0atCONSTANT 7-9 V\xff\x00\x0atCOLON2 9-11 ::\x0atCONSTANT 11-13 X\xff\x01\x0atSEMI 13-14 ;\x0atIDENTIFIER 15-17 y\xff\x02\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"module V\xffb; x\xffa; ensure; y\xffa; end", shape: b"(module name=(const name=\x22V\xff\x00\x22) body=(ensure body=(send method_name=\x22x\xff\x01\x22 args=[]) ensure=(send method_name=\x22y\xff\x02\x22 args=[])))", full: b"(module name=(const name=\x22V\xff\x00\x22 name=7-9 expression=7-9) body=(ensure body=(send method_name=\x22x\xff\x01\x22 args=[] selector=11-13 expression=11-13) ensure=(send method_name=\x22y\xff\x02\x22 args=[] selector=23-25 expression=23-25) keyword=15-21 expression=11-25) keyword=0-6 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akMODULE 0-6 module\x0atCONSTANT 7-9 V\xff\x00\x0atSEMI 9-10 ;\x0atIDENTIFIER 11-13 x\xff\x01\x0atSEMI 13-14 ;\x0akENSURE 15-21 ensure\x0atSEMI 21-22 ;\x0atIDENTIFIER 23-25 y\xff\x02\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"(v\xffa\x0ax\xffa)", shape: b"(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[]) (send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3) (send method_name=\x22x\xff\x01\x22 args=[] selector=4-6 expression=4-6)] begin=0-1 end=6-7 expression=0-7)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atIDENTIFIER 1-3 v\xff\x00\x0atNL 3-4 \x0a\x0atIDENTIFIER 4-6 x\xff\x01\x0atRPAREN 6-7 )\x0aEOF 7-7 " },
    Rec { t: b"(;)", shape: b"(begin statements=[])", full: b"(begin statements=[] begin=0-1 end=2-3 expression=0-3)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atSEMI 1-2 ;\x0atRPAREN 2-3 )\x0aEOF 3-3 " },
    Rec { t: b"(v\xffa;)", shape: b"(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])])", full: b"(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3)] begin=0-1 end=4-5 expression=0-5)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atIDENTIFIER 1-3 v\xff\x00\x0atSEMI 3-4 ;\x0atRPAREN 4-5 )\x0aEOF 5-5 " },
    Rec { t: b"(\x0av\xffa\x0a)", shape: b"(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[])])", full: b"(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=2-4 expression=2-4)] begin=0-1 end=5-6 expression=0-6)", diag: b"", toks: b"\x0atLPAREN 0-1 (\x0atIDENTIFIER 2-4 v\xff\x00\x0atNL 4-5 \x0a\x0atRPAREN 5-6 )\x0aEOF 6-6 " },
    Rec { t: b"v\xffa;; x\xffa", shape: b"(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[]) (send method_name=\x22x\xff\x01\x22 args=[])])", full: b"(begin statements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) (send method_name=\x22x\xff\x01\x22 args=[] selector=5-7 expression=5-7)] expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atSEMI 2-3 ;\x0atSEMI 3-4 ;\x0atIDENTIFIER 5-7 x\xff\x01\x0aEOF 7-7 " },
    Rec { t: b";v\xffa", shape: b"(send method_name=\x22v\xff\x00\x22 args=[])", full: b"(send method_name=\x22v\xff\x00\x22 args=[] selector=1-3 expression=1-3)", diag: b"", toks: b"\x0atSEMI 0-1 ;\x0atIDENTIFIER 1-3 v\xff\x00\x0aEOF 3-3 " },
];
pub static PATTERN2: &[Rec] = &[
    Rec { t: b"case v\xffa; in x\xffa, y\xffa, z\xffa,; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern_with_tail elements=[(match_var name=\x22x\xff\x01\x22) (match_var name=\x22y\xff\x02\x22) (match_var name=\x22z\xff\x03\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern_with_tail elements=[(match_var name=\x22x\xff\x01\x22 name=12-14 expression=12-14) (match_var name=\x22y\xff\x02\x22 name=16-18 expression=16-18) (match_var name=\x22z\xff\x03\x22 name=20-22 expression=20-22)] expression=12-23) keyword=9-11 begin=23-24 expression=9-23)] keyword=0-4 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atIDENTIFIER 12-14 x\xff\x01\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-18 y\xff\x02\x0atCOMMA 18-19 ,\x0atIDENTIFIER 20-22 z\xff\x03\x0atCOMMA 22-23 ,\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"case v\xffa; in %W[x\xffa]; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array elements=[(str value=\x22x\xff\x01\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array elements=[(str value=\x22x\xff\x01\x22 expression=15-17)] begin=12-15 end=17-18 expression=12-18) keyword=9-11 begin=18-19 expression=9-18)] keyword=0-4 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atWORDS_BEG 12-15 %W[\x0atSPACE 15-15 \x0atSTRING_CONTENT 15-17 x\xff\x01\x0atSPACE 17-17 \x0atSTRING_END 17-18 ]\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"case v\xffa; in %I[x\xffa]; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array elements=[(sym name=\x22x\xff\x01\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array elements=[(sym name=\x22x\xff\x01\x22 expression=15-17)] begin=12-15 end=17-18 expression=12-18) keyword=9-11 begin=18-19 expression=9-18)] keyword=0-4 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atSYMBOLS_BEG 12-15 %I[\x0atSPACE 15-15 \x0atSTRING_CONTENT 15-17 x\xff\x01\x0atSPACE 17-17 \x0atSTRING_END 17-18 ]\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"case v\xffa; in {x\xffa:, **}; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22) (match_rest)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=13-15 expression=13-16) (match_rest operator=18-20 expression=18-20)] begin=12-13 end=20-21 expression=12-21) keyword=9-11 begin=21-22 expression=9-21)] keyword=0-4 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACE 12-13 {\x0atLABEL 13-16 x\xff\x01\x0atCOMMA 16-17 ,\x0atDSTAR 18-20 **\x0atRCURLY 20-21 }\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"case v\xffa; in x\xffa:, **; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22) (match_rest)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=12-14 expression=12-15) (match_rest operator=17-19 expression=17-19)] expression=12-19) keyword=9-11 begin=19-20 expression=9-19)] keyword=0-4 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLABEL 12-15 x\xff\x01\x0atCOMMA 15-16 ,\x0atDSTAR 17-19 **\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"case v\xffa; in **; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_rest)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_rest operator=12-14 expression=12-14)] expression=12-14) keyword=9-11 begin=14-15 expression=9-14)] keyword=0-4 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atDSTAR 12-14 **\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"case v\xffa; in {\x22x\xffa\x22: \xffd, **nil}; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22) value=(int value=\x22\xff\x02\x22)) (match_nil_pattern)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22 begin=13-14 end=16-17 expression=13-17) value=(int value=\x22\xff\x02\x22 expression=19-20) operator=17-18 expression=13-20) (match_nil_pattern operator=22-24 name=24-27 expression=22-27)] begin=12-13 end=27-28 expression=12-28) keyword=9-11 begin=28-29 expression=9-28)] keyword=0-4 end=30-33 expression=0-33)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACE 12-13 {\x0atSTRING_BEG 13-14 \x22\x0atSTRING_CONTENT 14-16 x\xff\x01\x0atLABEL_END 16-18 \x22:\x0atINTEGER 19-20 \xff\x02\x0atCOMMA 20-21 ,\x0atDSTAR 22-24 **\x0akNIL 24-27 nil\x0atRCURLY 27-28 }\x0atSEMI 28-29 ;\x0akEND 30-33 end\x0aEOF 33-33 " },
    Rec { t: b"case v\xffa; in V\xffb(x\xffa, y\xffa, z\xffa); end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x02\x22) (match_var name=\x22y\xff\x03\x22) (match_var name=\x22z\xff\x04\x22)])))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22 name=12-14 expression=12-14) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x02\x22 name=15-17 expression=15-17) (match_var name=\x22y\xff\x03\x22 name=19-21 expression=19-21) (match_var name=\x22z\xff\x04\x22 name=23-25 expression=23-25)] expression=15-25) begin=14-15 end=25-26 expression=12-26) keyword=9-11 begin=26-27 expression=9-26)] keyword=0-4 end=28-31 expression=0-31)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atCONSTANT 12-14 V\xff\x01\x0atLPAREN2 14-15 (\x0atIDENTIFIER 15-17 x\xff\x02\x0atCOMMA 17-18 ,\x0atIDENTIFIER 19-21 y\xff\x03\x0atCOMMA 21-22 ,\x0atIDENTIFIER 23-25 z\xff\x04\x0atRPAREN 25-26 )\x0atSEMI 26-27 ;\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"case v\xffa; in V\xffb(x\xffa,); end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22) pattern=(array_pattern_with_tail elements=[(match_var name=\x22x\xff\x02\x22)])))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22 name=12-14 expression=12-14) pattern=(array_pattern_with_tail elements=[(match_var name=\x22x\xff\x02\x22 name=15-17 expression=15-17)] expression=15-18) begin=14-15 end=18-19 expression=12-19) keyword=9-11 begin=19-20 expression=9-19)] keyword=0-4 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atCONSTANT 12-14 V\xff\x01\x0atLPAREN2 14-15 (\x0atIDENTIFIER 15-17 x\xff\x02\x0atCOMMA 17-18 ,\x0atRPAREN 18-19 )\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"case v\xffa; in [x\xffa, [y\xffa, z\xffa]]; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22) (array_pattern elements=[(match_var name=\x22y\xff\x02\x22) (match_var name=\x22z\xff\x03\x22)])]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=13-15 expression=13-15) (array_pattern elements=[(match_var name=\x22y\xff\x02\x22 name=18-20 expression=18-20) (match_var name=\x22z\xff\x03\x22 name=22-24 expression=22-24)] begin=17-18 end=24-25 expression=17-25)] begin=12-13 end=25-26 expression=12-26) keyword=9-11 begin=26-27 expression=9-26)] keyword=0-4 end=28-31 expression=0-31)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACK 12-13 [\x0atIDENTIFIER 13-15 x\xff\x01\x0atCOMMA 15-16 ,\x0atLBRACK 17-18 [\x0atIDENTIFIER 18-20 y\xff\x02\x0atCOMMA 20-21 ,\x0atIDENTIFIER 22-24 z\xff\x03\x0atRBRACK 24-25 ]\x0atRBRACK 25-26 ]\x0atSEMI 26-27 ;\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"case v\xffa; in {x\xffa: {y\xffa:}}; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22) value=(hash_pattern elements=[(match_var name=\x22y\xff\x02\x22)]))]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22 expression=13-15) value=(hash_pattern elements=[(match_var name=\x22y\xff\x02\x22 name=18-20 expression=18-21)] begin=17-18 end=21-22 expression=17-22) operator=15-16 expression=13-22)] begin=12-13 end=22-23 expression=12-23) keyword=9-11 begin=23-24 expression=9-23)] keyword=0-4 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACE 12-13 {\x0atLABEL 13-16 x\xff\x01\x0atLBRACE 17-18 {\x0atLABEL 18-21 y\xff\x02\x0atRCURLY 21-22 }\x0atRCURLY 22-23 }\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"case v\xffa; in {x\xffa: [y\xffa, *]}; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22) value=(array_pattern elements=[(match_var name=\x22y\xff\x02\x22) (match_rest)]))]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22 expression=13-15) value=(array_pattern elements=[(match_var name=\x22y\xff\x02\x22 name=18-20 expression=18-20) (match_rest operator=22-23 expression=22-23)] begin=17-18 end=23-24 expression=17-24) operator=15-16 expression=13-24)] begin=12-13 end=24-25 expression=12-25) keyword=9-11 begin=25-26 expression=9-25)] keyword=0-4 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACE 12-13 {\x0atLABEL 13-16 x\xff\x01\x0atLBRACK 17-18 [\x0atIDENTIFIER 18-20 y\xff\x02\x0atCOMMA 20-21 ,\x0atSTAR 22-23 *\x0atRBRACK 23-24 ]\x0atRCURLY 24-25 }\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"case v\xffa; in x\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(match_var name=\x22x\xff\x01\x22))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(match_var name=\x22x\xff\x01\x22 name=12-14 expression=12-14) keyword=9-11 begin=14-15 expression=9-14)] keyword=0-4 end=16-19 expression=0-19)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atIDENTIFIER 12-14 x\xff\x01\x0atSEMI 14-15 ;\x0akEND 16-19 end\x0aEOF 19-19 " },
    Rec { t: b"case v\xffa; in x\xffa if y\xffa; z\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(match_var name=\x22x\xff\x01\x22) guard=(if_guard cond=(send method_name=\x22y\xff\x02\x22 args=[])) body=(send method_name=\x22z\xff\x03\x22 args=[]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(match_var name=\x22x\xff\x01\x22 name=12-14 expression=12-14) guard=(if_guard cond=(send method_name=\x22y\xff\x02\x22 args=[] selector=18-20 expression=18-20) keyword=15-17 expression=15-20) body=(send method_name=\x22z\xff\x03\x22 args=[] selector=22-24 expression=22-24) keyword=9-11 begin=20-21 expression=9-24)] keyword=0-4 end=26-29 expression=0-29)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atIDENTIFIER 12-14 x\xff\x01\x0akIF_MOD 15-17 if\x0atIDENTIFIER 18-20 y\xff\x02\x0atSEMI 20-21 ;\x0atIDENTIFIER 22-24 z\xff\x03\x0atSEMI 24-25 ;\x0akEND 26-29 end\x0aEOF 29-29 " },
    Rec { t: b"case v\xffa; in x\xffa unless y\xffa; z\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(match_var name=\x22x\xff\x01\x22) guard=(unless_guard cond=(send method_name=\x22y\xff\x02\x22 args=[])) body=(send method_name=\x22z\xff\x03\x22 args=[]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(match_var name=\x22x\xff\x01\x22 name=12-14 expression=12-14) guard=(unless_guard cond=(send method_name=\x22y\xff\x02\x22 args=[] selector=22-24 expression=22-24) keyword=15-21 expression=15-24) body=(send method_name=\x22z\xff\x03\x22 args=[] selector=26-28 expression=26-28) keyword=9-11 begin=24-25 expression=9-28)] keyword=0-4 end=30-33 expression=0-33)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atIDENTIFIER 12-14 x\xff\x01\x0akUNLESS_MOD 15-21 unless\x0atIDENTIFIER 22-24 y\xff\x02\x0atSEMI 24-25 ;\x0atIDENTIFIER 26-28 z\xff\x03\x0atSEMI 28-29 ;\x0akEND 30-33 end\x0aEOF 33-33 " },
    Rec { t: b"case v\xffa; in \xffd then x\xffa; else y\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22) body=(send method_name=\x22x\xff\x02\x22 args=[]))] else_body=(send method_name=\x22y\xff\x03\x22 args=[]))", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(int value=\x22\xff\x01\x22 expression=12-13) body=(send method_name=\x22x\xff\x02\x22 args=[] selector=19-21 expression=19-21) keyword=9-11 begin=14-18 expression=9-21)] else_body=(send method_name=\x22y\xff\x03\x22 args=[] selector=28-30 expression=28-30) keyword=0-4 else=23-27 end=32-35 expression=0-35)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atINTEGER 12-13 \xff\x01\x0akTHEN 14-18 then\x0atIDENTIFIER 19-21 x\xff\x02\x0atSEMI 21-22 ;\x0akELSE 23-27 else\x0atIDENTIFIER 28-30 y\xff\x03\x0atSEMI 30-31 ;\x0akEND 32-35 end\x0aEOF 35-35 " },
    Rec { t: b"case v\xffa; in x\xffa, y\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22) (match_var name=\x22y\xff\x02\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=12-14 expression=12-14) (match_var name=\x22y\xff\x02\x22 name=16-18 expression=16-18)] expression=12-18) keyword=9-11 begin=18-19 expression=9-18)] keyword=0-4 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atIDENTIFIER 12-14 x\xff\x01\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-18 y\xff\x02\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"case v\xffa; in x\xffa, y\xffa,; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern_with_tail elements=[(match_var name=\x22x\xff\x01\x22) (match_var name=\x22y\xff\x02\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern_with_tail elements=[(match_var name=\x22x\xff\x01\x22 name=12-14 expression=12-14) (match_var name=\x22y\xff\x02\x22 name=16-18 expression=16-18)] expression=12-19) keyword=9-11 begin=19-20 expression=9-19)] keyword=0-4 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atIDENTIFIER 12-14 x\xff\x01\x0atCOMMA 14-15 ,\x0atIDENTIFIER 16-18 y\xff\x02\x0atCOMMA 18-19 ,\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"case v\xffa; in x\xffa, *y\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22) (match_rest name=(match_var name=\x22y\xff\x02\x22))]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=12-14 expression=12-14) (match_rest name=(match_var name=\x22y\xff\x02\x22 name=17-19 expression=17-19) operator=16-17 expression=16-19)] expression=12-19) keyword=9-11 begin=19-20 expression=9-19)] keyword=0-4 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atIDENTIFIER 12-14 x\xff\x01\x0atCOMMA 14-15 ,\x0atSTAR 16-17 *\x0atIDENTIFIER 17-19 y\xff\x02\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"case v\xffa; in x\xffa, *; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22) (match_rest)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=12-14 expression=12-14) (match_rest operator=16-17 expression=16-17)] expression=12-17) keyword=9-11 begin=17-18 expression=9-17)] keyword=0-4 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atIDENTIFIER 12-14 x\xff\x01\x0atCOMMA 14-15 ,\x0atSTAR 16-17 *\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"case v\xffa; in *x\xffa, y\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_rest name=(match_var name=\x22x\xff\x01\x22)) (match_var name=\x22y\xff\x02\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_rest name=(match_var name=\x22x\xff\x01\x22 name=13-15 expression=13-15) operator=12-13 expression=12-15) (match_var name=\x22y\xff\x02\x22 name=17-19 expression=17-19)] expression=12-19) keyword=9-11 begin=19-20 expression=9-19)] keyword=0-4 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atSTAR 12-13 *\x0atIDENTIFIER 13-15 x\xff\x01\x0atCOMMA 15-16 ,\x0atIDENTIFIER 17-19 y\xff\x02\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"case v\xffa; in *x\xffa, y\xffa, z\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_rest name=(match_var name=\x22x\xff\x01\x22)) (match_var name=\x22y\xff\x02\x22) (match_var name=\x22z\xff\x03\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_rest name=(match_var name=\x22x\xff\x01\x22 name=13-15 expression=13-15) operator=12-13 expression=12-15) (match_var name=\x22y\xff\x02\x22 name=17-19 expression=17-19) (match_var name=\x22z\xff\x03\x22 name=21-23 expression=21-23)] expression=12-23) keyword=9-11 begin=23-24 expression=9-23)] keyword=0-4 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atSTAR 12-13 *\x0atIDENTIFIER 13-15 x\xff\x01\x0atCOMMA 15-16 ,\x0atIDENTIFIER 17-19 y\xff\x02\x0atCOMMA 19-20 ,\x0atIDENTIFIER 21-23 z\xff\x03\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"case v\xffa; in x\xffa, *y\xffa, z\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22) (match_rest name=(match_var name=\x22y\xff\x02\x22)) (match_var name=\x22z\xff\x03\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=12-14 expression=12-14) (match_rest name=(match_var name=\x22y\xff\x02\x22 name=17-19 expression=17-19) operator=16-17 expression=16-19) (match_var name=\x22z\xff\x03\x22 name=21-23 expression=21-23)] expression=12-23) keyword=9-11 begin=23-24 expression=9-23)] keyword=0-4 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atIDENTIFIER 12-14 x\xff\x01\x0atCOMMA 14-15 ,\x0atSTAR 16-17 *\x0atIDENTIFIER 17-19 y\xff\x02\x0atCOMMA 19-20 ,\x0atIDENTIFIER 21-23 z\xff\x03\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"case v\xffa; in *; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_rest)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_rest operator=12-13 expression=12-13)] expression=12-13) keyword=9-11 begin=13-14 expression=9-13)] keyword=0-4 end=15-18 expression=0-18)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atSTAR 12-13 *\x0atSEMI 13-14 ;\x0akEND 15-18 end\x0aEOF 18-18 " },
    Rec { t: b"case v\xffa; in [x\xffa, y\xffa]; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22) (match_var name=\x22y\xff\x02\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=13-15 expression=13-15) (match_var name=\x22y\xff\x02\x22 name=17-19 expression=17-19)] begin=12-13 end=19-20 expression=12-20) keyword=9-11 begin=20-21 expression=9-20)] keyword=0-4 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACK 12-13 [\x0atIDENTIFIER 13-15 x\xff\x01\x0atCOMMA 15-16 ,\x0atIDENTIFIER 17-19 y\xff\x02\x0atRBRACK 19-20 ]\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"case v\xffa; in [*x\xffa, y\xffa, z\xffa, *q\xffa]; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(find_pattern elements=[(match_rest name=(match_var name=\x22x\xff\x01\x22)) (match_var name=\x22y\xff\x02\x22) (match_var name=\x22z\xff\x03\x22) (match_rest name=(match_var name=\x22q\xff\x04\x22))]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(find_pattern elements=[(match_rest name=(match_var name=\x22x\xff\x01\x22 name=14-16 expression=14-16) operator=13-14 expression=13-16) (match_var name=\x22y\xff\x02\x22 name=18-20 expression=18-20) (match_var name=\x22z\xff\x03\x22 name=22-24 expression=22-24) (match_rest name=(match_var name=\x22q\xff\x04\x22 name=27-29 expression=27-29) operator=26-27 expression=26-29)] begin=12-13 end=29-30 expression=12-30) keyword=9-11 begin=30-31 expression=9-30)] keyword=0-4 end=32-35 expression=0-35)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACK 12-13 [\x0atSTAR 13-14 *\x0atIDENTIFIER 14-16 x\xff\x01\x0atCOMMA 16-17 ,\x0atIDENTIFIER 18-20 y\xff\x02\x0atCOMMA 20-21 ,\x0atIDENTIFIER 22-24 z\xff\x03\x0atCOMMA 24-25 ,\x0atSTAR 26-27 *\x0atIDENTIFIER 27-29 q\xff\x04\x0atRBRACK 29-30 ]\x0atSEMI 30-31 ;\x0akEND 32-35 end\x0aEOF 35-35 " },
    Rec { t: b"case v\xffa; in *, x\xffa, *; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(find_pattern elements=[(match_rest) (match_var name=\x22x\xff\x01\x22) (match_rest)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(find_pattern elements=[(match_rest operator=12-13 expression=12-13) (match_var name=\x22x\xff\x01\x22 name=15-17 expression=15-17) (match_rest operator=19-20 expression=19-20)] expression=12-20) keyword=9-11 begin=20-21 expression=9-20)] keyword=0-4 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atSTAR 12-13 *\x0atCOMMA 13-14 ,\x0atIDENTIFIER 15-17 x\xff\x01\x0atCOMMA 17-18 ,\x0atSTAR 19-20 *\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"case v\xffa; in V\xffb(x\xffa, *y\xffa); end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x02\x22) (match_rest name=(match_var name=\x22y\xff\x03\x22))])))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22 name=12-14 expression=12-14) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x02\x22 name=15-17 expression=15-17) (match_rest name=(match_var name=\x22y\xff\x03\x22 name=20-22 expression=20-22) operator=19-20 expression=19-22)] expression=15-22) begin=14-15 end=22-23 expression=12-23) keyword=9-11 begin=23-24 expression=9-23)] keyword=0-4 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atCONSTANT 12-14 V\xff\x01\x0atLPAREN2 14-15 (\x0atIDENTIFIER 15-17 x\xff\x02\x0atCOMMA 17-18 ,\x0atSTAR 19-20 *\x0atIDENTIFIER 20-22 y\xff\x03\x0atRPAREN 22-23 )\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"case v\xffa; in V\xffb(x\xffa: y\xffa, **z\xffa); end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22) pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x02\x22) value=(match_var name=\x22y\xff\x03\x22)) (match_rest name=(match_var name=\x22z\xff\x04\x22))])))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22 name=12-14 expression=12-14) pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x02\x22 expression=15-17) value=(match_var name=\x22y\xff\x03\x22 name=19-21 expression=19-21) operator=17-18 expression=15-21) (match_rest name=(match_var name=\x22z\xff\x04\x22 name=25-27 expression=25-27) operator=23-25 expression=23-27)] expression=15-27) begin=14-15 end=27-28 expression=12-28) keyword=9-11 begin=28-29 expression=9-28)] keyword=0-4 end=30-33 expression=0-33)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atCONSTANT 12-14 V\xff\x01\x0atLPAREN2 14-15 (\x0atLABEL 15-18 x\xff\x02\x0atIDENTIFIER 19-21 y\xff\x03\x0atCOMMA 21-22 ,\x0atDSTAR 23-25 **\x0atIDENTIFIER 25-27 z\xff\x04\x0atRPAREN 27-28 )\x0atSEMI 28-29 ;\x0akEND 30-33 end\x0aEOF 33-33 " },
    Rec { t: b"case v\xffa; in V\xffb[*, x\xffa, *]; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22) pattern=(find_pattern elements=[(match_rest) (match_var name=\x22x\xff\x02\x22) (match_rest)])))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22 name=12-14 expression=12-14) pattern=(find_pattern elements=[(match_rest operator=15-16 expression=15-16) (match_var name=\x22x\xff\x02\x22 name=18-20 expression=18-20) (match_rest operator=22-23 expression=22-23)] expression=15-23) begin=14-15 end=23-24 expression=12-24) keyword=9-11 begin=24-25 expression=9-24)] keyword=0-4 end=26-29 expression=0-29)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atCONSTANT 12-14 V\xff\x01\x0atLBRACK2 14-15 [\x0atSTAR 15-16 *\x0atCOMMA 16-17 ,\x0atIDENTIFIER 18-20 x\xff\x02\x0atCOMMA 20-21 ,\x0atSTAR 22-23 *\x0atRBRACK 23-24 ]\x0atSEMI 24-25 ;\x0akEND 26-29 end\x0aEOF 29-29 " },
    Rec { t: b"case v\xffa; in V\xffb::X\xffb; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(const scope=(const name=\x22V\xff\x01\x22) name=\x22X\xff\x02\x22))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(const scope=(const name=\x22V\xff\x01\x22 name=12-14 expression=12-14) name=\x22X\xff\x02\x22 double_colon=14-16 name=16-18 expression=12-18) keyword=9-11 begin=18-19 expression=9-18)] keyword=0-4 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atCONSTANT 12-14 V\xff\x01\x0atCOLON2 14-16 ::\x0atCONSTANT 16-18 X\xff\x02\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"case v\xffa; in ::V\xffb(x\xffa); end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(const_pattern const_=(const scope=(cbase) name=\x22V\xff\x01\x22) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x02\x22)])))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(const_pattern const_=(const scope=(cbase expression=12-14) name=\x22V\xff\x01\x22 double_colon=12-14 name=14-16 expression=12-16) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x02\x22 name=17-19 expression=17-19)] expression=17-19) begin=16-17 end=19-20 expression=12-20) keyword=9-11 begin=20-21 expression=9-20)] keyword=0-4 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atCOLON3 12-14 ::\x0atCONSTANT 14-16 V\xff\x01\x0atLPAREN2 16-17 (\x0atIDENTIFIER 17-19 x\xff\x02\x0atRPAREN 19-20 )\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"case v\xffa; in V\xffb::X\xffb(y\xffa); end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(const_pattern const_=(const scope=(const name=\x22V\xff\x01\x22) name=\x22X\xff\x02\x22) pattern=(array_pattern elements=[(match_var name=\x22y\xff\x03\x22)])))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(const_pattern const_=(const scope=(const name=\x22V\xff\x01\x22 name=12-14 expression=12-14) name=\x22X\xff\x02\x22 double_colon=14-16 name=16-18 expression=12-18) pattern=(array_pattern elements=[(match_var name=\x22y\xff\x03\x22 name=19-21 expression=19-21)] expression=19-21) begin=18-19 end=21-22 expression=12-22) keyword=9-11 begin=22-23 expression=9-22)] keyword=0-4 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atCONSTANT 12-14 V\xff\x01\x0atCOLON2 14-16 ::\x0atCONSTANT 16-18 X\xff\x02\x0atLPAREN2 18-19 (\x0atIDENTIFIER 19-21 y\xff\x03\x0atRPAREN 21-22 )\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"case v\xffa; in V\xffb::X\xffb[y\xffa]; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(const_pattern const_=(const scope=(const name=\x22V\xff\x01\x22) name=\x22X\xff\x02\x22) pattern=(array_pattern elements=[(match_var name=\x22y\xff\x03\x22)])))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(const_pattern const_=(const scope=(const name=\x22V\xff\x01\x22 name=12-14 expression=12-14) name=\x22X\xff\x02\x22 double_colon=14-16 name=16-18 expression=12-18) pattern=(array_pattern elements=[(match_var name=\x22y\xff\x03\x22 name=19-21 expression=19-21)] expression=19-21) begin=18-19 end=21-22 expression=12-22) keyword=9-11 begin=22-23 expression=9-22)] keyword=0-4 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atCONSTANT 12-14 V\xff\x01\x0atCOLON2 14-16 ::\x0atCONSTANT 16-18 X\xff\x02\x0atLBRACK2 18-19 [\x0atIDENTIFIER 19-21 y\xff\x03\x0atRBRACK 21-22 ]\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"case v\xffa; in {x\xffa: y\xffa}; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22) value=(match_var name=\x22y\xff\x02\x22))]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22 expression=13-15) value=(match_var name=\x22y\xff\x02\x22 name=17-19 expression=17-19) operator=15-16 expression=13-19)] begin=12-13 end=19-20 expression=12-20) keyword=9-11 begin=20-21 expression=9-20)] keyword=0-4 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACE 12-13 {\x0atLABEL 13-16 x\xff\x01\x0atIDENTIFIER 17-19 y\xff\x02\x0atRCURLY 19-20 }\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"case v\xffa; in {x\xffa: y\xffa, z\xffa:}; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22) value=(match_var name=\x22y\xff\x02\x22)) (match_var name=\x22z\xff\x03\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22 expression=13-15) value=(match_var name=\x22y\xff\x02\x22 name=17-19 expression=17-19) operator=15-16 expression=13-19) (match_var name=\x22z\xff\x03\x22 name=21-23 expression=21-24)] begin=12-13 end=24-25 expression=12-25) keyword=9-11 begin=25-26 expression=9-25)] keyword=0-4 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACE 12-13 {\x0atLABEL 13-16 x\xff\x01\x0atIDENTIFIER 17-19 y\xff\x02\x0atCOMMA 19-20 ,\x0atLABEL 21-24 z\xff\x03\x0atRCURLY 24-25 }\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"case v\xffa; in {x\xffa:, **y\xffa}; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22) (match_rest name=(match_var name=\x22y\xff\x02\x22))]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=13-15 expression=13-16) (match_rest name=(match_var name=\x22y\xff\x02\x22 name=20-22 expression=20-22) operator=18-20 expression=18-22)] begin=12-13 end=22-23 expression=12-23) keyword=9-11 begin=23-24 expression=9-23)] keyword=0-4 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACE 12-13 {\x0atLABEL 13-16 x\xff\x01\x0atCOMMA 16-17 ,\x0atDSTAR 18-20 **\x0atIDENTIFIER 20-22 y\xff\x02\x0atRCURLY 22-23 }\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"case v\xffa; in {\x22x\xffa\x22: y\xffa}; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22) value=(match_var name=\x22y\xff\x02\x22))]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22 begin=13-14 end=16-17 expression=13-17) value=(match_var name=\x22y\xff\x02\x22 name=19-21 expression=19-21) operator=17-18 expression=13-21)] begin=12-13 end=21-22 expression=12-22) keyword=9-11 begin=22-23 expression=9-22)] keyword=0-4 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACE 12-13 {\x0atSTRING_BEG 13-14 \x22\x0atSTRING_CONTENT 14-16 x\xff\x01\x0atLABEL_END 16-18 \x22:\x0atIDENTIFIER 19-21 y\xff\x02\x0atRCURLY 21-22 }\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"case v\xffa; in x\xffa: y\xffa; z\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22) value=(match_var name=\x22y\xff\x02\x22))]) body=(send method_name=\x22z\xff\x03\x22 args=[]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22 expression=12-14) value=(match_var name=\x22y\xff\x02\x22 name=16-18 expression=16-18) operator=14-15 expression=12-18)] expression=12-18) body=(send method_name=\x22z\xff\x03\x22 args=[] selector=20-22 expression=20-22) keyword=9-11 begin=18-19 expression=9-22)] keyword=0-4 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLABEL 12-15 x\xff\x01\x0atIDENTIFIER 16-18 y\xff\x02\x0atSEMI 18-19 ;\x0atIDENTIFIER 20-22 z\xff\x03\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"case v\xffa; in x\xffa:, **nil; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22) (match_nil_pattern)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=12-14 expression=12-15) (match_nil_pattern operator=17-19 name=19-22 expression=17-22)] expression=12-22) keyword=9-11 begin=22-23 expression=9-22)] keyword=0-4 end=24-27 expression=0-27)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLABEL 12-15 x\xff\x01\x0atCOMMA 15-16 ,\x0atDSTAR 17-19 **\x0akNIL 19-22 nil\x0atSEMI 22-23 ;\x0akEND 24-27 end\x0aEOF 27-27 " },
    Rec { t: b"case v\xffa; in x\xffa:, **y\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22) (match_rest name=(match_var name=\x22y\xff\x02\x22))]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=12-14 expression=12-15) (match_rest name=(match_var name=\x22y\xff\x02\x22 name=19-21 expression=19-21) operator=17-19 expression=17-21)] expression=12-21) keyword=9-11 begin=21-22 expression=9-21)] keyword=0-4 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLABEL 12-15 x\xff\x01\x0atCOMMA 15-16 ,\x0atDSTAR 17-19 **\x0atIDENTIFIER 19-21 y\xff\x02\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"case v\xffa; in \x22x\xffa\x22: y\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22) value=(match_var name=\x22y\xff\x02\x22))]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22 begin=12-13 end=15-16 expression=12-16) value=(match_var name=\x22y\xff\x02\x22 name=18-20 expression=18-20) operator=16-17 expression=12-20)] expression=12-20) keyword=9-11 begin=20-21 expression=9-20)] keyword=0-4 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atSTRING_BEG 12-13 \x22\x0atSTRING_CONTENT 13-15 x\xff\x01\x0atLABEL_END 15-17 \x22:\x0atIDENTIFIER 18-20 y\xff\x02\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"case v\xffa; in \xffd...; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(erange left=(int value=\x22\xff\x01\x22)))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(erange left=(int value=\x22\xff\x01\x22 expression=12-13) operator=13-16 expression=12-16) keyword=9-11 begin=16-17 expression=9-16)] keyword=0-4 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atINTEGER 12-13 \xff\x01\x0atDOT3 13-16 ...\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"case v\xffa; in ...\xffd; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(erange right=(int value=\x22\xff\x01\x22)))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(erange right=(int value=\x22\xff\x01\x22 expression=15-16) operator=12-15 expression=12-16) keyword=9-11 begin=16-17 expression=9-16)] keyword=0-4 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atBDOT3 12-15 ...\x0atINTEGER 15-16 \xff\x01\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"case v\xffa; in -\xffd..\xffd; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(irange left=(int value=\x22-\xff\x01\x22) right=(int value=\x22\xff\x02\x22)))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(irange left=(int value=\x22-\xff\x01\x22 operator=12-13 expression=12-14) right=(int value=\x22\xff\x02\x22 expression=16-17) operator=14-16 expression=12-17) keyword=9-11 begin=17-18 expression=9-17)] keyword=0-4 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atUMINUS_NUM 12-13 -\x0atINTEGER 13-14 \xff\x01\x0atDOT2 14-16 ..\x0atINTEGER 16-17 \xff\x02\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"case v\xffa; in \xffd | \xffd | \xffd; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(match_alt lhs=(match_alt lhs=(int value=\x22\xff\x01\x22) rhs=(int value=\x22\xff\x02\x22)) rhs=(int value=\x22\xff\x03\x22)))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(match_alt lhs=(match_alt lhs=(int value=\x22\xff\x01\x22 expression=12-13) rhs=(int value=\x22\xff\x02\x22 expression=16-17) operator=14-15 expression=12-17) rhs=(int value=\x22\xff\x03\x22 expression=20-21) operator=18-19 expression=12-21) keyword=9-11 begin=21-22 expression=9-21)] keyword=0-4 end=23-26 expression=0-26)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atINTEGER 12-13 \xff\x01\x0atPIPE 14-15 |\x0atINTEGER 16-17 \xff\x02\x0atPIPE 18-19 |\x0atINTEGER 20-21 \xff\x03\x0atSEMI 21-22 ;\x0akEND 23-26 end\x0aEOF 26-26 " },
    Rec { t: b"case v\xffa; in [\xffd | \xffd, x\xffa]; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_alt lhs=(int value=\x22\xff\x01\x22) rhs=(int value=\x22\xff\x02\x22)) (match_var name=\x22x\xff\x03\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_alt lhs=(int value=\x22\xff\x01\x22 expression=13-14) rhs=(int value=\x22\xff\x02\x22 expression=17-18) operator=15-16 expression=13-18) (match_var name=\x22x\xff\x03\x22 name=20-22 expression=20-22)] begin=12-13 end=22-23 expression=12-23) keyword=9-11 begin=23-24 expression=9-23)] keyword=0-4 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACK 12-13 [\x0atINTEGER 13-14 \xff\x01\x0atPIPE 15-16 |\x0atINTEGER 17-18 \xff\x02\x0atCOMMA 18-19 ,\x0atIDENTIFIER 20-22 x\xff\x03\x0atRBRACK 22-23 ]\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"case v\xffa; in x\xffa => y\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(match_as value=(match_var name=\x22x\xff\x01\x22) as_=(match_var name=\x22y\xff\x02\x22)))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(match_as value=(match_var name=\x22x\xff\x01\x22 name=12-14 expression=12-14) as_=(match_var name=\x22y\xff\x02\x22 name=18-20 expression=18-20) operator=15-17 expression=12-20) keyword=9-11 begin=20-21 expression=9-20)] keyword=0-4 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atIDENTIFIER 12-14 x\xff\x01\x0atASSOC 15-17 =>\x0atIDENTIFIER 18-20 y\xff\x02\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"case v\xffa; in \xffd => x\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(match_as value=(int value=\x22\xff\x01\x22) as_=(match_var name=\x22x\xff\x02\x22)))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(match_as value=(int value=\x22\xff\x01\x22 expression=12-13) as_=(match_var name=\x22x\xff\x02\x22 name=17-19 expression=17-19) operator=14-16 expression=12-19) keyword=9-11 begin=19-20 expression=9-19)] keyword=0-4 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atINTEGER 12-13 \xff\x01\x0atASSOC 14-16 =>\x0atIDENTIFIER 17-19 x\xff\x02\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"case v\xffa; in \xffd | \xffd => x\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(match_as value=(match_alt lhs=(int value=\x22\xff\x01\x22) rhs=(int value=\x22\xff\x02\x22)) as_=(match_var name=\x22x\xff\x03\x22)))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(match_as value=(match_alt lhs=(int value=\x22\xff\x01\x22 expression=12-13) rhs=(int value=\x22\xff\x02\x22 expression=16-17) operator=14-15 expression=12-17) as_=(match_var name=\x22x\xff\x03\x22 name=21-23 expression=21-23) operator=18-20 expression=12-23) keyword=9-11 begin=23-24 expression=9-23)] keyword=0-4 end=25-28 expression=0-28)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atINTEGER 12-13 \xff\x01\x0atPIPE 14-15 |\x0atINTEGER 16-17 \xff\x02\x0atASSOC 18-20 =>\x0atIDENTIFIER 21-23 x\xff\x03\x0atSEMI 23-24 ;\x0akEND 25-28 end\x0aEOF 28-28 " },
    Rec { t: b"case v\xffa; in V\xffb => x\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(match_as value=(const name=\x22V\xff\x01\x22) as_=(match_var name=\x22x\xff\x02\x22)))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(match_as value=(const name=\x22V\xff\x01\x22 name=12-14 expression=12-14) as_=(match_var name=\x22x\xff\x02\x22 name=18-20 expression=18-20) operator=15-17 expression=12-20) keyword=9-11 begin=20-21 expression=9-20)] keyword=0-4 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atCONSTANT 12-14 V\xff\x01\x0atASSOC 15-17 =>\x0atIDENTIFIER 18-20 x\xff\x02\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"case v\xffa; in [x\xffa, y\xffa] => z\xffa; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(match_as value=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22) (match_var name=\x22y\xff\x02\x22)]) as_=(match_var name=\x22z\xff\x03\x22)))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(match_as value=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=13-15 expression=13-15) (match_var name=\x22y\xff\x02\x22 name=17-19 expression=17-19)] begin=12-13 end=19-20 expression=12-20) as_=(match_var name=\x22z\xff\x03\x22 name=24-26 expression=24-26) operator=21-23 expression=12-26) keyword=9-11 begin=26-27 expression=9-26)] keyword=0-4 end=28-31 expression=0-31)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLBRACK 12-13 [\x0atIDENTIFIER 13-15 x\xff\x01\x0atCOMMA 15-16 ,\x0atIDENTIFIER 17-19 y\xff\x02\x0atRBRACK 19-20 ]\x0atASSOC 21-23 =>\x0atIDENTIFIER 24-26 z\xff\x03\x0atSEMI 26-27 ;\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"case v\xffa; in true | false; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(match_alt lhs=(true) rhs=(false)))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(match_alt lhs=(true expression=12-16) rhs=(false expression=19-24) operator=17-18 expression=12-24) keyword=9-11 begin=24-25 expression=9-24)] keyword=0-4 end=26-29 expression=0-29)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0akTRUE 12-16 true\x0atPIPE 17-18 |\x0akFALSE 19-24 false\x0atSEMI 24-25 ;\x0akEND 26-29 end\x0aEOF 29-29 " },
    Rec { t: b"case v\xffa; in \x22x\xfft\x22; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(str value=\x22x\xff\x01\x22))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(str value=\x22x\xff\x01\x22 begin=12-13 end=15-16 expression=12-16) keyword=9-11 begin=16-17 expression=9-16)] keyword=0-4 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atSTRING_BEG 12-13 \x22\x0atSTRING_CONTENT 13-15 x\xff\x01\x0atSTRING_END 15-16 \x22\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"case v\xffa; in :\x22x\xffa\x22; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(sym name=\x22x\xff\x01\x22))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(sym name=\x22x\xff\x01\x22 begin=12-14 end=16-17 expression=12-17) keyword=9-11 begin=17-18 expression=9-17)] keyword=0-4 end=19-22 expression=0-22)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atSYMBEG 12-14 :\x22\x0atSTRING_CONTENT 14-16 x\xff\x01\x0atSTRING_END 16-17 \x22\x0atSEMI 17-18 ;\x0akEND 19-22 end\x0aEOF 22-22 " },
    Rec { t: b"case v\xffa; in /x\xffa/; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(regexp parts=[(str value=\x22x\xff\x01\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(regexp parts=[(str value=\x22x\xff\x01\x22 expression=13-15)] begin=12-13 end=15-16 expression=12-16) keyword=9-11 begin=16-17 expression=9-16)] keyword=0-4 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atREGEXP_BEG 12-13 /\x0atSTRING_CONTENT 13-15 x\xff\x01\x0atREGEXP_END 15-16 /\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"case v\xffa; in %w[x\xffa]; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array elements=[(str value=\x22x\xff\x01\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array elements=[(str value=\x22x\xff\x01\x22 expression=15-17)] begin=12-15 end=17-18 expression=12-18) keyword=9-11 begin=18-19 expression=9-18)] keyword=0-4 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atQWORDS_BEG 12-15 %w[\x0atSPACE 15-15 \x0atSTRING_CONTENT 15-17 x\xff\x01\x0atSPACE 17-17 \x0atSTRING_END 17-18 ]\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"case v\xffa; in %i[x\xffa]; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array elements=[(sym name=\x22x\xff\x01\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array elements=[(sym name=\x22x\xff\x01\x22 expression=15-17)] begin=12-15 end=17-18 expression=12-18) keyword=9-11 begin=18-19 expression=9-18)] keyword=0-4 end=20-23 expression=0-23)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atQSYMBOLS_BEG 12-15 %i[\x0atSPACE 15-15 \x0atSTRING_CONTENT 15-17 x\xff\x01\x0atSPACE 17-17 \x0atSTRING_END 17-18 ]\x0atSEMI 18-19 ;\x0akEND 20-23 end\x0aEOF 23-23 " },
    Rec { t: b"case v\xffa; in ->(x\xffa) { y\xffa }; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(block call=(lambda) args=(args args=[(arg name=\x22x\xff\x01\x22)]) body=(send method_name=\x22y\xff\x02\x22 args=[])))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(block call=(lambda expression=12-14) args=(args args=[(arg name=\x22x\xff\x01\x22 expression=15-17)] expression=14-18 begin=14-15 end=17-18) body=(send method_name=\x22y\xff\x02\x22 args=[] selector=21-23 expression=21-23) begin=19-20 end=24-25 expression=12-25) keyword=9-11 begin=25-26 expression=9-25)] keyword=0-4 end=27-30 expression=0-30)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atLAMBDA 12-14 ->\x0atLPAREN2 14-15 (\x0atIDENTIFIER 15-17 x\xff\x01\x0atRPAREN 17-18 )\x0atLAMBEG 19-20 {\x0atIDENTIFIER 21-23 y\xff\x02\x0atRCURLY 24-25 }\x0atSEMI 25-26 ;\x0akEND 27-30 end\x0aEOF 30-30 " },
    Rec { t: b"case v\xffa; in _, _; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22_\x22) (match_var name=\x22_\x22)]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22_\x22 name=12-13 expression=12-13) (match_var name=\x22_\x22 name=15-16 expression=15-16)] expression=12-16) keyword=9-11 begin=16-17 expression=9-16)] keyword=0-4 end=18-21 expression=0-21)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atIDENTIFIER 12-13 _\x0atCOMMA 13-14 ,\x0atIDENTIFIER 15-16 _\x0atSEMI 16-17 ;\x0akEND 18-21 end\x0aEOF 21-21 " },
    Rec { t: b"case v\xffa; in x\xffa, ^x\xfe\x01; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22) (pin var=(lvar name=\x22x\xff\x01\x22))]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=12-14 expression=12-14) (pin var=(lvar name=\x22x\xff\x01\x22 expression=17-19) selector=16-17 expression=16-19)] expression=12-19) keyword=9-11 begin=19-20 expression=9-19)] keyword=0-4 end=21-24 expression=0-24)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atIDENTIFIER 12-14 x\xff\x01\x0atCOMMA 14-15 ,\x0atCARET 16-17 ^\x0atIDENTIFIER 17-19 x\xff\x01\x0atSEMI 19-20 ;\x0akEND 21-24 end\x0aEOF 24-24 " },
    Rec { t: b"case v\xffa; in \x22x#{y\xffa}\x22; end", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(dstr parts=[(str value=\x22x\x22) (begin statements=[(send method_name=\x22y\xff\x01\x22 args=[])])]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(dstr parts=[(str value=\x22x\x22 expression=13-14) (begin statements=[(send method_name=\x22y\xff\x01\x22 args=[] selector=16-18 expression=16-18)] begin=14-16 end=18-19 expression=14-19)] begin=12-13 end=19-20 expression=12-20) keyword=9-11 begin=20-21 expression=9-20)] keyword=0-4 end=22-25 expression=0-25)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atSEMI 7-8 ;\x0akIN 9-11 in\x0atSTRING_BEG 12-13 \x22\x0atSTRING_CONTENT 13-14 x\x0atSTRING_DBEG 14-16 #{\x0atIDENTIFIER 16-18 y\xff\x01\x0atSTRING_DEND 18-19 }\x0atSTRING_END 19-20 \x22\x0atSEMI 20-21 ;\x0akEND 22-25 end\x0aEOF 25-25 " },
    Rec { t: b"case v\xffa\x0ain x\xffa\x0ay\xffa\x0ain z\xffa\x0aq\xffa\x0aend", shape: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[]) in_bodies=[(in_pattern pattern=(match_var name=\x22x\xff\x01\x22) body=(send method_name=\x22y\xff\x02\x22 args=[])) (in_pattern pattern=(match_var name=\x22z\xff\x03\x22) body=(send method_name=\x22q\xff\x04\x22 args=[]))])", full: b"(case_match expr=(send method_name=\x22v\xff\x00\x22 args=[] selector=5-7 expression=5-7) in_bodies=[(in_pattern pattern=(match_var name=\x22x\xff\x01\x22 name=11-13 expression=11-13) body=(send method_name=\x22y\xff\x02\x22 args=[] selector=14-16 expression=14-16) keyword=8-10 begin=13-14 expression=8-16) (in_pattern pattern=(match_var name=\x22z\xff\x03\x22 name=20-22 expression=20-22) body=(send method_name=\x22q\xff\x04\x22 args=[] selector=23-25 expression=23-25) keyword=17-19 begin=22-23 expression=17-25)] keyword=0-4 end=26-29 expression=0-29)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atIDENTIFIER 5-7 v\xff\x00\x0atNL 7-8 \x0a\x0akIN 8-10 in\x0atIDENTIFIER 11-13 x\xff\x01\x0atNL 13-14 \x0a\x0atIDENTIFIER 14-16 y\xff\x02\x0atNL 16-17 \x0a\x0akIN 17-19 in\x0atIDENTIFIER 20-22 z\xff\x03\x0atNL 22-23 \x0a\x0atIDENTIFIER 23-25 q\xff\x04\x0atNL 25-26 \x0a\x0akEND 26-29 end\x0aEOF 29-29 " },
    Rec { t: b"case [v\xffa, x\xffa]; in [y\xffa, z\xffa]; end", shape: b"(case_match expr=(array elements=[(send method_name=\x22v\xff\x00\x22 args=[]) (send method_name=\x22x\xff\x01\x22 args=[])]) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22y\xff\x02\x22) (match_var name=\x22z\xff\x03\x22)]))])", full: b"(case_match expr=(array elements=[(send method_name=\x22v\xff\x00\x22 args=[] selector=6-8 expression=6-8) (send method_name=\x22x\xff\x01\x22 args=[] selector=10-12 expression=10-12)] begin=5-6 end=12-13 expression=5-13) in_bodies=[(in_pattern pattern=(array_pattern elements=[(match_var name=\x22y\xff\x02\x22 name=19-21 expression=19-21) (match_var name=\x22z\xff\x03\x22 name=23-25 expression=23-25)] begin=18-19 end=25-26 expression=18-26) keyword=15-17 begin=26-27 expression=15-26)] keyword=0-4 end=28-31 expression=0-31)", diag: b"", toks: b"\x0akCASE 0-4 case\x0atLBRACK 5-6 [\x0atIDENTIFIER 6-8 v\xff\x00\x0atCOMMA 8-9 ,\x0atIDENTIFIER 10-12 x\xff\x01\x0atRBRACK 12-13 ]\x0atSEMI 13-14 ;\x0akIN 15-17 in\x0atLBRACK 18-19 [\x0atIDENTIFIER 19-21 y\xff\x02\x0atCOMMA 21-22 ,\x0atIDENTIFIER 23-25 z\xff\x03\x0atRBRACK 25-26 ]\x0atSEMI 26-27 ;\x0akEND 28-31 end\x0aEOF 31-31 " },
    Rec { t: b"v\xffa in [x\xffa, *]", shape: b"(match_pattern_p value=(send method_name=\x22v\xff\x00\x22 args=[]) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22) (match_rest)]))", full: b"(match_pattern_p value=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=7-9 expression=7-9) (match_rest operator=11-12 expression=11-12)] begin=6-7 end=12-13 expression=6-13) operator=3-5 expression=0-13)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akIN 3-5 in\x0atLBRACK 6-7 [\x0atIDENTIFIER 7-9 x\xff\x01\x0atCOMMA 9-10 ,\x0atSTAR 11-12 *\x0atRBRACK 12-13 ]\x0aEOF 13-13 " },
    Rec { t: b"v\xffa => [x\xffa, *y\xffa]", shape: b"(match_pattern value=(send method_name=\x22v\xff\x00\x22 args=[]) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22) (match_rest name=(match_var name=\x22y\xff\x02\x22))]))", full: b"(match_pattern value=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x01\x22 name=7-9 expression=7-9) (match_rest name=(match_var name=\x22y\xff\x02\x22 name=12-14 expression=12-14) operator=11-12 expression=11-14)] begin=6-7 end=14-15 expression=6-15) operator=3-5 expression=0-15)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atASSOC 3-5 =>\x0atLBRACK 6-7 [\x0atIDENTIFIER 7-9 x\xff\x01\x0atCOMMA 9-10 ,\x0atSTAR 11-12 *\x0atIDENTIFIER 12-14 y\xff\x02\x0atRBRACK 14-15 ]\x0aEOF 15-15 " },
    Rec { t: b"v\xffa => {x\xffa: \xffd => y\xffa}", shape: b"(match_pattern value=(send method_name=\x22v\xff\x00\x22 args=[]) pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22) value=(match_as value=(int value=\x22\xff\x02\x22) as_=(match_var name=\x22y\xff\x03\x22)))]))", full: b"(match_pattern value=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) pattern=(hash_pattern elements=[(pair key=(sym name=\x22x\xff\x01\x22 expression=7-9) value=(match_as value=(int value=\x22\xff\x02\x22 expression=11-12) as_=(match_var name=\x22y\xff\x03\x22 name=16-18 expression=16-18) operator=13-15 expression=11-18) operator=9-10 expression=7-18)] begin=6-7 end=18-19 expression=6-19) operator=3-5 expression=0-19)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atASSOC 3-5 =>\x0atLBRACE 6-7 {\x0atLABEL 7-10 x\xff\x01\x0atINTEGER 11-12 \xff\x02\x0atASSOC 13-15 =>\x0atIDENTIFIER 16-18 y\xff\x03\x0atRCURLY 18-19 }\x0aEOF 19-19 " },
    Rec { t: b"v\xffa => \xffd", shape: b"(match_pattern value=(send method_name=\x22v\xff\x00\x22 args=[]) pattern=(int value=\x22\xff\x01\x22))", full: b"(match_pattern value=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) pattern=(int value=\x22\xff\x01\x22 expression=6-7) operator=3-5 expression=0-7)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0atASSOC 3-5 =>\x0atINTEGER 6-7 \xff\x01\x0aEOF 7-7 " },
    Rec { t: b"v\xffa in V\xffb(x\xffa)", shape: b"(match_pattern_p value=(send method_name=\x22v\xff\x00\x22 args=[]) pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x02\x22)])))", full: b"(match_pattern_p value=(send method_name=\x22v\xff\x00\x22 args=[] selector=0-2 expression=0-2) pattern=(const_pattern const_=(const name=\x22V\xff\x01\x22 name=6-8 expression=6-8) pattern=(array_pattern elements=[(match_var name=\x22x\xff\x02\x22 name=9-11 expression=9-11)] expression=9-11) begin=8-9 end=11-12 expression=6-12) operator=3-5 expression=0-12)", diag: b"", toks: b"\x0atIDENTIFIER 0-2 v\xff\x00\x0akIN 3-5 in\x0atCONSTANT 6-8 V\xff\x01\x0atLPAREN2 8-9 (\x0atIDENTIFIER 9-11 x\xff\x02\x0atRPAREN 11-12 )\x0aEOF 12-12 " },
];
