/* A loadable package for the option-table check: one C record with a field of every option type, a guard before and after each
 * field, and commands that configure, read and dump it through the Jsi_Options functions. */
#include "jsi.h"
#include <string.h>
#include <stdio.h>
#include <stddef.h>
#include <stdint.h>
#include <time.h>

typedef struct { int n; uint8_t u; Jsi_Value *s; bool f; } Sub;
#define FIELDS(F) F(bool,bo) F(int8_t,i8) F(int16_t,i16) F(int32_t,i32) F(int64_t,i64) F(uint8_t,u8) F(uint16_t,u16) F(uint32_t,u32) \
    F(uint64_t,u64) F(float,fl) F(double,db) F(long double,ld) F(Jsi_Wide,tw) F(double,td) F(time_t,tt) F(size_t,sz) F(ssize_t,ss) \
    F(intptr_t,ip) F(uintptr_t,up) F(Jsi_Number,nu) F(int,in) F(uint,ui) F(long,lo) F(ulong,ul) F(short,sh) F(ushort,us) \
    F(Jsi_Value*,st) F(Jsi_DString,ds) F(Jsi_Strkey,sk) F(Jsi_Value*,va) F(Jsi_Value*,ob) F(Jsi_Value*,ar) F(Jsi_Value*,re) \
    F(Jsi_Value*,fu) F(Jsi_Value*,uo) F(int8_t,e1) F(uint16_t,e2) F(int32_t,e4) F(uint64_t,e8) F(uint8_t,b1) F(uint16_t,b2) \
    F(uint32_t,b4) F(uint64_t,b8) F(Sub,sub) F(int,init) F(int,rdo) F(int,abcd) F(int,abce) F(int,ab)
typedef struct {
    unsigned char g_first[8];
#define F(t,n) t n; unsigned char g_##n[8];
    FIELDS(F)
#undef F
    char sb[6]; unsigned char g_sb[8];
    int ca[3]; unsigned char g_ca[8];
} Rec;

static const char *en[] = { "red", "green", "grey", "blue", NULL };
static const char *bs[] = { "b0", "b1", "b2", "b3", "b4", "b5", "b6", "last7", NULL };
static const char *bw[] = { "b0","b1","b2","b3","b4","b5","b6","b7","b8","c9","c10","c11","c12","c13","c14","c15", NULL };
static const char *bq[] = { "b0","b1","b2","b3","b4","b5","b6","b7","b8","c9","c10","c11","c12","c13","c14","c15","d16","d17","d18","d19","d20",
    "d21","d22","d23","d24","d25","d26","d27","d28","d29","d30","d31",NULL };
static const char *bx[] = { "b0","b1","b2","b3","b4","b5","b6","b7","b8","c9","c10","c11","c12","c13","c14","c15","d16","d17","d18","d19","d20",
    "d21","d22","d23","d24","d25","d26","d27","d28","d29","d30","d31","e32","e33","e34","e35","e36","e37","e38","e39","e40","e41","e42","e43",
    "e44","e45","e46","e47","e48","e49","e50","e51","e52","e53","e54","e55","e56","e57","e58","e59","e60","e61","e62","e63",NULL };
static Jsi_OptionSpec SubOptions[] = {
    JSI_OPT(INT, Sub, n, .help="n"), JSI_OPT(UINT8, Sub, u, .help="u"), JSI_OPT(STRING, Sub, s, .help="s"), JSI_OPT(BOOL, Sub, f, .help="f"),
    JSI_OPT_END(Sub, .help="sub")
};
static Jsi_OptionSpec CaItem[] = {
    JSI_OPT_CARRAY_ITEM(INT, Rec, ca, .help="ca"),
    JSI_OPT_END(Rec, .help="ca")
};
static Jsi_OptionSpec RecOptions[] = {
    JSI_OPT(BOOL, Rec, bo, .help=""), JSI_OPT(INT8, Rec, i8, .help=""), JSI_OPT(INT16, Rec, i16, .help=""), JSI_OPT(INT32, Rec, i32, .help=""),
    JSI_OPT(INT64, Rec, i64, .help=""), JSI_OPT(UINT8, Rec, u8, .help=""), JSI_OPT(UINT16, Rec, u16, .help=""), JSI_OPT(UINT32, Rec, u32, .help=""),
    JSI_OPT(UINT64, Rec, u64, .help=""), JSI_OPT(FLOAT, Rec, fl, .help=""), JSI_OPT(DOUBLE, Rec, db, .help=""), JSI_OPT(LDOUBLE, Rec, ld, .help=""),
    JSI_OPT(TIME_W, Rec, tw, .help=""), JSI_OPT(TIME_D, Rec, td, .help=""), JSI_OPT(TIME_T, Rec, tt, .help=""), JSI_OPT(SIZE_T, Rec, sz, .help=""),
    JSI_OPT(SSIZE_T, Rec, ss, .help=""), JSI_OPT(INTPTR_T, Rec, ip, .help=""), JSI_OPT(UINTPTR_T, Rec, up, .help=""), JSI_OPT(NUMBER, Rec, nu, .help=""),
    JSI_OPT(INT, Rec, in, .help=""), JSI_OPT(UINT, Rec, ui, .help=""), JSI_OPT(LONG, Rec, lo, .help=""), JSI_OPT(ULONG, Rec, ul, .help=""),
    JSI_OPT(SHORT, Rec, sh, .help=""), JSI_OPT(USHORT, Rec, us, .help=""), JSI_OPT(STRING, Rec, st, .help=""), JSI_OPT(DSTRING, Rec, ds, .help=""),
    JSI_OPT(STRKEY, Rec, sk, .help=""), JSI_OPT(VALUE, Rec, va, .help=""), JSI_OPT(OBJ, Rec, ob, .help=""), JSI_OPT(ARRAY, Rec, ar, .help=""),
    JSI_OPT(REGEXP, Rec, re, .help=""), JSI_OPT(FUNC, Rec, fu, .help="", .flags=0, .custom=0, .data=(void*)"a:number, b:string"),
    JSI_OPT(USEROBJ, Rec, uo, .help="", .flags=0, .custom=0, .data=(void*)"Sqlite"),
    JSI_OPT(CUSTOM, Rec, e1, .help="", .flags=0, .custom=Jsi_Opt_SwitchEnum, .data=en),
    JSI_OPT(CUSTOM, Rec, e2, .help="", .flags=JSI_OPT_ENUM_UNSIGNED, .custom=Jsi_Opt_SwitchEnum, .data=en),
    JSI_OPT(CUSTOM, Rec, e4, .help="", .flags=JSI_OPT_CUST_NOCASE, .custom=Jsi_Opt_SwitchEnum, .data=en),
    JSI_OPT(CUSTOM, Rec, e8, .help="", .flags=JSI_OPT_ENUM_UNSIGNED|JSI_OPT_ENUM_EXACT, .custom=Jsi_Opt_SwitchEnum, .data=en),
    JSI_OPT(CUSTOM, Rec, b1, .help="", .flags=0, .custom=Jsi_Opt_SwitchBitset, .data=bs),
    JSI_OPT(CUSTOM, Rec, b2, .help="", .flags=JSI_OPT_CUST_NOCASE, .custom=Jsi_Opt_SwitchBitset, .data=bw),
    JSI_OPT(CUSTOM, Rec, b4, .help="", .flags=0, .custom=Jsi_Opt_SwitchBitset, .data=bq),
    JSI_OPT(CUSTOM, Rec, b8, .help="", .flags=0, .custom=Jsi_Opt_SwitchBitset, .data=bx),
    JSI_OPT(CUSTOM, Rec, sub, .help="", .flags=0, .custom=Jsi_Opt_SwitchSuboption, .data=SubOptions),
    JSI_OPT(INT, Rec, init, .help="", .flags=JSI_OPT_INIT_ONLY), JSI_OPT(INT, Rec, rdo, .help="", .flags=JSI_OPT_READ_ONLY),
    JSI_OPT(INT, Rec, abcd, .help=""), JSI_OPT(INT, Rec, abce, .help=""), JSI_OPT(INT, Rec, ab, .help=""),
    JSI_OPT(STRBUF, Rec, sb, .help=""),
    JSI_OPT_CARRAY(Rec, ca, "", 0, CaItem, 3, "int", NULL),
    JSI_OPT_END(Rec, .help="every type")
};
typedef struct { int a, b, c; } Req;
static Jsi_OptionSpec ReqOptions[] = {
    JSI_OPT(INT, Req, a, .help=""), JSI_OPT(INT, Req, b, .help="", .flags=JSI_OPT_REQUIRED), JSI_OPT(INT, Req, c, .help="", .flags=JSI_OPT_REQUIRED),
    JSI_OPT_END(Req, .help="required")
};

static Rec *rec;
#define GV 0xA5
static void fresh(Jsi_Interp *interp) {
    if (rec) { Jsi_OptionsFree(interp, RecOptions, rec, 0); free(rec); }
    rec = calloc(1, sizeof(*rec));
#define F(t,n) memset(rec->g_##n, GV, 8);
    F(x,first) FIELDS(F) F(x,sb) F(x,ca)
#undef F
}
static const char *guards(void) {
    int i;
#define F(t,n) for (i = 0; i < 8; i++) if (rec->g_##n[i] != GV) return #n;
    F(x,first) FIELDS(F) F(x,sb) F(x,ca)
#undef F
    return "";
}
#define ARG(n) Jsi_ValueArrayIndex(interp, args, n)
Jsi_CmdProcDecl(OptNew) { fresh(interp); return JSI_OK; }
Jsi_CmdProcDecl(OptGuard) { Jsi_ValueMakeStringDup(interp, ret, guards()); return JSI_OK; }
Jsi_CmdProcDecl(OptConf) { return Jsi_OptionsConf(interp, RecOptions, rec, ARG(0), ret, 0); }
Jsi_CmdProcDecl(OptProc) {
    fresh(interp);
    int n = Jsi_OptionsProcess(interp, RecOptions, rec, ARG(0), 0);
    if (n < 0) return JSI_ERROR;
    Jsi_ValueMakeNumber(interp, ret, n); return JSI_OK;
}
Jsi_CmdProcDecl(OptReq) {
    Req r = {1, 2, 3}; int n = Jsi_OptionsProcess(interp, ReqOptions, &r, ARG(0), 0);
    if (n < 0) return JSI_ERROR;
    char b[80]; snprintf(b, sizeof(b), "%d %d,%d,%d", n, r.a, r.b, r.c); Jsi_ValueMakeStringDup(interp, ret, b); return JSI_OK;
}
Jsi_CmdProcDecl(OptGet) { return Jsi_OptionsGet(interp, RecOptions, rec, Jsi_ValueArrayIndexToStr(interp, args, 0, NULL), ret, 0); }
Jsi_CmdProcDecl(OptSet) { return Jsi_OptionsSet(interp, RecOptions, rec, Jsi_ValueArrayIndexToStr(interp, args, 0, NULL), ARG(1), JSI_OPTS_IS_UPDATE); }
Jsi_CmdProcDecl(OptIncr) { return Jsi_OptionsSet(interp, RecOptions, rec, Jsi_ValueArrayIndexToStr(interp, args, 0, NULL), ARG(1), JSI_OPTS_IS_UPDATE|JSI_OPTS_INCR); }
Jsi_CmdProcDecl(OptChanged) { Jsi_ValueMakeNumber(interp, ret, Jsi_OptionsChanged(interp, RecOptions, Jsi_ValueArrayIndexToStr(interp, args, 0, NULL), NULL)); return JSI_OK; }
Jsi_CmdProcDecl(OptClear) { Jsi_OptionsFree(interp, RecOptions, rec, 0); return JSI_OK; }
Jsi_CmdProcDecl(OptRaw) {
    const char *n = Jsi_ValueArrayIndexToStr(interp, args, 0, NULL); Jsi_OptionSpec *s; char b[200] = "";
    for (s = RecOptions; s->id != JSI_OPTION_END; s++) if (!strcmp(s->name, n)) {
        int i; for (i = 0; i < (int)s->size && i < 64; i++) sprintf(b+2*i, "%02x", ((unsigned char*)rec)[s->offset+i]);
    }
    Jsi_ValueMakeStringDup(interp, ret, b); return JSI_OK;
}
Jsi_InitProc Jsi_Initopts;
Jsi_RC Jsi_Initopts(Jsi_Interp *interp, int release) {
    if (release) { if (rec) { Jsi_OptionsFree(interp, RecOptions, rec, 0); free(rec); rec = NULL; } return JSI_OK; }
    fresh(interp);
    Jsi_PkgProvide(interp, "opts", 1, Jsi_Initopts);
    Jsi_CommandCreate(interp, "Onew", OptNew, NULL); Jsi_CommandCreate(interp, "Oguard", OptGuard, NULL);
    Jsi_CommandCreate(interp, "Oconf", OptConf, NULL); Jsi_CommandCreate(interp, "Oproc", OptProc, NULL);
    Jsi_CommandCreate(interp, "Oget", OptGet, NULL); Jsi_CommandCreate(interp, "Oset", OptSet, NULL);
    Jsi_CommandCreate(interp, "Oincr", OptIncr, NULL); Jsi_CommandCreate(interp, "Ochanged", OptChanged, NULL);
    Jsi_CommandCreate(interp, "Oraw", OptRaw, NULL); Jsi_CommandCreate(interp, "Oclear", OptClear, NULL);
    Jsi_CommandCreate(interp, "Oreq", OptReq, NULL);
    return JSI_OK;
}
