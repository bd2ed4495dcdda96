/* Explicit-state exploration of the real Jsi_Map / Jsi_Tree / Jsi_Hash / Jsi_List / Jsi_Stack code.
 * maps MODE ARGS...: every state reachable within the bounds is visited (breadth first, states told apart by
 * their canonical encoding), every operation is applied in every state, and the container is compared with a
 * plain array model after each.  Prints "STAT states transitions" and, on a difference, "FAIL history | what". */
#define JSI__MAIN 1
#include "jsiInt.h"
#include <stdarg.h>
#include <signal.h>

typedef unsigned long long u64;
static char hist[1<<16]; static int histn;
static u64 nstates, ntrans;
static int quiet;
static const char *modename = "";
static void H(const char *f, ...) { va_list a; va_start(a, f); if (histn < (int)sizeof(hist)-200) histn += vsnprintf(hist+histn, 180, f, a); va_end(a); }
static void fail(const char *f, ...) {
    va_list a; va_start(a, f); printf("FAIL %s: %s | ", modename, hist); vprintf(f, a); printf("\n"); va_end(a);
    fflush(stdout); _exit(1);
}
static void death(void) { printf("FAIL %s: %s | memory error or abort\n", modename, hist); fflush(stdout); }
static void onabrt(int s) { (void)s; death(); _exit(1); }
extern int Jsi_StrcmpDict(const char *str1, const char *str2, int nocase, int dict);
extern void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

/* ---------------------------------------------------------------- set of states */
static char **tab; static u64 tabn, tabc;
static u64 hs(const char *s) { u64 h = 1469598103934665603ULL; while (*s) { h ^= (unsigned char)*s++; h *= 1099511628211ULL; } return h; }
static int seen(const char *s) {
    if (tabc * 2 >= tabn) {
        u64 on = tabn, i; char **o = tab; tabn = on ? on * 2 : 4096; tab = calloc(tabn, sizeof(char*));
        for (i = 0; i < on; i++) if (o[i]) { u64 j = hs(o[i]) & (tabn-1); while (tab[j]) j = (j+1) & (tabn-1); tab[j] = o[i]; }
        free(o);
    }
    u64 j = hs(s) & (tabn-1);
    while (tab[j]) { if (!strcmp(tab[j], s)) return 1; j = (j+1) & (tabn-1); }
    tab[j] = strdup(s); tabc++; return 0;
}
static void clearseen(void) { u64 i; for (i = 0; i < tabn; i++) free(tab[i]); free(tab); tab = NULL; tabn = tabc = 0; }

typedef struct path { unsigned char *op; int n; } path;
static path *queue; static u64 qh, qt, qcap;
static void push(unsigned char *p, int n, int op) {
    if (qt >= qcap) { qcap = qcap ? qcap*2 : 4096; queue = realloc(queue, qcap*sizeof(path)); }
    path x; x.n = n + (op >= 0); x.op = malloc(x.n+1); if (n) memcpy(x.op, p, n); if (op >= 0) x.op[n] = op; queue[qt++] = x;
}
static void clearq(void) { u64 i; for (i = 0; i < qt; i++) free(queue[i].op); free(queue); queue = NULL; qh = qt = qcap = 0; }

/* ---------------------------------------------------------------- keys */
#define MAXK 1200
static char skey[MAXK][40]; static void *wkey[MAXK]; static unsigned char bkey[MAXK][16];
static int keytype, nkeys; static const char *keyset = "plain";
static const char *odd[] = { "", "1,2", "12", "1,,2", "01", "1", "a", "B", "_", "A", "b", "a1", "a01", "a1,", "a10", "a9", "\xff", "\xe2\x82\xac", "a b", "a_", "aB", "Ab" };
static void mkkeys(int n) {
    int i; nkeys = n;
    for (i = 0; i < n; i++) {
        if (!strcmp(keyset, "odd") && i < (int)(sizeof(odd)/sizeof(odd[0]))) strcpy(skey[i], odd[i]);
        else snprintf(skey[i], sizeof(skey[i]), "k%04d%s", i, i%3==1 ? "-with-a-longer-tail" : "");
        /* words far apart, some exactly 2^32 apart, some more than 2^31 */
        if (!strcmp(keyset, "far")) wkey[i] = (void*)((uintptr_t)(i/3+1)*0x100000000ULL*(1+(i%3==2)*0x7f) + (i%3==1 ? 0x90000000ULL : 7));
        else wkey[i] = (void*)(uintptr_t)(i*8+16);
        memset(bkey[i], 0, 16);
        if (!strcmp(keyset, "far")) { bkey[i][i%4] = 0x80 + i/4; bkey[i][15] = i; }
        else { bkey[i][0] = 0; bkey[i][1] = i >> 8; bkey[i][2] = i; bkey[i][3] = 255-i; if (keytype > 4) bkey[i][keytype-1] = i; }
    }
}
static const void *K(int i) { return keytype == JSI_KEYS_ONEWORD ? wkey[i] : keytype <= JSI_KEYS_STRINGKEY ? (void*)skey[i] : (void*)bkey[i]; }
static int keyindex(const void *k) {
    int i;
    for (i = 0; i < nkeys; i++) {
        if (keytype == JSI_KEYS_ONEWORD) { if (wkey[i] == k) return i; }
        else if (keytype <= JSI_KEYS_STRINGKEY) { if (!strcmp(skey[i], k)) return i; }
        else if (!memcmp(bkey[i], k, keytype)) return i;
    }
    return -1;
}
static int natural(int a, int b) {   /* -1, 0, 1 in the natural order of the key type */
    int d;
    if (keytype == JSI_KEYS_ONEWORD) return wkey[a] < wkey[b] ? -1 : wkey[a] > wkey[b];
    if (keytype <= JSI_KEYS_STRINGKEY) d = strcmp(skey[a], skey[b]); else d = memcmp(bkey[a], bkey[b], keytype);
    return d < 0 ? -1 : d > 0;
}

/* ---------------------------------------------------------------- map under test + model */
static int maptype; static Jsi_Map *m; static int freed[1<<16]; static int vnext;
static int has[MAXK], val[MAXK], cnt;
static Jsi_Interp *fakeinterp;
static Jsi_RC freeproc(Jsi_Interp *ip, Jsi_MapEntry *h, void *v) { (void)ip; (void)h; freed[(int)(intptr_t)v]++; return JSI_OK; }
static void mapnew(void) {
    m = Jsi_MapNew(NULL, maptype, keytype, freeproc);
    if (!m) fail("Jsi_MapNew failed");
    memset(has, 0, sizeof(has)); cnt = 0; memset(freed, 0, sizeof(int)*(vnext+2)); vnext = 1;
}
static int order(int o) { return o == 0 ? JSI_TREE_ORDER_IN : o == 1 ? JSI_TREE_ORDER_PRE : o == 2 ? JSI_TREE_ORDER_POST : JSI_TREE_ORDER_LEVEL; }
static int seq[MAXK*2], seqn;
static Jsi_RC walkproc(Jsi_Tree *t, Jsi_TreeEntry *h, void *d) {
    int k = keyindex(Jsi_TreeKeyGet(h));
    if (k < 0 || seqn >= MAXK) { seqn = MAXK+1; return JSI_ERROR; }
    if ((int)(intptr_t)Jsi_TreeValueGet(h) != val[k]) fail("TreeWalk: value of %d", k);
    seq[seqn++] = k; return JSI_OK;
}
static void once(const char *what, int ord) {
    static int c[MAXK]; int i; memset(c, 0, sizeof(int)*nkeys);
    if (seqn != cnt) fail("%s (order %d) yields %d entries, %d are present", what, ord, seqn, cnt);
    for (i = 0; i < seqn; i++) { if (seq[i] < 0 || !has[seq[i]]) fail("%s (order %d) yields an absent key", what, ord); if (c[seq[i]]++) fail("%s (order %d) yields key %d twice", what, ord, seq[i]); }
}
static void iterate(int ord, const char *what) {
    Jsi_MapSearch s; Jsi_MapEntry *h; seqn = 0;
    for (h = Jsi_MapSearchFirst(m, &s, order(ord)); h; h = Jsi_MapSearchNext(&s)) {
        int k = keyindex(Jsi_MapKeyGet(h, 0));
        if (k < 0) fail("%s yields an unknown key", what);
        if (seqn > cnt + 2) fail("%s does not end", what);
        if ((int)(intptr_t)Jsi_MapValueGet(h) != val[k]) fail("%s: value of key %d", what, k);
        seq[seqn++] = k;
    }
    Jsi_MapSearchDone(&s);
    once(what, ord);
}
static int depthof(Jsi_TreeEntry *n) { if (!n) return 0; int l = depthof(n->left), r = depthof(n->right); return 1 + (l > r ? l : r); }
static int treecheck(Jsi_TreeEntry *n, Jsi_Tree *t) {
    if (!n) return 0;
    if (n->left && n->left->parent != n) fail("left child of %d has another parent", keyindex(Jsi_TreeKeyGet(n)));
    if (n->right && n->right->parent != n) fail("right child of %d has another parent", keyindex(Jsi_TreeKeyGet(n)));
    if (n->treePtr != t) fail("entry of another tree");
    return 1 + treecheck(n->left, t) + treecheck(n->right, t);
}
static int fullorders = 1;
static void verify(void) {
    int i, o;
    if ((int)Jsi_MapSize(m) != cnt) fail("size is %d, %d are present", (int)Jsi_MapSize(m), cnt);
    for (i = 0; i < nkeys; i++) {
        Jsi_MapEntry *h = Jsi_MapEntryFind(m, K(i));
        if (!!h != !!has[i]) fail("key %d is %s but should be %s", i, h ? "found" : "not found", has[i] ? "present" : "absent");
        if (h && (int)(intptr_t)Jsi_MapValueGet(h) != val[i]) fail("value of key %d", i);
        if (h && keyindex(Jsi_MapKeyGet(h, 0)) != i) fail("entry of key %d has another key", i);
        if ((int)(intptr_t)Jsi_MapGet(m, K(i), 0) != (has[i] ? val[i] : 0)) fail("get of key %d", i);
    }
    for (i = 1; i < vnext; i++) if (freed[i] > 1) fail("value %d released twice", i);
    if (maptype == JSI_MAP_TREE) {
        Jsi_Tree *t = m->v.tree;
        if (t->root && t->root->parent) fail("root has a parent");
        if (treecheck(t->root, t) != cnt) fail("tree links %d entries, %d are present", treecheck(t->root, t), cnt);
        int d = depthof(t->root), lg = 0; while ((1 << lg) < cnt + 1) lg++;
        if (d > 2*lg) fail("height %d with %d entries", d, cnt);
        for (o = 0; o < (fullorders ? 4 : 1); o++) {
            iterate(o, "search");
            if (o == 0 && keytype != JSI_KEYS_STRING)
                for (i = 1; i < seqn; i++) if (natural(seq[i-1], seq[i]) >= 0) fail("in-order search: key %d before %d", seq[i-1], seq[i]);
            int s2[MAXK], n2 = seqn; memcpy(s2, seq, sizeof(int)*seqn);
            seqn = 0; Jsi_TreeWalk(t, walkproc, NULL, order(o)); once("walk", o);
            if (o == 0 && memcmp(s2, seq, sizeof(int)*n2)) fail("in-order search and walk differ");
        }
    } else { iterate(0, "search"); }
}
static void mset(int k, int mode) {
    int v = vnext++; bool isNew = 7; Jsi_MapEntry *h;
    if (mode == 0) h = Jsi_MapSet(m, K(k), (void*)(intptr_t)v);
    else { h = Jsi_MapEntryNew(m, K(k), &isNew); if (isNew != !has[k]) fail("isNew is %d for key %d", isNew, k); if (h) Jsi_MapValueSet(h, (void*)(intptr_t)v); }
    if (!h) fail("set of key %d returned NULL", k);
    if (!has[k]) { has[k] = 1; cnt++; }
    val[k] = v;
}
static void munset(int k, int mode) {
    int was = has[k], ov = val[k];
    if (mode == 0) { bool r = Jsi_MapUnset(m, K(k)); if (!!r != was) fail("unset of key %d returned %d", k, r); }
    else { Jsi_MapEntry *h = Jsi_MapEntryFind(m, K(k)); if (h && was) Jsi_MapEntryDelete(h); }
    if (was) { has[k] = 0; cnt--; if (freed[ov] != 1) fail("value of deleted key %d released %d times", k, freed[ov]); }
}
static void mclear(void) {
    int i; Jsi_MapClear(m);
    for (i = 0; i < nkeys; i++) if (has[i]) { if (freed[val[i]] != 1) fail("value of key %d released %d times by clear", i, freed[val[i]]); has[i] = 0; }
    cnt = 0;
}
static void mdelete(void) {
    int i; Jsi_MapDelete(m);
    for (i = 0; i < nkeys; i++) if (has[i] && freed[val[i]] != 1) fail("value of key %d released %d times by delete", i, freed[val[i]]);
}
static char enc[1<<17]; static int encn;
static void enctree(Jsi_TreeEntry *n) {
    if (!n) { enc[encn++] = '.'; return; }
    encn += sprintf(enc+encn, "%d%c", keyindex(Jsi_TreeKeyGet(n)), n->f.bits.color ? 'b' : 'r');
    enctree(n->left); enctree(n->right);
}
static int peak;
static void encode(void) {
    int i; encn = 0;
    if (maptype == JSI_MAP_TREE) enctree(m->v.tree->root);
    else { encn += sprintf(enc, "%d:", m->v.hash->numBuckets); iterate(0, "search"); for (i = 0; i < seqn; i++) if (1) encn += sprintf(enc+encn, "%d,", seq[i]); }
    enc[encn] = 0;
}
static int base;       /* keys present from the start, not touched by the operations */
static void apply(int op, int k0) {
    int n = k0;
    if (op < n) { H("set%d ", op); mset(base+op, 0); }
    else if (op < 2*n) { H("unset%d ", op-n); munset(base+op-n, 0); }
    else if (op < 3*n) { H("new%d ", op-2*n); mset(base+op-2*n, 1); }
    else if (op < 4*n) { H("del%d ", op-3*n); munset(base+op-3*n, 1); }
    else { H("clear "); mclear(); }
}
static void build(path p, int k0) {
    int i; histn = 0; hist[0] = 0; mapnew();
    for (i = 0; i < base; i++) mset(i, 0);
    if (base) H("%d others, ", base);
    for (i = 0; i < p.n; i++) apply(p.op[i], k0);
}
/* delete entry number q while iterating, in each order */
static void iterdelete(path p, int k0) {
    int o, q, pos;
    for (o = 0; o < (maptype == JSI_MAP_TREE ? 4 : 1); o++) {
        build(p, k0); int c0 = cnt; mdelete();
        for (pos = 0; pos < c0; pos++)
            for (q = 0; q < 2; q++) {
                build(p, k0); H("iterate(order %d) and %s at %d ", o, q ? "insert" : "delete", pos);
                Jsi_MapSearch s; Jsi_MapEntry *h; int i = 0, c[MAXK]; memset(c, 0, sizeof(c));
                for (h = Jsi_MapSearchFirst(m, &s, order(o)); h; h = Jsi_MapSearchNext(&s), i++) {
                    int k = keyindex(Jsi_MapKeyGet(h, 0));
                    if (k < 0 || (!has[k])) fail("iteration yields an absent entry");
                    if (c[k]++) fail("iteration yields key %d twice", k);
                    if (i > c0 + 1) fail("iteration does not end");
                    if (i == pos) {
                        if (q == 0) munset(k, 1);
                        else { int f; for (f = base; f < base+k0; f++) if (!has[f]) break; if (f < base+k0 && maptype == JSI_MAP_TREE) mset(f, 0); }
                        ntrans++;
                    }
                }
                Jsi_MapSearchDone(&s);
                if (maptype == JSI_MAP_HASH && q == 0 && i != c0) fail("iteration ended after %d of %d entries", i, c0);
                verify(); mdelete();
            }
    }
}
static void bfs(int k0, u64 maxstates) {
    path e = {NULL, 0}; int op, nops = 4*k0+1; u64 i;
    clearseen(); clearq(); push(NULL, 0, -1);
    build(e, k0); verify(); encode(); seen(enc); nstates++; mdelete();
    while (qh < qt) {
        path p = queue[qh++];
        for (op = 0; op < nops; op++) {
            build(p, k0); apply(op, k0); ntrans++;
            verify(); encode();
            int isnew = !seen(enc);
            mdelete();
            if (isnew) { nstates++; push(p.op, p.n, op); if (maxstates && nstates > maxstates) { printf("TRUNCATED\n"); return; } }
        }
        if (maptype == JSI_MAP_TREE || base < 20) iterdelete(p, k0);
    }
    (void)i;
}
/* ---------------------------------------------------------------- big sizes */
static int perm(int kind, int i, int n) {
    int a, b;
    switch (kind) {
        case 0: return i; case 1: return n-1-i; case 2: return i & 1 ? n-1-i/2 : i/2;
        case 3: for (a = 1; a < n; a *= 2); for (b = 0; a > 1; a /= 2, i /= 2) b = b*2 + (i & 1); return b;   /* bit reversed (may be >= n) */
        case 4: return (int)(((u64)i*7919) % n); case 5: return i < n/2 ? n/2-1-i : i;
    }
    return 0;
}
static void sizes(int n) {
    int ci, cd, i, step; mkkeys(n); base = 0; fullorders = 1;
    for (ci = 0; ci < 6; ci++) for (cd = 0; cd < 6; cd++) for (step = 0; step < 2; step++) {
        histn = 0; mapnew(); H("insert %d in order %d%s", n, ci, step ? "" : ", clear, again");
        for (i = 0; i < 4*n; i++) { int k = ci == 3 ? perm(3, i, n) : (i < n ? perm(ci, i, n) : n); if (k < n && !has[k]) mset(k, i & 1); ntrans++; if (ci != 3 && i >= n) break; if (cnt == n) break; }
        for (i = 0; i < n; i++) if (!has[i]) mset(i, 0);
        verify(); nstates++;
        if (!step) {
            mclear(); verify();
            for (i = 0; i < n; i++) { mset(perm(ci == 3 ? 4 : ci, i, n), 0); ntrans++; }
            for (i = 0; i < n; i++) if (!has[i]) mset(i, 0);
            verify();
        }
        H(", delete in order %d", cd);
        int del = 0;
        for (i = 0; i < 4*n && cnt; i++) { int k = cd == 3 ? perm(3, i, n) : perm(cd, i % n, n); if (k < n && has[k]) { munset(k, i & 1); ntrans++; if (++del % (n/5+1) == 0) { verify(); nstates++; } } }
        for (i = 0; i < n; i++) if (has[i]) munset(i, 0);
        verify(); mset(0, 0); verify(); mdelete();
    }
}
/* comparing is a total order: exactly one of <, =, > and transitive, = only for equal keys (through the map alone) */
static void pairs(void) {
    int i, j, k, p; int n = sizeof(odd)/sizeof(odd[0]); keyset = "odd"; mkkeys(n); base = 0; fullorders = 0;
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) for (k = 0; k < n; k++) for (p = 0; p < 2; p++) {
        histn = 0; mapnew(); H("set '%s' set '%s' set '%s'%s ", skey[i], skey[j], skey[k], p ? " unset second" : "");
        mset(i, 0); mset(j, 0); mset(k, 0); if (p) munset(j, 0);
        ntrans += 3; nstates++; verify(); mdelete();
    }
}
/* the comparison itself: all strings up to length n over an alphabet, all pairs and triples */
static void dict(int n, const char *alpha, int mode) {
    static char str[700][8]; int cntS = 0, i, j, k, al = strlen(alpha); static signed char c[700][700];
    for (i = 0; i <= n; i++) { int tot = 1; for (j = 0; j < i; j++) tot *= al; for (j = 0; j < tot && cntS < 700; j++) { int x = j; for (k = 0; k < i; k++, x /= al) str[cntS][k] = alpha[x % al]; str[cntS++][i] = 0; } }
    for (i = 0; i < cntS; i++) for (j = 0; j < cntS; j++) { int r = Jsi_StrcmpDict(str[i], str[j], mode == 1, mode == 2); c[i][j] = r < 0 ? -1 : r > 0; ntrans++; }
    for (i = 0; i < cntS; i++) for (j = 0; j < cntS; j++) {
        histn = 0; H("'%s' '%s' ", str[i], str[j]);
        if (c[i][j] != -c[j][i]) fail("compare %d one way, %d the other", c[i][j], c[j][i]);
        if (mode == 0 && (c[i][j] == 0) != (i == j)) fail("compare %d", c[i][j]);
        if (i == j && c[i][j]) fail("differs from itself");
        for (k = 0; k < cntS; k++) if (c[i][j] <= 0 && c[j][k] <= 0 && (c[i][k] > 0 || (c[i][k] == 0 && (c[i][j] < 0 || c[j][k] < 0)))) fail("'%s': not transitive", str[k]);
        nstates++;
    }
}
/* ---------------------------------------------------------------- lists */
static Jsi_List *L[2]; static Jsi_ListEntry *stash[8]; static int stashv[8], stashn;
static int ml[2][16], mln[2]; static int lid;
static Jsi_ListEntry *nth(int l, int i) { Jsi_ListEntry *e = L[l]->head; while (i-- > 0 && e) e = e->next; return e; }
static Jsi_RC lfree(Jsi_Interp *ip, Jsi_ListEntry *h, void *v) { (void)ip; (void)h; freed[(int)(intptr_t)v]++; return JSI_OK; }
static void lnew(void) {
    int i; for (i = 0; i < 2; i++) { L[i] = Jsi_ListNew(NULL, 0, (Jsi_HashDeleteProc*)lfree); mln[i] = 0; }
    stashn = 0; lid = 1; memset(freed, 0, sizeof(int)*200);
}
static void lverify(void) {
    int l, i;
    for (l = 0; l < 2; l++) {
        Jsi_ListSearch s; Jsi_ListEntry *e; int n = 0;
        if ((int)Jsi_ListSize(L[l]) != mln[l]) fail("list %d: size %d, expected %d", l, (int)Jsi_ListSize(L[l]), mln[l]);
        if (!mln[l]) { if (Jsi_ListGetFront(L[l])) fail("empty list has a front"); continue; }
        for (e = Jsi_ListSearchFirst(L[l], &s, 0); e; e = Jsi_ListSearchNext(&s)) {
            if (n >= mln[l] || (int)(intptr_t)Jsi_ListValueGet(e) != ml[l][n]) fail("list %d: forward element %d", l, n);
            n++;
        }
        if (n != mln[l]) fail("list %d: forward iteration yields %d of %d", l, n, mln[l]);
        for (n = mln[l], e = Jsi_ListSearchFirst(L[l], &s, JSI_LIST_REVERSE); e; e = Jsi_ListSearchNext(&s)) {
            if (n <= 0) fail("list %d: reverse iteration goes beyond the front", l);
            --n;
            if ((int)(intptr_t)Jsi_ListValueGet(e) != ml[l][n]) fail("list %d: reverse element %d", l, n);
        }
        if (n) fail("list %d: reverse iteration misses %d", l, n);
        if ((int)(intptr_t)Jsi_ListValueGet(Jsi_ListGetFront(L[l])) != ml[l][0] || (int)(intptr_t)Jsi_ListValueGet(Jsi_ListGetBack(L[l])) != ml[l][mln[l]-1]) fail("list %d: front or back", l);
    }
    for (i = 1; i < lid; i++) if (freed[i] > 1) fail("value %d released twice", i);
}
static void ins(int l, int at, int v) { int i; for (i = mln[l]; i > at; i--) ml[l][i] = ml[l][i-1]; ml[l][at] = v; mln[l]++; }
static void del(int l, int at) { int i; for (i = at; i+1 < mln[l]; i++) ml[l][i] = ml[l][i+1]; mln[l]--; }
/* op: list(2) x kind(12) x index(4); returns 0 if not applicable */
static int lmax = 4;
static int lop(int op) {
    int l = op & 1, kind = (op >> 1) % 12, i = (op >> 1) / 12; Jsi_ListEntry *e;
    int tot = mln[0] + mln[1] + stashn;
    switch (kind) {
        case 0: if (i || tot >= lmax) return 0; H("L%d.pushFront%d ", l, lid); Jsi_ListPushFrontNew(L[l], (void*)(intptr_t)lid); ins(l, 0, lid++); break;
        case 1: if (i || tot >= lmax) return 0; H("L%d.pushBack%d ", l, lid); Jsi_ListPushBackNew(L[l], (void*)(intptr_t)lid); ins(l, mln[l], lid++); break;
        case 2: if (i >= mln[l] || tot >= lmax) return 0; H("L%d.insert%d before #%d ", l, lid, i); Jsi_ListEntryNew(L[l], (void*)(intptr_t)lid, nth(l, i)); ins(l, i, lid++); break;
        case 3: if (i >= mln[l]) return 0; H("L%d.pop #%d ", l, i); e = nth(l, i); if (Jsi_ListPop(L[l], e) != e) fail("pop returned another entry"); stash[stashn] = e; stashv[stashn++] = ml[l][i]; del(l, i); break;
        case 4: if (i || !mln[l]) return 0; H("L%d.popFront ", l); e = Jsi_ListPopFront(L[l]); stash[stashn] = e; stashv[stashn++] = ml[l][0]; if ((int)(intptr_t)Jsi_ListValueGet(e) != ml[l][0]) fail("popFront"); del(l, 0); break;
        case 5: if (i || !mln[l]) return 0; H("L%d.popBack ", l); e = Jsi_ListPopBack(L[l]); stash[stashn] = e; stashv[stashn++] = ml[l][mln[l]-1]; if ((int)(intptr_t)Jsi_ListValueGet(e) != ml[l][mln[l]-1]) fail("popBack"); del(l, mln[l]-1); break;
        case 6: if (i || !stashn) return 0; H("L%d.pushFront popped ", l); Jsi_ListPushFront(L[l], stash[stashn-1]); ins(l, 0, stashv[--stashn]); break;
        case 7: if (i || !stashn) return 0; H("L%d.pushBack popped ", l); Jsi_ListPushBack(L[l], stash[stashn-1]); ins(l, mln[l], stashv[--stashn]); break;
        case 8: if (i || !stashn || l) return 0; H("delete popped "); Jsi_ListEntryDelete(stash[--stashn]); break;
        case 9: if (i >= mln[l]) return 0; H("L%d.delete #%d ", l, i); Jsi_ListEntryDelete(nth(l, i)); del(l, i); break;
        case 10: { if (i) return 0; int j; H("L%d.clear ", l); Jsi_ListClear(L[l]); for (j = 0; j < mln[l]; j++) if (freed[ml[l][j]] != 1) fail("clear released value %d %d times", ml[l][j], freed[ml[l][j]]); mln[l] = 0; break; }
        case 11: if (i >= mln[l] || (i == 0 && mln[l] == 1 && 0)) return 0; H("L%d.move #%d to the back ", l, i); e = nth(l, i); { int v = ml[l][i]; Jsi_ListPush(L[l], e, NULL); del(l, i); ins(l, mln[l], v); } break;
    }
    return 1;
}
static void lend(void) { int i; while (stashn) Jsi_ListEntryDelete(stash[--stashn]); for (i = 0; i < 2; i++) { int j; Jsi_ListDelete(L[i]); for (j = 0; j < mln[i]; j++) if (freed[ml[i][j]] != 1) fail("delete released value %d %d times", ml[i][j], freed[ml[i][j]]); } }
static void lenc(void) {
    /* values renamed by first appearance: which entry is which does not matter to the code */
    int l, i, r[64], n = 0; memset(r, 0, sizeof(r)); encn = 0;
    for (l = 0; l < 2; l++) {
        Jsi_ListEntry *e; encn += sprintf(enc+encn, "|");
        for (i = 0, e = L[l]->head; e && i < mln[l]; e = e->next, i++) encn += sprintf(enc+encn, "%c%c", e->prev ? 'p' : '0', e->list == L[l] ? 's' : 'o');
        encn += sprintf(enc+encn, "%c", L[l]->tail ? 't' : '0');
    }
    for (i = 0; i < stashn; i++) encn += sprintf(enc+encn, "S%d", stash[i]->list == L[1]);
    (void)r; (void)n;
}
static void lists(int depth) {
    path e = {NULL, 0}; int op; clearseen(); clearq(); push(NULL, 0, -1); (void)e;
    lnew(); lenc(); seen(enc); nstates++; lend();
    while (qh < qt) {
        path p = queue[qh++]; int i;
        if (p.n >= depth) continue;
        for (op = 0; op < 2*12*lmax; op++) {
            histn = 0; hist[0] = 0; lnew();
            for (i = 0; i < p.n; i++) lop(p.op[i]);
            if (lop(op)) { ntrans++; lverify(); lenc(); if (!seen(enc)) { nstates++; push(p.op, p.n, op); } }
            lend();
        }
    }
}
/* ---------------------------------------------------------------- stacks: all sequences */
static void stackcase(int pre, int *ops, int n) {
    Jsi_Stack *s = Jsi_StackNew(); static int q[4096]; int h = 0, t = 0, i, id = 1; histn = 0; hist[0] = 0; H("%d pushed ", pre);
    for (i = 0; i < pre; i++) { Jsi_StackPush(s, (void*)(intptr_t)id); q[t++] = id++; }
    for (i = 0; i < n; i++) {
        void *r; int x;
        switch (ops[i]) {
            case 0: H("push "); Jsi_StackPush(s, (void*)(intptr_t)id); q[t++] = id++; break;
            case 1: H("pop "); r = Jsi_StackPop(s); x = t > h ? q[--t] : 0; if ((intptr_t)r != x) fail("pop"); break;
            case 2: H("unshift "); r = Jsi_StackUnshift(s); x = t > h ? q[h++] : 0; if ((intptr_t)r != x) fail("unshift"); break;
        }
        if ((intptr_t)Jsi_StackPeek(s) != (t > h ? q[t-1] : 0)) fail("peek");
        if ((intptr_t)Jsi_StackHead(s) != (t > h ? q[h] : 0)) fail("head");
        if (Jsi_StackSize(s) != t-h) fail("size");
        ntrans++;
    }
    while (t > h) { if ((intptr_t)Jsi_StackPop(s) != q[--t]) fail("content"); }
    nstates++; Jsi_StackFree(s);
}
static void stacks(int depth) {
    static int pre[] = {0, 1, 18, 19, 20, 21, 39, 41, 42, 43, 83, 84, 85, 86}; int a, i, j, n = 1, ops[16];
    for (i = 0; i < depth; i++) n *= 3;
    for (a = 0; a < (int)(sizeof(pre)/sizeof(pre[0])); a++) for (i = 0; i < n; i++) { int x = i; for (j = 0; j < depth; j++, x /= 3) ops[j] = x % 3; stackcase(pre[a], ops, depth); }
}
/* ---------------------------------------------------------------- dynamic strings: all sequences */
static int dlen[] = {0, 1, 5, 150, 198, 199, 200, 201, 202, 399, 400, 401, 1000, 8190, 8191, 8192, 8193, 16383, 16384, 20000}; static int ndlen = 20;
static char *pat(int n, int salt) { static char b[70000]; int i; for (i = 0; i < n; i++) b[i] = 'a' + (i*7 + i/26 + salt*3) % 26; b[n] = 0; return b; }
static char mod[1<<20]; static int modn;
static void dverify(Jsi_DString *d) {
    char *v = Jsi_DSValue(d);
    if ((int)Jsi_DSLength(d) != modn) fail("length %d, expected %d", (int)Jsi_DSLength(d), modn);
    if (v[modn]) fail("not terminated at %d", modn);
    if (memcmp(v, mod, modn)) { int i = 0; while (v[i] == mod[i]) i++; fail("content differs at byte %d of %d", i, modn); }
}
/* kinds: append, appendLen (with a NUL inside), printf, setLength(shorter), setLength(longer), set, free, freedup, append three strings */
#define DK 9
static void dop(Jsi_DString *d, int kind, int len, int step) {
    char *p = pat(len, step), *r; 
    switch (kind) {
        case 0: H("append(%d) ", len); r = Jsi_DSAppend(d, p, NULL); memcpy(mod+modn, p, len); modn += len; if (memcmp(r, mod, modn)) fail("returned string"); break;
        case 1: { static char q[70000]; H("appendLen(%d) ", len); memcpy(q, p, len); if (len > 2) q[len/2] = 0; q[len] = 'X'; Jsi_DSAppendLen(d, q, len); memcpy(mod+modn, q, len); modn += len; break; }
        case 2: H("printf(%d) ", len); r = Jsi_DSPrintf(d, "%s", p); memcpy(mod+modn, p, len); modn += len; if (memcmp(r, mod, modn)) fail("returned string"); break;
        case 3: { int n = modn > len ? modn - len : modn/2; H("setLength(%d) ", n); Jsi_DSSetLength(d, n); modn = n; break; }
        case 4: H("setLength(+%d) ", len); Jsi_DSSetLength(d, modn + len); break;
        case 5: H("set(%d) ", len); Jsi_DSSet(d, p); memcpy(mod, p, len); modn = len; break;
        case 6: H("free "); Jsi_DSFree(d); modn = 0; break;
        case 7: H("freeDup "); r = Jsi_DSFreeDup(d); if (memcmp(r, mod, modn) || r[modn]) fail("freeDup returned another string"); Jsi_Free(r); modn = 0; break;
        case 8: H("append(%d,1,%d) ", len, len/2); Jsi_DSAppend(d, p, "#", p + len - len/2, NULL); memcpy(mod+modn, p, len); modn += len; mod[modn++] = '#'; memcpy(mod+modn, p+len-len/2, len/2); modn += len/2; break;
    }
}
static void dcase(int init, int *ops, int n) {
    Jsi_DString d = {}; Jsi_DString e = {"Here is"}; JSI_DSTRING_VAR(big, 1001); Jsi_DString f; Jsi_DSInit(&f); Jsi_DString *s; int i;
    static const char longinit[] = "01234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789";
    Jsi_DString g = {longinit};
    big->spaceAvl = 0;
    histn = 0; hist[0] = 0; modn = 0; 
    switch (init) { case 0: s = &d; H("{} "); break; case 1: s = &e; H("{\"Here is\"} "); strcpy(mod, "Here is"); modn = 7; break; case 2: s = big; H("VAR(1001) "); break; case 3: s = &f; H("init "); break;
        default: s = &g; H("{\"(230 bytes)\"} "); strcpy(mod, longinit); modn = strlen(longinit); }
    if (init == 1 || init == 4) dverify(s);
    for (i = 0; i < n; i++) { dop(s, ops[i] % DK, dlen[ops[i] / DK], i); dverify(s); ntrans++; }
    nstates++; Jsi_DSFree(s);
}
static void dstrings(int depth, int nl, int only) {
    int n = DK * nl, tot = 1, i, j, init, ops[8]; for (i = 0; i < depth; i++) tot *= n;
    for (init = 0; init < 5; init++) if (!only || init == only-1) for (i = 0; i < tot; i++) { int x = i, skip = 0; for (j = 0; j < depth; j++, x /= n) { ops[j] = x % n; if ((ops[j] % DK == 6 || ops[j] % DK == 7) && ops[j] / DK) skip = 1; } if (!skip) dcase(init, ops, depth); }
}

int main(int argc, char **argv) {
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(death);
    signal(SIGABRT, onabrt); if (!__sanitizer_set_death_callback) signal(SIGSEGV, onabrt);
    setvbuf(stdout, NULL, _IOFBF, 1<<16);
    char name[200] = ""; int i; for (i = 1; i < argc; i++) { strcat(name, i > 1 ? " " : ""); strcat(name, argv[i]); } modename = name;
    const char *c = argv[1];
#define A(n) (argc > n ? atoi(argv[n]) : 0)
    (void)fakeinterp; (void)peak; (void)quiet;
    if (!strcmp(c, "tree") || !strcmp(c, "hash")) {     /* tree KEYTYPE NKEYS BASE KEYSET */
        maptype = *c == 't' ? JSI_MAP_TREE : JSI_MAP_HASH; keytype = A(2); base = A(4); if (argc > 5) keyset = argv[5];
        mkkeys(A(3) + base); bfs(A(3), 0);
    } else if (!strcmp(c, "sizes")) { maptype = A(2); keytype = A(3); if (argc > 5) keyset = argv[5]; sizes(A(4)); }
    else if (!strcmp(c, "pairs")) { maptype = A(2); keytype = A(3); pairs(); }
    else if (!strcmp(c, "dict")) dict(A(2), argv[3], A(4));
    else if (!strcmp(c, "list")) { lmax = A(3); lists(A(2)); }
    else if (!strcmp(c, "stack")) stacks(A(2));
    else if (!strcmp(c, "dstring")) { if (A(3) < 20) { static int sel[] = {0, 5, 199, 200, 8192, 20000, 201, 8191}; for (i = 0; i < 8; i++) dlen[i] = sel[i]; } dstrings(A(2), A(3), A(4)); }
    printf("STAT %llu %llu\n", nstates, ntrans);
    fflush(stdout); _exit(0);
}
