/* D01, D02, D04, D07: operation histories on the real key-value store against an ordered-map model.
 * Every history is enumerated; start states are saved as file images and restored before each history. */
#include "dbx.h"
#include <fcntl.h>
#include <sys/mman.h>

static const prof_t P_MID   = { 8, 8,  { 1, 1300, 1290, 1310 }, 0, "8-byte keys, 1300-byte values" };
static const prof_t P_HALF  = { 8, 8,  { 1, 2000, 1990, 2010 }, 0, "8-byte keys, 2000-byte values" };
static const prof_t P_BIG   = { 8, 8,  { 1, 3990, 3900, 3000 }, 0, "8-byte keys, values up to a page" };
static const prof_t P_MIX   = { 4, 60, { -1, -1, -1, -1 },      0, "mixed value sizes 0..3900" };
static const prof_t P_LONG  = { 800, 1000, { 1, 60, 5, 1500 }, 0, "keys of 800..1000 bytes" };
static const prof_t P_LONG2 = { 990, 1000, { 1, 0, 1300, 2900 }, 0, "keys of 990..1000 bytes" };
static const prof_t P_KMIX  = { 4, 1000, { -1, -1, -1, -1 },    0, "mixed key and value sizes" };
static const prof_t P_BYTE  = { 0, 0,  { 1, 900, 2, 1800 },     1, "short binary keys" };
static const prof_t P_BYTE0 = { 0, 0,  { 1, 0, 1, 5 },          1, "short binary keys, tiny values" };
static const prof_t P_TINY  = { 8, 8,  { 1, 8, 9, 24 },         0, "8-byte keys, tiny values" };
static const prof_t P_200   = { 8, 24, { 1, 200, 150, 350 },    0, "8..24-byte keys, 150..350-byte values" };

/* ---- model + store together ---- */
static snap_t COM, CUR;              /* committed, current view of the write transaction */
static unsigned char PUT[NKMAX];     /* put in this transaction */
static napr_db_txn_t *T;
static int nver;                     /* fresh version for the next put: 1..3 cycling per key */

static void w_begin(void) { if (!T) { T = begin_txn(0); CUR = COM; memset(PUT, 0, sizeof PUT); } }
static void w_commit(void)
{
    apr_status_t s;
    if (!T) return;
    s = napr_db_txn_commit(T);
    T = NULL;
    MC_CHECK(s == APR_SUCCESS, "commit gives %s", st(s));
    COM = CUR;
    mc_trans(1);
}
static void w_abort(void)
{
    apr_status_t s;
    if (!T) return;
    s = napr_db_txn_abort(T);
    T = NULL;
    MC_CHECK(s == APR_SUCCESS, "abort gives %s", st(s));
    mc_trans(1);
}
static void w_put(int i, int ver)
{
    napr_db_val_t k, d;
    apr_status_t s;
    w_begin();
    k = K(i); d = V(i, ver);
    s = napr_db_put(T, &k, &d);
    mc_trans(1);
    memset(KB, 0xA5, 64); memset(VB, 0x5A, 64);       /* the store must have its own copy */
    if (PUT[i]) { MC_CHECK(APR_STATUS_IS_EEXIST(s), "putting key %d a second time in one transaction gives %s", i, st(s)); return; }
    MC_CHECK(s == APR_SUCCESS, "put of key %d with %d bytes gives %s", i, val_size(i, ver), st(s));
    CUR.ver[i] = ver; PUT[i] = 1;
}
static void w_del(int i)
{
    napr_db_val_t k;
    apr_status_t s;
    w_begin();
    k = K(i);
    s = napr_db_del(T, &k, NULL);
    mc_trans(1);
    if (!CUR.ver[i]) { MC_CHECK(APR_STATUS_IS_NOTFOUND(s), "delete of absent key %d gives %s", i, st(s)); return; }
    MC_CHECK(s == APR_SUCCESS, "delete of stored key %d gives %s", i, st(s));
    CUR.ver[i] = 0; PUT[i] = 0;
}
static void w_fresh(void) { memset(&COM, 0, sizeof COM); T = NULL; nver = 0; env_fresh(); }
static void w_reopen(void) { env_close(); env_open(); mc_trans(1); }


static void look(napr_db_txn_t *t, const snap_t *m, const char *who, int step)
{
    if (mc_is("D02")) { check_scan(t, m, who); check_scan_back(t, m, who); check_cursor(t, m, who, step); }
    else { check_gets(t, m, who); check_scan(t, m, who); }
    mc_state(snap_hash(m));
}
static void look_txn(int step) { if (T) look(T, &CUR, "inside the write transaction", step); }
static void look_com(const char *who, int step)
{
    napr_db_txn_t *r = begin_txn(NAPR_DB_RDONLY);
    look(r, &COM, who, step);
    MC_CHECK(napr_db_txn_commit(r) == APR_SUCCESS, "ending a read transaction failed");
}
static void finish(int step)              /* end of a history: what is committed must be there now and after reopening */
{
    w_commit();
    look_com("after the commit", step);
    w_reopen();
    look_com("after reopening", step);
    env_close();
    mc_eval(1); mc_trace(1);
    mc_outcome(snap_hash(&COM) ^ (uint64_t) file_pages());
}

/* ---- start states as file images ---- */
typedef struct { unsigned char *img; size_t n; snap_t com; } image_t;
static void img_save(image_t *im)         /* environment must be closed */
{
    int fd = open(DBPATH, O_RDONLY);
    struct stat sb;
    if (fd < 0 || fstat(fd, &sb)) mc_error("image");
    im->n = (size_t) sb.st_size;
    im->img = malloc(im->n);
    if (read(fd, im->img, im->n) != (ssize_t) im->n) mc_error("image read");
    close(fd);
    im->com = COM;
}
static void img_load(const image_t *im)   /* leaves the environment open */
{
    int fd = open(DBPATH, O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || write(fd, im->img, im->n) != (ssize_t) im->n) mc_error("image write");
    close(fd);
    COM = im->com; T = NULL;
    env_open();
}
static void img_free(image_t *im) { free(im->img); im->img = NULL; }

/* fill pattern: order 0 ascending, 1 descending, 2 zigzag, 3 stride 7; which keys: all with (i % m) < q */
static int ord(int o, int n, int j)
{
    switch (o) {
    case 0: return j;
    case 1: return n - 1 - j;
    case 2: return (j & 1) ? n - 1 - j / 2 : j / 2;
    default: return (int) (((long) j * 7) % n);
    }
}
static const char *ON[4] = { "ascending", "descending", "zigzag", "stride-7" };
static void fill(int o, int m, int q, int per_txn)
{
    int j, c = 0;
    for (j = 0; j < NK; j++) {
        int i = ord(o, NK, j);
        if (i % m >= q) continue;
        w_put(i, 1 + (i & 1));
        if (++c % per_txn == 0) w_commit();
    }
    w_commit();
}

/* E1: all sequences of put/delete/commit/abort/reopen */
static void e1(const prof_t *p, int nk, int len, int prefilled)
{
    int nops = 2 * nk + 3, seq[12], d;
    long total = 1, x;
    image_t im;
    PR = p; NK = nk;
    w_fresh();
    if (prefilled) fill(0, 1, 1, prefilled == 1 ? 1 : 1000);
    env_close(); img_save(&im);
    for (d = 0; d < len; d++) total *= nops;
    for (x = 0; x < total; x++) {
        long y = x; int open = 0, skip = 0;
        for (d = 0; d < len; d++) { seq[d] = (int) (y % nops); y /= nops; }
        for (d = 0; d < len; d++) {       /* no-op commits, aborts and reopens give nothing new */
            int o = seq[d];
            if (o < 2 * nk) open = 1;
            else if (o == 2 * nk || o == 2 * nk + 1) { if (!open) { skip = 1; break; } open = 0; }
            else { if (open || d == 0) { skip = 1; break; } }
        }
        if (skip) continue;
        if (!mc_sel()) continue;
        mc_desc("%s, %d keys %s:", p->name, nk, prefilled ? prefilled == 1 ? "stored one per transaction" : "stored in one transaction" : "(empty store)");
        for (d = 0; d < len; d++) {
            int o = seq[d];
            if (o < nk) mc_desc_add(" put(%d)", o); else if (o < 2 * nk) mc_desc_add(" del(%d)", o - nk);
            else mc_desc_add(o == 2 * nk ? " commit" : o == 2 * nk + 1 ? " abort" : " reopen");
        }
        img_load(&im);
        for (d = 0; d < len; d++) {
            int o = seq[d];
            if (o < nk) w_put(o, 1 + d % 3);
            else if (o < 2 * nk) w_del(o - nk);
            else if (o == 2 * nk) { w_commit(); look_com("after a commit", 1); }
            else if (o == 2 * nk + 1) { w_abort(); look_com("after an abort", 1); }
            else w_reopen();
        }
        look_txn(1);
        finish(1);
        if (x % 40009 == 7) mc_sample("%s", mc_desc_get());
    }
    img_free(&im);
}

/* E2: all insertion orders, with all deletion orders of a family and reinsertion */
static int PERM[10];
static int next_perm(int n)
{
    int i = n - 2, j, a, b, t;
    while (i >= 0 && PERM[i] > PERM[i + 1]) i--;
    if (i < 0) return 0;
    for (j = n - 1; PERM[j] < PERM[i]; j--) ;
    t = PERM[i]; PERM[i] = PERM[j]; PERM[j] = t;
    for (a = i + 1, b = n - 1; a < b; a++, b--) { t = PERM[a]; PERM[a] = PERM[b]; PERM[b] = t; }
    return 1;
}
static void e2(const prof_t *p, int n)
{
    int pat, j;
    PR = p; NK = n;
    snprintf(DBPATH, sizeof DBPATH, "%s/t.db", mc_dir);
    for (pat = 0; pat < 3; pat++) {
        for (j = 0; j < n; j++) PERM[j] = j;
        do {
            if (!mc_sel()) continue;
            mc_desc("%s, insertion order", p->name);
            for (j = 0; j < n; j++) mc_desc_add(" %d", PERM[j]);
            mc_desc_add(pat == 0 ? " in one transaction" : pat == 1 ? ", one transaction each" : ", transactions of three");
            w_fresh();
            for (j = 0; j < n; j++) { w_put(PERM[j], 1 + (j & 1)); if (pat == 1 || (pat == 2 && j % 3 == 2)) w_commit(); }
            look_txn(1);
            w_commit();
            look_com("after the commit", 1);
            mc_desc_add("; then deletions in the same order");
            for (j = 0; j < n; j++) { w_del(PERM[j]); look_txn(1); if (pat == 1 || (pat == 2 && j % 3 == 2)) w_commit(); }
            w_commit();
            look_com("after deleting all", 1);
            mc_desc_add("; then reinsertion in reverse order");
            for (j = n - 1; j >= 0; j--) { w_put(PERM[j], 3); if (pat == 1) w_commit(); }
            mc_desc_add("; every second key deleted");
            w_commit();
            for (j = 0; j < n; j += 2) w_del(PERM[j]);
            look_txn(1);
            finish(1);
        } while (next_perm(n));
    }
}

/* E4: many-level trees, then all single operations and pairs (triples) of operations on every key */
static void e4(const prof_t *p, int nk, int o, int m, int q, int len, int step)
{
    image_t im;
    int a[3], d;
    long x, total = 1, per = 2 * nk;
    PR = p; NK = nk;
    w_fresh();
    fill(o, m, q, 5);
    env_close(); img_save(&im);
    for (d = 0; d < len; d++) total *= per;
    for (x = 0; x < total; x++) {
        long y = x; int mask;
        for (d = 0; d < len; d++) { a[d] = (int) (y % per); y /= per; }
        for (mask = 0; mask < (1 << (len - 1)); mask++) {
            if (!mc_sel()) continue;
            mc_desc("%s, %d keys, those with number %% %d < %d stored %s:", p->name, nk, m, q, ON[o]);
            for (d = 0; d < len; d++) mc_desc_add(" %s(%d)%s", a[d] < nk ? "put" : "del", a[d] % nk, d < len - 1 && (mask >> d & 1) ? " commit" : "");
            img_load(&im);
            for (d = 0; d < len; d++) {
                if (a[d] < nk) w_put(a[d], 3); else w_del(a[d] - nk);
                if (d < len - 1 && (mask >> d & 1)) w_commit();
            }
            look_txn(step);
            finish(step);
        }
    }
    img_free(&im);
}

/* E5: contiguous ranges and all subsets deleted, then looked at, then keys put back */
static void e5(const prof_t *p, int nk, int o, int subsets)
{
    image_t im;
    int a, b, i, back;
    PR = p; NK = nk;
    w_fresh();
    fill(o, 1, 1, 4);
    env_close(); img_save(&im);
    for (back = 0; back < 3; back++) {
        if (!subsets) {
            for (a = 0; a < nk; a++) for (b = a; b < nk; b++) {
                if (!mc_sel()) continue;
                mc_desc("%s, %d keys stored %s, keys %d..%d deleted (%s)", p->name, nk, ON[o], a, b, back == 0 ? "ascending" : back == 1 ? "descending" : "one per transaction");
                img_load(&im);
                for (i = a; i <= b; i++) { w_del(back == 1 ? b - (i - a) : i); if (back == 2) w_commit(); }
                look_txn(1);
                w_commit();
                look_com("after the deletions", 1);
                w_put((a + b) / 2, 2);
                look_txn(1);
                finish(1);
            }
        } else {
            for (a = 0; a < (1 << nk); a++) {
                if (!mc_sel()) continue;
                mc_desc("%s, %d keys stored %s, subset 0x%x deleted (%s)", p->name, nk, ON[o], a, back == 0 ? "ascending" : back == 1 ? "descending" : "one per transaction");
                img_load(&im);
                for (i = 0; i < nk; i++) { int k = back == 1 ? nk - 1 - i : i; if (a >> k & 1) { w_del(k); if (back == 2) w_commit(); } }
                look_txn(1);
                finish(1);
            }
        }
    }
    img_free(&im);
}

/* E6: large trees */
static void e6(const prof_t *p, int nk, int o, int per, int ver)
{
    int j, c;
    static const char *DN[4] = { "every second key", "all but every 50th key", "the middle half", "all keys" };
    if (!mc_sel_weighted(300)) return;
    PR = p; NK = nk;
    mc_desc("%s, %d keys stored %s, %d per transaction", p->name, nk, ON[o], per);
    w_fresh();
    for (j = 0, c = 0; j < nk; j++) { w_put(ord(o, nk, j), ver); if (++c % per == 0) w_commit(); if (c == nk / 2) look_txn(37); }
    look_txn(37);
    w_commit();
    look_com("after filling", 37);
    for (c = 0; c < 4; c++) {
        mc_desc_add("; %s deleted", DN[c]);
        for (j = 0; j < nk; j++) {
            int i = ord((o + c) & 3, nk, j);
            if (!(T ? CUR.ver[i] : COM.ver[i])) continue;
            if (c == 0 ? i & 1 : c == 1 ? i % 50 != 0 : c == 2 ? i > nk / 4 && i < nk * 3 / 4 : 1) { w_del(i); if (j % per == 0) w_commit(); }
        }
        look_txn(37);
        w_commit();
        look_com("after the deletions", 37);
        w_reopen();
        for (j = 0; j < nk; j++) { int i = ord((o + c + 1) & 3, nk, j); if (!(T ? CUR.ver[i] : COM.ver[i])) { w_put(i, 1 + c % 3); if (j % per == 0) w_commit(); } }
        w_commit();
        look_com("after putting them back", 37);
    }
    finish(37);
    mc_sample("%s", mc_desc_get());
}

/* E7: sizes at the limits: everything up to the documented sizes is stored, what is refused changes nothing */
static void e7(void)
{
    static const int KL[] = { 0, 1, 2, 15, 100, 900, 1000, 1003, 1004, 1005, 1006, 1007, 1008, 1009, 1010, 1011, 1012, 1200, 1300, 1347, 1348, 2000, 4000, 4060, 4096, 5000, 65535, 65536, 65540 };
    static const int VL[] = { 0, 1, 100, 2000, 2640, 2700, 2728, 2729, 2730, 2740, 3900, 4000, 4030, 4040, 4050, 4055, 4060, 4064, 4066, 4068, 4070, 4071, 4072, 4073, 4074, 4075, 4076, 4077, 4078, 4079, 4080, 4096, 5000, 65535, 65536, 65540 };
    unsigned a, b, pre, pos, end;
    static unsigned char kb[70000], vb[70000];
    PR = &P_MID; NK = 7;
    snprintf(DBPATH, sizeof DBPATH, "%s/t.db", mc_dir);
    for (pre = 0; pre < 2; pre++) for (pos = 0; pos < 3; pos++) for (a = 0; a < sizeof KL / sizeof *KL; a++) for (b = 0; b < sizeof VL / sizeof *VL; b++) for (end = 0; end < 2; end++) {
        napr_db_val_t k, d, g;
        apr_status_t s;
        int i;
        if (!mc_sel()) continue;
        mc_desc("%s, then a pair of %d + %d bytes at %s, then %s", pre ? "7 pairs stored" : "empty store", KL[a], VL[b], pos == 0 ? "the front" : pos == 1 ? "the middle" : "the end", end ? "more puts" : "commit");
        w_fresh();
        if (pre) fill(0, 1, 1, 100);
        w_begin();
        for (i = 0; i < VL[b]; i++) vb[i] = (unsigned char) (i * 31 + 7);
        memset(kb, pos == 0 ? '!' : pos == 1 ? '0' : '~', sizeof kb);
        if (pos == 1) { memcpy(kb, "0003~", 5); }
        k.data = kb; k.size = (apr_size_t) KL[a]; d.data = vb; d.size = (apr_size_t) VL[b];
        s = napr_db_put(T, &k, &d);
        mc_trans(1);
        if (KL[a] <= 1000 && KL[a] + VL[b] <= 4000)
            MC_CHECK(s == APR_SUCCESS, "a pair of %d + %d bytes is refused (%s)", KL[a], VL[b], st(s));
        for (i = 0; i < 2 + (int) end; i++) {
            napr_db_txn_t *t = T;
            if (i == 0) ;
            else if (i == 1) { if (end) { int j; for (j = 0; j < NK; j++) if (!CUR.ver[j]) w_put(j, 1); } w_commit(); t = begin_txn(NAPR_DB_RDONLY); }
            else { w_reopen(); t = begin_txn(NAPR_DB_RDONLY); }
            if (pos == 1 && KL[a] < 5) goto skipscan;           /* prefix of a stored key: position differs */
            if (s != APR_SUCCESS || !pre) check_gets(t, i ? &COM : &CUR, "other keys");
            if (s != APR_SUCCESS) check_scan(t, i ? &COM : &CUR, "after a refused put");
        skipscan:
            k.data = kb; k.size = (apr_size_t) KL[a];
            if (s == APR_SUCCESS) {
                MC_CHECK(napr_db_get(t, &k, &g) == APR_SUCCESS && g.size == (apr_size_t) VL[b] && (g.size == 0 || !memcmp(g.data, vb, g.size)), "the accepted pair of %d + %d bytes is not returned", KL[a], VL[b]);
                check_gets(t, i ? &COM : &CUR, "other keys");
            } else
                MC_CHECK(APR_STATUS_IS_NOTFOUND(napr_db_get(t, &k, &g)), "the refused key of %d bytes is found", KL[a]);
            if (i) napr_db_txn_commit(t);
        }
        env_close();
        mc_eval(1); mc_trace(1);
        mc_outcome(mc_hash(&s, sizeof s, (uint64_t) (KL[a] * 70000L + VL[b])));
    }
}

/* E8: conditional delete, deletes and updates with every pair of sizes */
static void e8(void)
{
    static const int SZ[] = { 0, 1, 7, 8, 9, 100, 900, 1300, 1360, 2000, 2700, 3900, 4000 };
    int a, b, i, pos, nb, how;
    static unsigned char v1[5000], v2[5000];
    PR = &P_MID;
    snprintf(DBPATH, sizeof DBPATH, "%s/t.db", mc_dir);
    for (i = 0; i < 5000; i++) { v1[i] = (unsigned char) (i * 7 + 1); v2[i] = (unsigned char) (i * 13 + 5); }
    for (nb = 0; nb < 4; nb++) for (pos = 0; pos <= nb; pos++) for (a = 0; a < 13; a++) for (b = 0; b < 13; b++) for (how = 0; how < 4; how++) {
        napr_db_val_t k, d, g;
        apr_status_t s;
        unsigned char xb[32];
        NK = 4;
        if (!mc_sel()) continue;
        mc_desc("%d neighbours, key before neighbour %d: %d bytes, then %s", nb, pos, SZ[a],
                how == 0 ? "updated" : how == 1 ? "updated in the next transaction" : how == 2 ? "deleted if equal to its value" : "deleted if equal to another value");
        mc_desc_add(" (%d bytes)", SZ[b]);
        w_fresh();
        w_begin();
        for (i = 0; i < nb; i++) w_put(i, 1);
        k.data = xb; k.size = (apr_size_t) sprintf((char *) xb, "%04d", pos - 1);
        if (pos) strcat((char *) xb, "~"), k.size++; else { xb[0] = '!'; k.size = 1; }
        d.data = v1; d.size = (apr_size_t) SZ[a];
        MC_CHECK(napr_db_put(T, &k, &d) == APR_SUCCESS, "put of %d bytes fails", SZ[a]);
        w_commit();
        w_begin();
        if (how <= 1) {
            d.data = v2; d.size = (apr_size_t) SZ[b];
            s = napr_db_put(T, &k, &d);
            MC_CHECK(s == APR_SUCCESS, "update with %d bytes gives %s", SZ[b], st(s));
            if (how == 1) { w_commit(); w_begin(); d.data = v1; s = napr_db_put(T, &k, &d); MC_CHECK(s == APR_SUCCESS, "second update gives %s", st(s)); d.data = v1; }
        } else {
            int same;
            d.data = how == 2 ? v1 : v2; d.size = (apr_size_t) SZ[b];
            same = SZ[a] == SZ[b] && (SZ[a] == 0 || memcmp(v1, d.data, (size_t) SZ[a]) == 0);
            s = napr_db_del(T, &k, &d);
            if (same) MC_CHECK(s == APR_SUCCESS, "conditional delete with the stored value gives %s", st(s));
            else MC_CHECK(APR_STATUS_IS_NOTFOUND(s), "conditional delete with another value gives %s", st(s));
            if (same) d.data = NULL; else { d.data = v1; d.size = (apr_size_t) SZ[a]; }
        }
        for (i = 0; i < 3; i++) {
            napr_db_txn_t *t = i ? begin_txn(NAPR_DB_RDONLY) : T;
            s = napr_db_get(t, &k, &g);
            if (d.data == NULL) MC_CHECK(APR_STATUS_IS_NOTFOUND(s), "the deleted key gives %s", st(s));
            else MC_CHECK(s == APR_SUCCESS && g.size == d.size && (g.size == 0 || !memcmp(g.data, d.data, g.size)), "the key does not return its last value (%s)", st(s));
            check_gets(t, i ? &COM : &CUR, "neighbours");
            if (i) napr_db_txn_commit(t);
            if (i == 0) w_commit(); else if (i == 1) w_reopen();
        }
        env_close();
        mc_eval(1); mc_trace(1); mc_trans(3);
    }
}

/* E8b: conditional delete with a value that differs from the stored one in a single byte */
static void e8b(void)
{
    static const int SZ[] = { 1, 2, 8, 40, 130, 300, 1300, 3900 };
    int a, i, at;
    static unsigned char v1[5000], v2[5000];
    PR = &P_MID;
    snprintf(DBPATH, sizeof DBPATH, "%s/t.db", mc_dir);
    for (i = 0; i < 5000; i++) v1[i] = (unsigned char) (i * 7 + 1);
    for (a = 0; a < 8; a++) for (at = 0; at < SZ[a]; at += SZ[a] > 300 && at > 20 && at < SZ[a] - 20 ? 13 : 1) {
        napr_db_val_t k = { .data = (void *) "key", .size = 3 }, d = { .data = v1, .size = (apr_size_t) SZ[a] }, g;
        apr_status_t s;
        NK = 3;
        if (!mc_sel()) continue;
        mc_desc("a value of %d bytes deleted if equal to one that differs in byte %d", SZ[a], at);
        w_fresh();
        fill(0, 1, 1, 10);
        w_begin();
        MC_CHECK(napr_db_put(T, &k, &d) == APR_SUCCESS, "put of %d bytes fails", SZ[a]);
        memcpy(v2, v1, sizeof v2);
        v2[at] ^= at & 1 ? 0x80 : 1;
        d.data = v2;
        s = napr_db_del(T, &k, &d);
        MC_CHECK(APR_STATUS_IS_NOTFOUND(s), "conditional delete with another value gives %s", st(s));
        MC_CHECK(napr_db_get(T, &k, &g) == APR_SUCCESS && g.size == d.size && !memcmp(g.data, v1, g.size), "the value is gone or changed");
        d.data = v1;
        s = napr_db_del(T, &k, &d);
        MC_CHECK(s == APR_SUCCESS, "conditional delete with the stored value gives %s", st(s));
        MC_CHECK(APR_STATUS_IS_NOTFOUND(napr_db_get(T, &k, &g)), "the deleted key is found");
        finish(1);
    }
}
/* E10: keys that agree in their first bytes, every length of the common beginning */
static void e10(void)
{
    int l, o, i;
    for (l = 1; l <= 985; l++) for (o = 0; o < 4; o++) {
        if (!mc_thorough && l > 40 && mc_is("D02") && (l & 7) > 1 && (l & 7) != 7) continue;
        if (!mc_sel()) continue;
        PRE = l; PR = &P_BYTE0; NK = NBYTEKEYS;
        mc_desc("16 short binary keys behind the same %d bytes, stored %s", l, ON[o]);
        w_fresh();
        fill(o, 1, 1, 6);
        for (i = o & 1; i < NK; i += 2) { w_del(i); if (i == 8) look_txn(1); }
        look_txn(1);
        w_commit();
        for (i = 0; i < NK; i += 3) w_put(i, 2);
        finish(1);
        PRE = 0;
    }
    for (l = 100; l <= 990; l += 89) for (o = 0; o < 4; o++) { PRE = l; e6(&P_TINY, 200, o, 13, 1); PRE = 0; }
    for (o = 0; o < 4; o++) { PRE = 900; e5(&P_TINY, 14, o, 0); e4(&P_TINY, 20, o, 2, 1, 1, 1); PRE = 0; }
    PRE = 950; e2(&P_TINY, mc_thorough ? 8 : 6); PRE = 0;
}

/* E9: read transactions and databases opened for reading only refuse every change and leave the file as it is */
static uint64_t file_hash(void)
{
    static unsigned char b[1 << 16]; uint64_t h = 1; ssize_t n; int fd = open(DBPATH, O_RDONLY);
    if (fd < 0) return 0;
    while ((n = read(fd, b, sizeof b)) > 0) h = mc_hash(b, (size_t) n, h);
    close(fd);
    return h;
}
static void e9(const prof_t *p, int nk, int have, int how)
{
    napr_db_val_t k, d; napr_db_txn_t *t, *w = NULL; apr_status_t s; uint64_t h; int i, c;
    if (!mc_sel()) return;
    PR = p; NK = nk;
    mc_desc("%s, %d of %d keys stored, %s", p->name, have, nk, how == 0 ? "changes in a read transaction" : how == 1 ? "opened for reading only" : "opened for reading only (with the create flag)");
    w_fresh();
    w_begin();
    for (i = 0; i < have; i++) w_put(ord(3, nk, i), 1 + i % 3);
    w_commit();
    if (how) {
        env_close();
        h = file_hash();
        s = env_open_st(NAPR_DB_RDONLY | (how == 2 ? NAPR_DB_CREATE : 0));
        MC_CHECK(s == APR_SUCCESS, "opening for reading only gives %s", st(s));
        look_com("opened for reading only", 3);
    } else h = file_hash();
    t = begin_txn(NAPR_DB_RDONLY);
    for (c = 0; c < 2; c++) {
        for (i = 0; i < nk; i += 1 + nk / 9) {
            k = K(i); d = V(i, 2);
            MC_CHECK(napr_db_put(t, &k, &d) != APR_SUCCESS, "a put is accepted in a read transaction");
            k = K(i);
            MC_CHECK(napr_db_del(t, &k, NULL) != APR_SUCCESS, "a delete is accepted in a read transaction");
            mc_trans(2);
        }
        look(t, &COM, "in the read transaction after refused changes", 3);
    }
    if (how) {                                   /* a write transaction fails somewhere and changes nothing */
        s = napr_db_txn_begin(ENV, 0, &w);
        if (s == APR_SUCCESS) {
            k = K(0); d = V(0, 3);
            s = napr_db_put(w, &k, &d);
            if (s == APR_SUCCESS) { s = napr_db_txn_commit(w); MC_CHECK(s != APR_SUCCESS, "a commit succeeds although the database was opened for reading only"); }
            else napr_db_txn_abort(w);
        }
    }
    look(t, &COM, "at the end of the read transaction", 3);
    s = c & 1 ? napr_db_txn_abort(t) : napr_db_txn_commit(t);
    MC_CHECK(s == APR_SUCCESS, "ending the read transaction gives %s", st(s));
    look_com("at the end", 3);
    env_close();
    MC_CHECK(file_hash() == h, "the database file was changed by reading");
    env_open();
    look_com("after reopening", 3);
    env_close();
    mc_eval(1); mc_trace(1);
    mc_outcome(snap_hash(&COM) ^ (uint64_t) how);
}
/* opening what does not exist without the create flag fails and creates nothing */
static void e9_missing(void)
{
    int i;
    for (i = 0; i < 2; i++) {
        apr_status_t s;
        if (!mc_sel()) continue;
        mc_desc("opening a missing file without the create flag%s", i ? ", for reading only" : "");
        snprintf(DBPATH, sizeof DBPATH, "%s/t.db", mc_dir);
        unlink(DBPATH);
        s = env_open_st(i ? NAPR_DB_RDONLY : 0);
        MC_CHECK(s != APR_SUCCESS, "the missing database is opened");
        MC_CHECK(access(DBPATH, F_OK) != 0, "the failing open created the file");
        apr_pool_destroy(EP);
        mc_eval(1);
    }
}
/* E11: keys and values handed to put and del that lie in the store itself, as returned by a lookup or a cursor of the
 * same transaction.  Own model: NA keys with their contents. */
#define NA 4
typedef struct { int n[NA], put[NA]; unsigned char v[NA][4100]; } amod_t;       /* n < 0: absent */
static amod_t AC, AT_;
static int a_key(int i, int kl, unsigned char *b) { memset(b, 'k', (size_t) kl); b[0] = (unsigned char) ('a' + 2 * i); return kl; }
static void a_check(napr_db_txn_t *t, const amod_t *m, int kl, const char *who)
{
    napr_db_cursor_t *c;
    napr_db_val_t k, d;
    unsigned char kb[1100];
    apr_status_t s;
    int i;
    for (i = 0; i < NA; i++) {
        k.size = (apr_size_t) a_key(i, kl, kb); k.data = kb;
        s = napr_db_get(t, &k, &d);
        if (m->n[i] < 0) { MC_CHECK(APR_STATUS_IS_NOTFOUND(s), "%s: get of absent key %d gives %s", who, i, st(s)); continue; }
        MC_CHECK(s == APR_SUCCESS, "%s: get of key %d gives %s", who, i, st(s));
        MC_CHECK(d.size == (apr_size_t) m->n[i] && !memcmp(d.data, m->v[i], d.size), "%s: key %d holds other bytes (%lu) than were put (%d)", who, i, (unsigned long) d.size, m->n[i]);
    }
    MC_CHECK(napr_db_cursor_open(t, &c) == APR_SUCCESS, "cursor");
    s = napr_db_cursor_get(c, &k, &d, NAPR_DB_FIRST);
    for (i = 0; i < NA; i++) {
        if (m->n[i] < 0) continue;
        a_key(i, kl, kb);
        MC_CHECK(s == APR_SUCCESS && k.size == (apr_size_t) kl && !memcmp(k.data, kb, k.size) && d.size == (apr_size_t) m->n[i] && !memcmp(d.data, m->v[i], d.size), "%s: the scan does not show key %d as it was put", who, i);
        s = napr_db_cursor_get(c, &k, &d, NAPR_DB_NEXT);
    }
    MC_CHECK(APR_STATUS_IS_NOTFOUND(s), "%s: the scan goes on after the last key", who);
    napr_db_cursor_close(c);
    mc_trans(NA * 2);
}
static int a_find(napr_db_txn_t *t, int i, int kl, int how, napr_db_cursor_t **c, napr_db_val_t *k, napr_db_val_t *d)    /* 1: found, pointing into the store */
{
    static unsigned char kb[1100];
    napr_db_val_t want = { (apr_size_t) a_key(i, kl, kb), kb };
    apr_status_t s;
    *c = NULL;
    if (!how) { *k = want; return napr_db_get(t, k, d) == APR_SUCCESS; }
    MC_CHECK(napr_db_cursor_open(t, c) == APR_SUCCESS, "cursor");
    for (s = napr_db_cursor_get(*c, k, d, NAPR_DB_FIRST); s == APR_SUCCESS; s = napr_db_cursor_get(*c, k, d, NAPR_DB_NEXT))
        if (k->size == want.size && !memcmp(k->data, want.data, want.size)) return 1;
    return 0;
}
static void e11(int kl, const int *vs, int len, int pre)
{
    /* 0..NA-1 put(i)  NA.. del(i) with the key of a cursor  then put(j, value of i) by lookup and by cursor, put(key of cursor i, new value), commit */
    int nops = 3 * NA + 2 * NA * NA + 1, seq[6], d, i, j;
    long total = 1, x;
    for (d = 0; d < len; d++) total *= nops;
    for (x = 0; x < total; x++) {
        long y = x;
        int open = 0, alias = 0, skip = 0;
        for (d = 0; d < len; d++) { seq[d] = (int) (y % nops); y /= nops; }
        for (d = 0; d < len; d++) { if (seq[d] == nops - 1) { if (!open) skip = 1; open = 0; } else open = 1; alias |= seq[d] >= NA && seq[d] < nops - 1; }
        if (skip || !alias || !mc_sel()) continue;
        mc_desc("keys of %d bytes, values of %d/%d/%d bytes, %s:", kl, vs[0], vs[1], vs[2], pre == 0 ? "empty" : pre == 1 ? "all stored" : "half stored");
        for (d = 0; d < len; d++) {
            int o = seq[d];
            if (o < NA) mc_desc_add(" put(%d)", o); else if (o < 2 * NA) mc_desc_add(" del(key of cursor at %d)", o - NA); else if (o < 3 * NA) mc_desc_add(" put(key of cursor at %d)", o - 2 * NA);
            else if (o == nops - 1) mc_desc_add(" commit"); else mc_desc_add(" put(%d, value of %d by %s)", (o - 3 * NA) % NA, (o - 3 * NA) / NA % NA, o - 3 * NA < NA * NA ? "get" : "cursor");
        }
        w_fresh();
        for (i = 0; i < NA; i++) { AC.n[i] = -1; AC.put[i] = 0; }
        for (d = pre ? -NA : 0; d < len; d++) {
            int o = d < 0 ? d + NA : seq[d], up = 0, r;
            napr_db_cursor_t *c = NULL;
            napr_db_val_t k, v;
            apr_status_t s;
            unsigned char kb[1100], vb[4100], src[4100];
            if (d < 0 && pre == 2 && (o & 1)) continue;
            if (!T) { T = begin_txn(0); AT_ = AC; memset(AT_.put, 0, sizeof AT_.put); }
            if (o == nops - 1) { MC_CHECK(napr_db_txn_commit(T) == APR_SUCCESS, "commit"); T = NULL; AC = AT_; mc_trans(1); continue; }
            if (o < NA) { j = o; k.size = (apr_size_t) a_key(j, kl, kb); k.data = kb; up = 1; }
            else if (o < 3 * NA) {
                j = o % NA;
                r = a_find(T, j, kl, 1, &c, &k, &v);
                MC_CHECK(r == (AT_.n[j] >= 0), "the cursor %s key %d", r ? "finds" : "does not find", j);
                if (!r) { napr_db_cursor_close(c); continue; }
                if (o >= 2 * NA) up = 1;
            }
            else {
                j = (o - 3 * NA) % NA; i = (o - 3 * NA) / NA % NA;
                r = a_find(T, i, kl, o - 3 * NA >= NA * NA, &c, &k, &v);
                MC_CHECK(r == (AT_.n[i] >= 0), "the lookup %s key %d", r ? "finds" : "does not find", i);
                if (!r) { if (c) napr_db_cursor_close(c); continue; }
                if (!(o - 3 * NA >= NA * NA && i == j)) { k.size = (apr_size_t) a_key(j, kl, kb); k.data = kb; }      /* through the cursor: the key as well */
            }
            if (up) { v.size = (apr_size_t) vs[(j + d + NA) % 3]; memset(vb, 'A' + j + 5 * (d + NA), v.size); if (v.size) vb[v.size - 1] = (unsigned char) j; v.data = vb; }
            if (o >= NA && o < 2 * NA) {
                s = napr_db_del(T, &k, NULL);
                MC_CHECK(s == APR_SUCCESS, "deleting the key at the cursor gives %s", st(s));
                AT_.n[j] = -1; AT_.put[j] = 0;
            }
            else {
                size_t n = v.size;
                memcpy(src, v.data, n);
                s = napr_db_put(T, &k, &v);
                if (AT_.put[j]) MC_CHECK(APR_STATUS_IS_EEXIST(s), "putting key %d a second time gives %s", j, st(s));
                else {
                    MC_CHECK(s == APR_SUCCESS, "put of key %d with %lu bytes gives %s", j, (unsigned long) n, st(s));
                    AT_.n[j] = (int) n; memcpy(AT_.v[j], src, n); AT_.put[j] = 1;
                }
            }
            if (c) napr_db_cursor_close(c);
            mc_trans(1);
            if (d >= 0) a_check(T, &AT_, kl, "inside the transaction");
            if (d == -1) { MC_CHECK(napr_db_txn_commit(T) == APR_SUCCESS, "commit"); T = NULL; AC = AT_; }
        }
        if (T) { MC_CHECK(napr_db_txn_commit(T) == APR_SUCCESS, "commit"); T = NULL; AC = AT_; }
        w_reopen();
        T = begin_txn(NAPR_DB_RDONLY);
        a_check(T, &AC, kl, "after reopening");
        napr_db_txn_commit(T); T = NULL;
        env_close();
        mc_eval(1); mc_trace(1);
        mc_outcome(mc_hash(AC.n, sizeof AC.n, (uint64_t) kl));
        if (x % 20011 == 5) mc_sample("%s", mc_desc_get());
    }
}
static void e11_all(void)
{
    static const int small[3] = { 4, 2, 6 }, mid[3] = { 1300, 900, 1700 }, big[3] = { 3900, 2600, 1 };
    int pre, L = mc_thorough ? 3 : 2;
    for (pre = 0; pre < 3; pre++) { e11(1, small, pre == 1 || mc_thorough ? 3 : L, pre); e11(8, mid, L + (pre == 2), pre); e11(8, big, L, pre); e11(700, mid, L, pre); e11(300, small, 2, pre); }
}
static int a_put(int j, int kl, int n, int salt, int must)
{
    unsigned char kb[1100], vb[70000];
    napr_db_val_t k, v;
    apr_status_t s;
    int x;
    if (!T) { T = begin_txn(0); AT_ = AC; memset(AT_.put, 0, sizeof AT_.put); }
    for (x = 0; x < n; x++) vb[x] = (unsigned char) (x * 7 + j * 50 + salt);
    k.size = (apr_size_t) a_key(j, kl, kb); k.data = kb; v.size = (apr_size_t) n; v.data = vb;
    s = napr_db_put(T, &k, &v);
    mc_trans(1);
    if (must) MC_CHECK(s == APR_SUCCESS, "put of key %d with %d bytes gives %s", j, n, st(s));
    if (s != APR_SUCCESS) return 0;
    if (n > 4096) return 1;                                  /* larger pairs may be accepted: not what this is about */
    AT_.n[j] = n; memcpy(AT_.v[j], vb, (size_t) n); AT_.put[j] = 1;
    return 0;
}
static void a_commit(void) { MC_CHECK(napr_db_txn_commit(T) == APR_SUCCESS, "commit"); T = NULL; AC = AT_; mc_trans(1); }
static void a_fin(int kl)
{
    if (T) { a_check(T, &AT_, kl, "inside the transaction"); a_commit(); }
    w_reopen();
    T = begin_txn(NAPR_DB_RDONLY);
    a_check(T, &AC, kl, "after reopening");
    napr_db_txn_commit(T); T = NULL;
    env_close();
    mc_eval(1); mc_trace(1);
    mc_outcome(mc_hash(AC.n, sizeof AC.n, (uint64_t) kl + 5));
}
static void a_fresh(void) { int i; w_fresh(); for (i = 0; i < NA; i++) { AC.n[i] = -1; AC.put[i] = 0; } }
/* E12: a page filled to the last byte (2..4 pairs of every total around a page), then one of the pairs grows or shrinks by a few bytes */
static void e12(int kl)
{
    int m, t, u, d, mode, i;
    for (m = 2; m <= NA; m++) for (t = 4096 - 16 - m * 24; t <= 4096 - m * 4; t++) for (u = 0; u < m; u++) {
        if (!mc_sel()) continue;
        for (d = -3; d <= 6; d++) for (mode = 0; mode < 3; mode++) {
            int each = (t - m * kl) / m, last = t - m * kl - each * (m - 1);
            mc_desc("%d pairs with keys of %d bytes, %d bytes of keys and values altogether, pair %d changed by %d bytes %s", m, kl, t, u, d, mode == 0 ? "by the next transaction" : mode == 1 ? "by deleting and putting it in the same transaction" : "with another pair put afterwards");
            a_fresh();
            for (i = 0; i < m; i++) a_put(i, kl, i == m - 1 ? last : each, 1, 1);
            if (mode == 1) { unsigned char kb[1100]; napr_db_val_t k; k.size = (apr_size_t) a_key(u, kl, kb); k.data = kb; MC_CHECK(napr_db_del(T, &k, NULL) == APR_SUCCESS, "del"); AT_.n[u] = -1; }
            else a_commit();
            a_put(u, kl, (u == m - 1 ? last : each) + d, 2, 1);
            if (mode == 2) { a_check(T, &AT_, kl, "after the change"); a_put((u + 1) % NA, kl, 100 + d, 3, 1); }
            a_fin(kl);
        }
    }
}
/* E13: a refused put leaves the key as it was: putting it again with a smaller value works, as does everything else */
static void e13(void)
{
    static const int KLS[] = { 1, 8, 300, 1000 }, VS[] = { 4100, 5000, 8192, 65536 };
    int a, b, n, j, pre, rep;
    for (a = 0; a < 4; a++) for (b = 0; b < 4; b++) for (j = 0; j < NA; j++) for (pre = 0; pre < 1 << NA; pre++) {
        int kl = KLS[a];
        if (!mc_sel()) continue;
        for (n = 0; n < 3; n++) for (rep = 1; rep <= 2; rep++) {
            int i, acc = 0;
            mc_desc("keys of %d bytes, stored before: %x; key %d put with %d bytes (refused) %d times, then with %d", kl, pre, j, VS[b], rep, n * 900);
            a_fresh();
            for (i = 0; i < NA; i++) if (pre >> i & 1) a_put(i, kl, 500 * i, 1, 1);
            if (T) a_commit();
            for (i = 0; i < rep; i++) acc |= a_put(j, kl, VS[b], 2, 0);
            if (acc) { napr_db_txn_abort(T); T = NULL; env_close(); continue; }
            a_check(T, &AT_, kl, "after the refused put");
            a_put(j, kl, n * 900, 3, 1);
            a_fin(kl);
        }
    }
}
static void d01_d02(void)
{
    int t = mc_thorough, d2 = mc_is("D02"), o, i;
    if (!d2) { e7(); e8(); e8b(); e9_missing(); e11_all(); e12(8); e12(1); if (t) e12(300); e13(); }
    e10();
    for (o = 0; o < 3; o++) for (i = 0; i <= 40; i += i < 10 ? 1 : 10) { e9(&P_MID, 40, i, o); e9(&P_LONG, 40, i, o); e9(&P_BIG, 40, i, o); e9(&P_TINY, 400, i * 10, o); }
    for (i = 0; i < 3; i++) e1(&P_MID, 4, t ? 6 : d2 ? 4 : 5, i);
    e1(&P_BIG, 3, t ? 7 : 5, 0);
    e1(&P_LONG2, 4, t ? 6 : 4, 2);
    e1(&P_BYTE, 16, d2 ? 2 : 3, 2);
    e1(&P_BYTE0, 16, 2, 2);
    e2(&P_MID, t ? 8 : d2 ? 6 : 7); e2(&P_HALF, t ? 8 : d2 ? 5 : 6); e2(&P_MIX, t ? 8 : d2 ? 6 : 7); e2(&P_LONG, t ? 8 : d2 ? 6 : 7); e2(&P_KMIX, t ? 8 : 6); e2(&P_BIG, 5); e2(&P_BYTE, t ? 7 : 6);
    for (o = 0; o < 4; o++) {
        e4(&P_LONG, 22, o, 2, 1, t ? 3 : 2, 3);
        e4(&P_LONG2, 18, o, 3, 2, 2, 3);
        e4(&P_KMIX, 24, o, 2, 1, 2, 3);
        e4(&P_MID, 20, o, 3, 2, 2, 3);
        e4(&P_MIX, 24, o, 2, 1, 2, 3);
        e4(&P_LONG, 60, o, 2, 1, t ? 2 : 1, 5);
        e4(&P_200, 80, o, 2, 1, t ? 2 : 1, 5);
        e5(&P_MID, 18, o, 0); e5(&P_LONG, 26, o, 0); e5(&P_KMIX, 20, o, 0);
        e5(&P_MID, t ? 12 : 9, o, 1); e5(&P_LONG2, t ? 11 : 8, o, 1); e5(&P_HALF, 8, o, 1);
        e5(&P_BYTE, t ? 16 : 8, o, 1);
    }
    MAPSIZE = 64 << 20;
    for (o = 0; o < 4; o++) {
        e6(&P_TINY, t ? 4000 : 2000, o, 1, 1); e6(&P_TINY, t ? 4000 : 3000, o, 97, 2); e6(&P_200, 1500, o, 11, 1); e6(&P_200, 2000, o, 100000, 2);
        e6(&P_LONG, 300, o, 7, 1); e6(&P_KMIX, 400, o, 13, 1); e6(&P_MIX, 500, o, 100000, 1); e6(&P_LONG2, 250, o, 100000, 1); e6(&P_LONG2, 200, o, 1, 2);
    }
    for (o = 0; o < 4; o++) e6(&P_MID, 1900, o, 100000, 1);
    e6(&P_BIG, 1300, 3, 100000, 1);
    MAPSIZE = 4 << 20;
}

/* ---- D04 ---- */
typedef struct { napr_db_txn_t *t; snap_t m; napr_db_val_t held[64]; int nheld; } rd_t;
static rd_t RD[3];
static void rd_begin(rd_t *r)
{
    int i;
    r->t = begin_txn(NAPR_DB_RDONLY);
    r->m = COM;
    r->nheld = 0;
    for (i = 0; i < NK && r->nheld < 64; i++) {
        napr_db_val_t k = K(i), d;
        if (!COM.ver[i]) { r->nheld++; continue; }
        MC_CHECK(napr_db_get(r->t, &k, &d) == APR_SUCCESS, "a new reader does not find key %d", i);
        r->held[r->nheld++] = d;
    }
}
static void rd_check(rd_t *r, int n)
{
    int i;
    char who[64];
    if (!r->t) return;
    snprintf(who, sizeof who, "reader %d", n);
    for (i = 0; i < NK && i < 64; i++)
        if (r->m.ver[i]) MC_CHECK(is_val(&r->held[i], i, r->m.ver[i]), "%s: the value of key %d it was given when it began has changed", who, i);
    check_gets(r->t, &r->m, who);
    check_scan(r->t, &r->m, who);
    check_scan_back(r->t, &r->m, who);
}
static void rd_end(rd_t *r)
{
    if (!r->t) return;
    MC_CHECK((nver & 1 ? napr_db_txn_abort(r->t) : napr_db_txn_commit(r->t)) == APR_SUCCESS, "ending a read transaction failed");
    r->t = NULL;
}
static void d04_seq(const prof_t *p, int nk, int start, int len, int nrd, int fine)
{
    /* operations: 0 update key 0 (commit), 1 update middle key, 2 delete+commit key nk/2 or put it back, 3 update all, 4 delete all,
     * 5 update all then abort, 6.. toggle reader;  fine: also leave a write transaction open across the reader operations */
    int nops = 6 + nrd + (fine ? 2 : 0), seq[12], d, i, k;
    long total = 1, x;
    image_t im;
    PR = p; NK = nk;
    w_fresh();
    if (start > 0) fill(0, 1, 1, 3);
    if (start == 2) for (i = 0; i < 12; i++) { w_put(i % nk, 1 + (i + 1) % 3); w_commit(); }
    if (start == 3) { for (i = 1; i < nk; i++) w_del(i); w_commit(); }
    if (start == 4) { for (k = 0; k < 3; k++) { for (i = 0; i < nk; i++) w_put(i, 1 + k); w_commit(); } for (i = 0; i < nk; i += 2) w_del(i); w_commit(); }
    env_close(); img_save(&im);
    for (d = 0; d < len; d++) total *= nops;
    for (x = 0; x < total; x++) {
        long y = x; int skip = 0, first = -1;
        for (d = 0; d < len; d++) { seq[d] = (int) (y % nops); y /= nops; }
        /* histories without a reader are decided by D01; readers are symmetric: the first one used is reader 0 */
        for (d = 0; d < len; d++) if (seq[d] >= 6 && seq[d] < 6 + nrd) { if (first < 0) { first = seq[d] - 6; if (first) skip = 1; } }
        if (first < 0 || skip) continue;
        if (!mc_sel()) continue;
        mc_desc("%s, %d keys, start state %d:", p->name, nk, start);
        for (d = 0; d < len; d++) {
            static const char *N[] = { "update(0)", "update(mid)", "toggle(mid)", "update-all", "delete-all", "abort(update-all)" };
            if (seq[d] < 6) mc_desc_add(" %s", N[seq[d]]); else if (seq[d] < 6 + nrd) mc_desc_add(" reader%d", seq[d] - 6);
            else mc_desc_add(seq[d] == 6 + nrd ? " write-step" : " end-write");
        }
        img_load(&im);
        memset(RD, 0, sizeof RD);
        nver = 1;
        for (d = 0; d < len; d++) {
            int o = seq[d];
            nver++;
            if (o < 6 && T) w_commit();
            if (o == 0) { w_put(0, 1 + nver % 3); w_commit(); }
            else if (o == 1) { w_put(nk / 3, 1 + nver % 3); w_commit(); }
            else if (o == 2) { w_begin(); if (CUR.ver[nk / 2]) w_del(nk / 2); else w_put(nk / 2, 1 + nver % 3); w_commit(); }
            else if (o == 3) { for (i = 0; i < nk; i++) w_put(i, 1 + (nver + i) % 3); w_commit(); }
            else if (o == 4) { w_begin(); for (i = 0; i < nk; i++) if (CUR.ver[i]) w_del(i); w_commit(); }
            else if (o == 5) { for (i = 0; i < nk; i++) w_put(i, 1 + (nver + i) % 3); for (k = 0; k < nrd; k++) rd_check(&RD[k], k); w_abort(); }
            else if (o < 6 + nrd) { rd_t *r = &RD[o - 6]; if (r->t) rd_end(r); else rd_begin(r); }
            else if (o == 6 + nrd) { w_begin(); for (i = 0; i < nk; i += 2) if (!PUT[i]) { w_put(i, 1 + (nver + i) % 3); break; } }
            else if (T) { if (d & 1) w_commit(); else w_abort(); }
            for (k = 0; k < nrd; k++) rd_check(&RD[k], k);
            mc_trans(1);
        }
        look_com("a reader begun at the end", 1);
        for (k = 0; k < nrd; k++) { rd_check(&RD[k], k); rd_end(&RD[k]); }
        w_abort();
        w_put(1, 1); w_commit();
        w_reopen();
        look_com("after reopening", 1);
        env_close();
        mc_eval(1); mc_trace(1);
        mc_outcome(snap_hash(&COM) ^ (uint64_t) file_pages());
        if (x % 20011 == 6) mc_sample("%s", mc_desc_get());
    }
    img_free(&im);
}
/* three readers coming and going in every order between commits; several more commits at the end bring about the reuse of freed pages */
static void d04_slots(const prof_t *p, int nk, int len, int tail)
{
    int seq[12], d, i, k, m;
    long total = 1, x;
    image_t im;
    PR = p; NK = nk;
    w_fresh(); fill(0, 1, 1, 3);
    for (k = 0; k < 2; k++) { for (i = 0; i < nk; i++) w_put(i, 1 + (k + 1) % 3); w_commit(); }
    env_close(); img_save(&im);
    for (d = 0; d < len; d++) total *= 4;
    for (m = 0; m < 2; m++) for (x = 0; x < total; x++) {
        long y = x; int used = 0, skip = 0, last = -1;
        for (d = 0; d < len; d++) { seq[d] = (int) (y % 4); y /= 4; }
        for (d = 0; d < len; d++) {
            if (seq[d] == 0) { last = -1; continue; }
            if (seq[d] - 1 > used) skip = 1;              /* readers are introduced in order */
            if (seq[d] - 1 == used) used++;
            if (seq[d] == last) skip = 1;                 /* begun and ended at once, or ended and begun at once */
            last = seq[d];
        }
        if (!used || skip) continue;
        if (!mc_sel()) continue;
        mc_desc("%s, %d keys:", p->name, nk);
        for (d = 0; d < len; d++) if (seq[d]) mc_desc_add(" reader%d", seq[d] - 1); else mc_desc_add(m ? " update-one" : " update-all");
        mc_desc_add(" and %d more updates", tail);
        img_load(&im);
        memset(RD, 0, sizeof RD);
        nver = 1;
        for (d = 0; d < len + tail; d++) {
            nver++;
            if (d >= len || seq[d] == 0) {
                if (m) w_put(nver % nk, 1 + nver % 3); else for (i = 0; i < nk; i++) w_put(i, 1 + (nver + i) % 3);
                w_commit();
                for (k = 0; k < 3; k++) rd_check(&RD[k], k);
            } else { rd_t *r = &RD[seq[d] - 1]; if (r->t) rd_end(r); else rd_begin(r); }
            mc_trans(1);
        }
        for (k = 0; k < 3; k++) rd_end(&RD[k]);
        look_com("at the end", 1);
        env_close();
        mc_eval(1); mc_trace(1);
        mc_outcome(snap_hash(&COM) ^ (uint64_t) file_pages() ^ (uint64_t) x << 20);
    }
    img_free(&im);
}
/* one reader begun after i cyclic updates and held over j more, for all i,j; a second one held over part of it */
static void d04_long(const prof_t *p, int nk, int N)
{
    int i, j, k, two, mode;
    PR = p; NK = nk;
    snprintf(DBPATH, sizeof DBPATH, "%s/t.db", mc_dir);
    for (mode = 0; mode < 3; mode++) for (i = 0; i < N; i++) for (two = 0; two < 4; two++) {
        if (!mc_sel()) continue;
        j = N;
        mc_desc("%s, %d keys: reader begun after %d transactions (mode %d), held over %d more, second reader pattern %d", p->name, nk, i, mode, j, two);
        w_fresh();
        memset(RD, 0, sizeof RD);
        fill(0, 1, 1, 1000);
        for (k = 0; k < i + j; k++) {
            int q = k % nk, z;
            if (k == i) rd_begin(&RD[0]);
            if (two == 1 && k == i / 2) rd_begin(&RD[1]);
            if (two == 1 && k == i + j / 2) rd_end(&RD[1]);
            if (two == 2 && k == i + 2) rd_begin(&RD[1]);
            if (two == 3 && k >= i && (k - i) % 3 == 0) { if (RD[1].t) rd_end(&RD[1]); rd_begin(&RD[1]); }
            if (mode == 0) w_put(q, 1 + k % 3);
            else if (mode == 1) { w_begin(); if (CUR.ver[q]) w_del(q); else w_put(q, 1 + k % 3); }
            else for (z = 0; z < nk; z += 1 + k % 3) w_put(z, 1 + (k + z) % 3);
            rd_check(&RD[0], 0); rd_check(&RD[1], 1);
            w_commit();
            rd_check(&RD[0], 0); rd_check(&RD[1], 1);
            mc_trans(1);
        }
        nver = 0;
        rd_end(&RD[0]); rd_end(&RD[1]);
        look_com("at the end", 1);
        w_reopen();
        look_com("after reopening", 1);
        env_close();
        mc_eval(1); mc_trace(1);
        mc_outcome(snap_hash(&COM) ^ (uint64_t) file_pages());
    }
}
/* many readers at once, up to what the store accepts */
static void d04_many(const prof_t *p, int nk)
{
    static rd_t R[160];
    int n, k, order;
    PR = p; NK = nk;
    snprintf(DBPATH, sizeof DBPATH, "%s/t.db", mc_dir);
    for (order = 0; order < 3; order++) {
        if (!mc_sel_weighted(300)) continue;
        mc_desc("%s: as many readers as accepted, one begun after each commit, ended %s", p->name, order == 0 ? "first to last" : order == 1 ? "last to first" : "odd ones first");
        w_fresh();
        fill(0, 1, 1, 1000);
        memset(R, 0, sizeof R);
        for (n = 0; n < 160; n++) {
            apr_status_t s = napr_db_txn_begin(ENV, NAPR_DB_RDONLY, &R[n].t);
            if (s != APR_SUCCESS) { MC_CHECK(n >= 60, "only %d readers are accepted (%s)", n, st(s)); R[n].t = NULL; break; }
            napr_db_txn_abort(R[n].t);
            rd_begin(&R[n]);
            w_put(n % nk, 1 + (n / nk + n) % 3);
            w_commit();
            if (n % 8 == 0) for (k = 0; k <= n; k++) rd_check(&R[k], k);
        }
        for (k = 0; k < n; k++) rd_check(&R[k], k);
        for (k = 0; k < n; k++) {
            int q = order == 0 ? k : order == 1 ? n - 1 - k : (2 * k + 1 < n ? 2 * k + 1 : 2 * (k - n / 2));
            int z;
            if (!R[q].t) continue;
            rd_end(&R[q]);
            w_put(k % nk, 1 + k % 3); w_commit();
            for (z = 0; z < n; z += 1 + n / 12) rd_check(&R[z], z);
        }
        for (k = 0; k < n; k++) { rd_check(&R[k], k); rd_end(&R[k]); }
        look_com("at the end", 1);
        env_close();
        mc_eval(1); mc_trace(1);
    }
}
/* as many readers as accepted; all but one end, and that one keeps its state over further commits */
static void d04_survivor(const prof_t *p, int nk, int same)
{
    static rd_t R[160];
    int n, k, q;
    PR = p; NK = nk;
    for (q = 0; q < 126; q += q >= 3 && q < 120 ? 4 : 1) {
        if (!mc_sel_weighted(60)) continue;
        mc_desc("%s: 126 readers (%s), all but reader %d end", p->name, same ? "at once" : "one after each commit", q);
        w_fresh();
        fill(0, 1, 1, 1000);
        memset(R, 0, sizeof R);
        for (n = 0; n < 126; n++) {
            apr_status_t s = napr_db_txn_begin(ENV, NAPR_DB_RDONLY, &R[n].t);
            if (s != APR_SUCCESS) { R[n].t = NULL; break; }
            napr_db_txn_abort(R[n].t);
            rd_begin(&R[n]);
            if (!same) { w_put(n % nk, 1 + (n / nk + n) % 3); w_commit(); }
        }
        nver = q;
        for (k = 0; k < n; k++) if (k != q) rd_end(&R[k]);
        for (k = 0; k < 24; k++) { w_put(k % nk, 1 + (k + k / nk) % 3); w_commit(); if (q < n) rd_check(&R[q], q); }
        if (q < n) rd_end(&R[q]);
        nver = 0;
        look_com("at the end", 1);
        env_close();
        mc_eval(1); mc_trace(1); mc_trans(24);
    }
}
/* transaction numbers beyond 8 and 16 bits: readers begun before, at and after the border, held over further commits */
static void d04_ids(const prof_t *p, int nk, int border)
{
    int i, k, two, first = border - 14;
    PR = p; NK = nk;
    for (two = 0; two < 4; two++) {
        if (!mc_sel_weighted(border > 60000 ? 3000 : 60)) continue;
        mc_desc("%s, %d keys: readers begun around transaction %d, held over 30 more, pattern %d", p->name, nk, border, two);
        w_fresh();
        memset(RD, 0, sizeof RD);
        fill(0, 1, 1, 1000);
        nver = 0;
        for (k = 0; k < first; k++) { w_put(k % nk, 1 + k % 3); w_commit(); }
        for (k = 0; k < 44; k++) {
            if (k == 0 || k == 9) rd_begin(&RD[k == 9]);
            if (k == 12 + (two & 1) * 5) { if (two == 1) rd_end(&RD[0]); rd_begin(&RD[2]); }
            if (k == 15 && two >= 2) rd_end(&RD[1]);
            if (k == 19 && two >= 2) rd_begin(&RD[1]);
            w_put(k % nk, 1 + (k + k / nk) % 3); w_commit();
            for (i = 0; i < 3; i++) rd_check(&RD[i], i);
            mc_trans(1);
        }
        nver = 0;
        for (i = 0; i < 3; i++) rd_end(&RD[i]);
        look_com("at the end", 1);
        w_reopen();
        look_com("after reopening", 1);
        env_close();
        mc_eval(1); mc_trace(1);
    }
}
/* transactions that rewrite hundreds of pages: readers before, between and after keep their state */
static void d04_huge(const prof_t *p, int nk, int how)
{
    int k, i;
    if (!mc_sel_weighted(400)) return;
    PR = p; NK = nk;
    mc_desc("%s: %d keys rewritten in one transaction %s, a reader begun before each", p->name, nk, how == 0 ? "each time" : how == 1 ? "and deleted in the next" : "after ten small ones");
    w_fresh();
    memset(RD, 0, sizeof RD);
    fill(3, 1, 1, 100000);
    for (k = 0; k < 6; k++) {
        rd_t *r = &RD[k % 3];
        if (r->t) { rd_check(r, k % 3); rd_end(r); }
        rd_begin(r);
        if (how == 2) for (i = 0; i < 10; i++) { w_put((k * 10 + i) * 7 % nk, 1 + (k + i) % 3); w_commit(); }
        for (i = 0; i < nk; i++) { if (how == 1 && k & 1) w_del(i); else w_put(ord(k & 3, nk, i), 1 + (k + i) % 3); }
        w_commit();
        mc_trans(1);
        for (i = 0; i < 3; i++) if (RD[i].t && (i == k % 3 || k == 5)) rd_check(&RD[i], i);
    }
    nver = 0;
    for (k = 0; k < 3; k++) { rd_check(&RD[k], k); rd_end(&RD[k]); }
    look_com("at the end", 37);
    w_reopen();
    look_com("after reopening", 37);
    env_close();
    mc_eval(1); mc_trace(1);
    mc_outcome((uint64_t) file_pages());
}
/* a pile of freed pages behind a reader: n0 transactions under reader 0, n1 more after reader 1 began, then reader 0 ends (mode bit 0:
   reader 1 ends first), n2 more, the other ends, n3 more; the record of freed pages then takes several pages and is taken apart again */
static void d04_pile(const prof_t *p, int nk, int n0, int n1, int mode)
{
    int k, ph, seq = 0, n[4] = { n0, n1, n0, n0 + n1 };
    if (!mc_sel_weighted(60)) return;
    PR = p; NK = nk;
    snprintf(DBPATH, sizeof DBPATH, "%s/t.db", mc_dir);
    mc_desc("%s, %d keys: %d transactions under one reader, %d more under a second, %s reader ends, %d more, the other ends, %d more, %s", p->name, nk, n0, n1, mode & 1 ? "the second" : "the first", n0, n0 + n1, mode & 2 ? "all keys in each" : "one key in each");
    w_fresh();
    memset(RD, 0, sizeof RD);
    fill(0, 1, 1, 1000);
    for (ph = 0; ph < 4; ph++) {
        if (ph < 2) rd_begin(&RD[ph]);
        else rd_end(&RD[(ph - 2) ^ (mode & 1)]);
        for (k = 0; k < n[ph]; k++, seq++) {
            int z;
            if (mode & 2) for (z = 0; z < nk; z++) w_put(z, 1 + (seq + z) % 3); else w_put(seq % nk, 1 + seq / nk % 3);
            w_commit();
            mc_trans(1);
            if (k % 8 == 0 || k == n[ph] - 1 || k < 3) { rd_check(&RD[0], 0); rd_check(&RD[1], 1); look_com("between the transactions", 1); }
        }
        if (mode & 4 && ph >= 2 && !RD[0].t && !RD[1].t) w_reopen();
    }
    nver = 0;
    look_com("at the end", 1);
    w_reopen();
    look_com("after reopening", 1);
    for (k = 0; k < 20; k++) { w_put(k % nk, 1 + k % 3); w_commit(); look_com("after reopening and another update", 1); }
    env_close();
    mc_eval(1); mc_trace(1);
    mc_outcome(snap_hash(&COM) ^ (uint64_t) file_pages());
}
static void d04(void)
{
    int t = mc_thorough, s;
    for (s = 0; s < 5; s++) d04_seq(&P_MID, 6, s, t ? 6 : 5, 2, 0);
    for (s = 1; s < 5; s++) d04_seq(&P_LONG, 14, s, t ? 5 : 4, 2, 0);
    d04_seq(&P_BIG, 3, 2, t ? 6 : 5, 2, 0);
    for (s = 1; s < 5; s++) d04_seq(&P_MID, 6, s, t ? 6 : 5, 1, 1);
    d04_slots(&P_MID, 5, t ? 9 : 8, 5); d04_slots(&P_LONG, 8, t ? 8 : 7, 4);
    d04_long(&P_MID, 9, t ? 60 : 24); d04_long(&P_LONG, 12, t ? 40 : 20); d04_long(&P_MIX, 20, t ? 40 : 16);
    MAPSIZE = 32 << 20;
    d04_many(&P_MID, 7); d04_many(&P_LONG, 9);
    for (s = 0; s < 2; s++) d04_survivor(&P_MID, 7, s);
    for (s = 64; s <= 65536; s *= 2) if (s <= 512 || s >= 32768) d04_ids(&P_MID, 7, s);
    MAPSIZE = 64 << 20;
    for (s = 0; s < 8; s++) {
        static const int N[] = { 20, 60, 100, 130, 150, 180, 250, 400, 700 };
        int a, b;
        for (a = 0; a < 9; a++) for (b = 0; b < 9; b++) {
            if (N[a] + N[b] > (s & 2 ? 450 : 900)) continue;
            d04_pile(&P_MID, 9, N[a], N[b], s); d04_pile(&P_LONG, 12, N[a], N[b], s); if (t) d04_pile(&P_200, 60, N[a], N[b], s);
        }
    }
    for (s = 0; s < 3; s++) { d04_huge(&P_MID, 1900, s); d04_huge(&P_BIG, 1100, s); d04_huge(&P_200, 2500, s); }
    MAPSIZE = 4 << 20;
}

/* ---- D07 ---- */
static int d07_N;
static void d07_cycle(const prof_t *p, int nk, int kind, int mode)
{
    /* kind: 0 update one key round robin, 1 delete+reinsert one key, 2 rewrite all, 3 delete all / insert all, 4 alternating sizes,
     *       5 delete a third / put it back, 6 update, with aborted transactions in between
     * mode: 0 nothing else, 1 reopen now and then, 2 a reader held over transactions 30..60 (and again 230..260), 3 short readers all the time,
     *       4 as 2, ended by abort, 5 as 3, ended by commit or abort, 6 two overlapping readers, ended in both orders */
    int N = d07_N ? d07_N : mc_thorough ? 3000 : 700, k, i;
    long base = 0, last = 0, live;
    static rd_t r, r2;
    int held = mode == 2 || mode == 4 || mode == 6;
    if (!mc_sel_weighted(N > 10000 ? 8000 : 200)) return;
    PR = p; NK = nk;
    mc_desc("%s, %d keys, workload %d, surroundings %d, %d transactions", p->name, nk, kind, mode, N);
    w_fresh();
    r.t = r2.t = NULL;
    fill(3, 1, 1, 1000);
    for (k = 0; k < N; k++) {
        int q = k % nk;
        if (mode == 1 && k % 37 == 36) w_reopen();
        if (held && (k == 30 || k == 230)) rd_begin(&r);
        if (mode == 6 && (k == 38 || k == 235)) rd_begin(&r2);
        if (mode == 6 && (k == 47 || k == 262)) { rd_check(&r2, 1); nver = k; rd_end(&r2); }
        if (held && (k == 60 || k == 260)) { rd_check(&r, 0); nver = mode == 2 ? 0 : mode == 4 ? 1 : k; rd_end(&r); }
        if (mode == 3 || mode == 5) rd_begin(&r);
        w_begin();
        switch (kind) {
        case 0: w_put(q, 1 + k % 3); break;
        case 1: if (CUR.ver[q]) { w_del(q); w_put(q, 1 + k % 3); } break;
        case 2: for (i = 0; i < nk; i++) w_put(i, 1 + (i + k) % 3); break;
        case 3: for (i = 0; i < nk; i++) if (k & 1) w_put(i, 1 + (i + k) % 3); else w_del(i); break;
        case 4: for (i = q; i < nk; i += 3) w_put(i, 1 + (k / 5) % 3); break;
        case 5: for (i = k / 2 % 3; i < nk; i += 3) { if (CUR.ver[i]) w_del(i); else w_put(i, 1 + k % 3); } break;
        default: w_put(q, 1 + k % 3); if (k % 3 == 1) { w_abort(); w_begin(); w_del(q); w_put(q, 2); } break;
        }
        w_commit();
        if (mode == 3 || mode == 5) { nver = mode == 3 ? 0 : k % 3; rd_check(&r, 0); rd_end(&r); }
        nver = 0;
        if (k % 100 == 99) look_com("now and then", 5);
        if (k == 299) base = file_pages();
        mc_trans(1);
    }
    last = file_pages();
    /* live pages: a generous multiple of what is stored (a page holds at least one pair), plus trees and lists of freed pages */
    live = nk + 40;
    MC_CHECK(last - base <= 4 + (held ? 6 : 0), "the file grew from %ld pages after 300 transactions to %ld pages after %d", base, last, N);
    MC_CHECK(base <= 4 * live + (held ? 40 * (kind >= 2 ? nk + 10 : 10) : 0), "the file has %ld pages after 300 transactions although %d pairs are stored", base, nk);
    look_com("at the end", 1);
    w_reopen();
    look_com("after reopening", 1);
    env_close();
    mc_eval(1); mc_trace(1);
    mc_outcome((uint64_t) (base * 1000 + last));
    mc_sample("%s: %ld pages", mc_desc_get(), last);
}
/* hundreds of pages rewritten at once, again and again: the file settles */
static void d07_huge(const prof_t *p, int nk, int mode)
{
    int k, i; long base = 0, last, N = 60;
    if (!mc_sel_weighted(600)) return;
    PR = p; NK = nk;
    mc_desc("%s, %d keys, %s, %ld times", p->name, nk, mode == 0 ? "all rewritten in one transaction" : mode == 1 ? "all deleted, all put back" : "all rewritten, with ten single updates in between", N);
    w_fresh();
    fill(3, 1, 1, 100000);
    for (k = 0; k < N; k++) {
        for (i = 0; i < nk; i++) if (mode == 1 && k & 1) w_del(i); else w_put(ord(k & 3, nk, i), 1 + (i + k) % 3);
        w_commit();
        if (mode == 2) for (i = 0; i < 10; i++) { w_put(i * 31 % nk, 1 + k % 3); w_commit(); }
        if (k == 15) base = file_pages();
        mc_trans(1);
    }
    last = file_pages();
    MC_CHECK(last - base <= base / 4 + 16, "the file grew from %ld pages after 16 rounds to %ld pages after %ld", base, last, N);
    MC_CHECK(base <= 5L * nk + 100, "the file has %ld pages although %d pairs are stored", base, nk);
    look_com("at the end", 37);
    w_reopen();
    look_com("after reopening", 37);
    env_close();
    mc_eval(1); mc_trace(1);
    mc_sample("%s: %ld then %ld pages", mc_desc_get(), base, last);
}
/* map limits: every map size, insert until refused */
static void d07_full(const prof_t *p, int pages, int per, int how)
{
    int i, k, done = 0, rounds;
    apr_status_t s = APR_SUCCESS;
    if (!mc_sel_weighted(100)) return;
    PR = p; NK = 120;
    MAPSIZE = (apr_size_t) pages * 4096;
    mc_desc("%s, map of %d pages, %d puts per transaction until refused, then %s", p->name, pages, per, how == 0 ? "abort" : how == 1 ? "commit of what was accepted" : how == 2 ? "reopen" : "reopen with a larger map");
    snprintf(DBPATH, sizeof DBPATH, "%s/t.db", mc_dir);
    unlink(DBPATH);
    memset(&COM, 0, sizeof COM);
    T = NULL;
    s = env_open_st(NAPR_DB_CREATE);
    if (s != APR_SUCCESS) { apr_pool_destroy(EP); MC_CHECK(pages < 4, "a map of %d pages cannot be opened (%s)", pages, st(s)); mc_eval(1); MAPSIZE = 4 << 20; return; }
    for (rounds = 0; rounds < 3; rounds++) {
        s = APR_SUCCESS;
        for (k = 0; k < NK && s == APR_SUCCESS; k++) {
            napr_db_val_t key, d;
            i = ord(3, NK, k);
            w_begin();
            if (CUR.ver[i] && rounds == 0) continue;
            key = K(i); d = V(i, 1 + rounds % 3);
            if (PUT[i]) continue;
            s = napr_db_put(T, &key, &d);
            mc_trans(1);
            if (s == APR_SUCCESS) { CUR.ver[i] = 1 + rounds % 3; PUT[i] = 1; done++; }
            else { check_gets(T, &CUR, "after a refused put"); check_scan(T, &CUR, "after a refused put"); }
            if (s == APR_SUCCESS && done % per == 0) {
                apr_status_t c = napr_db_txn_commit(T);
                T = NULL;
                if (c == APR_SUCCESS) COM = CUR; else s = c;
                look_com("after a commit near the limit", 5);
            }
        }
        if (T) {
            if (s == APR_SUCCESS || how == 1) {
                apr_status_t c = napr_db_txn_commit(T);
                T = NULL;
                if (c == APR_SUCCESS) COM = CUR; else s = c;
            } else { w_abort(); }
        }
        MC_CHECK(file_pages() <= pages, "the file has %ld pages, the map %d", file_pages(), pages);
        look_com("after the refusal", 5);
        if (how == 2) { w_reopen(); look_com("after reopening", 5); }
        if (how == 3) { env_close(); MAPSIZE = (apr_size_t) pages * 2 * 4096; env_open(); look_com("after reopening with a larger map", 5); w_put(0, 2); w_commit(); look_com("after a put in the larger map", 5); pages *= 2; }
        /* still usable: deletes may be refused for lack of room but must change nothing then */
        for (i = 0; i < NK; i += 3) {
            napr_db_val_t key = K(i);
            apr_status_t c;
            if (!COM.ver[i]) continue;
            w_begin();
            c = napr_db_del(T, &key, NULL);
            mc_trans(1);
            if (c == APR_SUCCESS) CUR.ver[i] = 0;
            else MC_CHECK(!APR_STATUS_IS_NOTFOUND(c), "delete of stored key %d gives not found", i);
            if (c == APR_SUCCESS) { c = napr_db_txn_commit(T); T = NULL; if (c == APR_SUCCESS) COM = CUR; }
            if (T) w_abort();
            if (c != APR_SUCCESS) { look_com("after a refused delete", 5); break; }
        }
        look_com("after deleting", 5);
    }
    w_reopen();
    look_com("at the end", 5);
    env_close();
    mc_eval(1); mc_trace(1);
    mc_outcome(mc_hash(&COM, sizeof COM, (uint64_t) pages));
    MAPSIZE = 4 << 20;
}
static void d07(void)
{
    int kind, mode, pages, how, per;
    static const prof_t *const PS[4] = { &P_MID, &P_LONG, &P_MIX, &P_200 };
    for (pages = 0; pages < 4; pages++) for (kind = 0; kind < 7; kind++) for (mode = 0; mode < 7; mode++) {
        MAPSIZE = 16 << 20;
        d07_cycle(PS[pages], pages == 3 ? 90 : 16, kind, mode);
        if (mc_thorough) d07_cycle(PS[pages], 5, kind, mode);
        MAPSIZE = 4 << 20;
    }
    d07_N = 70000;
    for (kind = 0; kind < 2; kind++) for (mode = 0; mode < 6; mode += 2) d07_cycle(&P_MID, 16, kind, mode);
    d07_N = 0;
    MAPSIZE = 64 << 20;
    for (mode = 0; mode < 3; mode++) { d07_huge(&P_MID, 1500, mode); d07_huge(&P_200, 3000, mode); d07_huge(&P_BIG, 900, mode); }
    MAPSIZE = 4 << 20;
    for (pages = 1; pages <= (mc_thorough ? 64 : 32); pages++) for (how = 0; how < 4; how++) for (per = 1; per <= 16; per = per * 2 + 1) for (kind = 0; kind < 4; kind++)
        d07_full(kind == 3 ? &P_BIG : PS[kind], pages, per, how);
}

static void worker(void)
{
    apr_initialize();
    mc_watch(60);
    snprintf(DBPATH, sizeof DBPATH, "%s/t.db", mc_dir);
    if (mc_is("D04")) d04(); else if (mc_is("D07")) d07(); else d01_d02();
}
int main(int argc, char **argv) { mc_init(argc, argv); return mc_run(worker); }
