/* C01, C02, C03: histories of the file metadata cache against a map model; ownership between processes. */
#include "mc.h"
#include <apr_general.h>
#include <apr_pools.h>
#include "napr_cache.h"
#include <errno.h>
#include <fcntl.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/file.h>
#include <time.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

#define MAXP 6000
static char *PATHS[MAXP];
static int NP;
static apr_pool_t *POOL;
static napr_cache_t *C;
static char CP[512];
typedef struct { int v[MAXP]; } map_t;       /* 0 absent, else version */
static map_t COM, CUR;
static unsigned char MARK[MAXP];
static int inw;

static napr_cache_entry_t entry(int i, int v)
{
    napr_cache_entry_t e;
    memset(&e, 0, sizeof e);
    if (v >= 1000) { i = v / 1000 - 1; v %= 1000; }      /* a copy of the entry of another path */
    e.mtime = (apr_time_t) (0x0102030405060708LL * v + i);
    e.ctime = (apr_time_t) (1000003LL * i - v);
    e.size = (apr_off_t) (v == 1 ? 0 : v == 2 ? 0x7fffffffffffLL - i : i * 17 + v);
    e.hash.low64 = 0x9E3779B97F4A7C15ull * (uint64_t) (i + 1) ^ (uint64_t) v;
    e.hash.high64 = 0xD1B54A32D192ED03ull * (uint64_t) (v + 1) ^ (uint64_t) i << 40;
    return e;
}
static apr_status_t c_open_st(void) { apr_pool_create(&POOL, NULL); C = NULL; inw = 0; return napr_cache_open(&C, CP, POOL); }
static void c_open(void)
{
    apr_status_t s = c_open_st();
    MC_CHECK(s == APR_SUCCESS && C, "opening the cache gives %d", (int) s);
    memset(MARK, 0, sizeof MARK);
}
static void c_close(void)
{
    apr_status_t s = napr_cache_close(C);
    MC_CHECK(s == APR_SUCCESS, "closing the cache gives %d", (int) s);
    apr_pool_destroy(POOL);
    C = NULL;
}
static void c_fresh(void)
{
    char l[600];
    snprintf(CP, sizeof CP, "%s/c.db", mc_dir);
    snprintf(l, sizeof l, "%s.lock", CP);
    unlink(CP); unlink(l);
    memset(&COM, 0, sizeof COM);
    c_open();
}
static void c_begin(void) { apr_status_t s; if (inw) return; s = napr_cache_begin_write(C, POOL); MC_CHECK(s == APR_SUCCESS, "beginning a write transaction gives %d", (int) s); memcpy(CUR.v, COM.v, sizeof(int) * (size_t) NP); inw = 1; }
static void c_commit(void) { apr_status_t s; if (!inw) return; s = napr_cache_commit_write(C); MC_CHECK(s == APR_SUCCESS, "commit gives %d", (int) s); memcpy(COM.v, CUR.v, sizeof(int) * (size_t) NP); inw = 0; mc_trans(1); }
static void c_abort(void) { apr_status_t s; if (!inw) return; s = napr_cache_abort_write(C); MC_CHECK(s == APR_SUCCESS, "abort gives %d", (int) s); inw = 0; mc_trans(1); }
static void c_up(int i, int v)
{
    napr_cache_entry_t e = entry(i, v);
    static char pb[5000];
    apr_status_t s;
    c_begin();
    strcpy(pb, PATHS[i]);
    s = napr_cache_upsert_in_txn(C, pb, &e);
    memset(pb, 'Z', strlen(pb)); memset(&e, 0xEE, sizeof e);
    MC_CHECK(s == APR_SUCCESS, "storing path %d gives %d", i, (int) s);
    CUR.v[i] = v;
    mc_trans(1);
}
static void c_mark(int i)
{
    static char pb[5000];
    apr_status_t s;
    strcpy(pb, PATHS[i]);
    s = napr_cache_mark_visited(C, pb);
    memset(pb, 'Z', strlen(pb));
    MC_CHECK(s == APR_SUCCESS, "marking path %d gives %d", i, (int) s);
    MARK[i] = 1;
    mc_trans(1);
}
static void c_sweep(void)
{
    apr_status_t s;
    int i;
    c_commit();
    s = napr_cache_sweep(C);
    MC_CHECK(s == APR_SUCCESS, "sweep gives %d", (int) s);
    for (i = 0; i < NP; i++) { if (!MARK[i]) COM.v[i] = 0; MARK[i] = 0; }
    mc_trans(1);
}
static void chk(const map_t *m, const char *who)
{
    int i;
    for (i = 0; i < NP; i++) {
        const napr_cache_entry_t *g = NULL;
        napr_cache_entry_t e;
        apr_status_t s = napr_cache_lookup_in_txn(C, PATHS[i], &g);
        if (!m->v[i]) { MC_CHECK(APR_STATUS_IS_NOTFOUND(s), "%s: lookup of the absent path %d gives %d", who, i, (int) s); continue; }
        MC_CHECK(s == APR_SUCCESS && g, "%s: lookup of the stored path %d gives %d", who, i, (int) s);
        e = entry(i, m->v[i]);
        MC_CHECK(!memcmp(g, &e, sizeof e), "%s: lookup of path %d gives another entry than the one stored last", who, i);
    }
    mc_state(mc_hash(m->v, sizeof(int) * (size_t) NP, 3));
}
static void chk_r(const char *who)
{
    apr_status_t s = napr_cache_begin_read(C, POOL);
    MC_CHECK(s == APR_SUCCESS, "beginning a read transaction gives %d", (int) s);
    chk(&COM, who);
    s = napr_cache_end_read(C);
    MC_CHECK(s == APR_SUCCESS, "ending a read transaction gives %d", (int) s);
}
static void chk_all(const char *who) { if (inw) chk(&CUR, who); else chk_r(who); }
static void fin(void)
{
    c_commit();
    chk_r("at the end");
    c_close();
    c_open();
    chk_r("after reopening");
    c_close();
    mc_eval(1); mc_trace(1);
    mc_outcome(mc_hash(COM.v, sizeof(int) * (size_t) NP, 17));
}
static void add_path(const char *p) { PATHS[NP++] = strdup(p); }
static void paths(int set, int n)
{
    char b[70100];
    int i;
    while (NP) free(PATHS[--NP]);
    if (set == 0) {                    /* tricky: prefixes, one-byte differences, high bytes, empty */
        static const char *const P[] = { "/a", "/a/", "/a/b", "/ab", "/A", "/", "", "/a\xff", "/a\x01", "/\xc3\xa9", "/a b", "/a\nb" };
        for (i = 0; i < n && i < 12; i++) add_path(P[i]);
    } else if (set >= 1000) {          /* paths that agree in their first set - 1000 characters */
        static const char *const P[] = { "", "a", "b", "ab", "aa", "a/", "\xff", "b0" };
        int k, l = set - 1000;
        for (k = 0; k < l; k++) b[k] = k % 16 ? (char) ('a' + k % 26) : '/';
        for (i = 0; i < n && i < 8; i++) { strcpy(b + l, P[i]); add_path(b); }
    } else for (i = 0; i < n; i++) {   /* 1: short, 2: long, 3: mixed */
        int l = set == 1 ? 0 : set == 2 ? 900 + i % 90 : (i * 7919) % 1000, k;
        k = sprintf(b, "/data/dir%03d/file%05d", i % 37, i);
        while (k < l) { b[k] = (char) ('a' + k % 20); k++; }
        b[k] = 0;
        add_path(b);
    }
}

/* a failing write, sync or truncation at every position of a commit and of a sweep */
static int f_on, f_ev, f_at, f_all;
static int same_as(const map_t *m)
{
    int i, ok = 1;
    apr_status_t s = napr_cache_begin_read(C, POOL);
    MC_CHECK(s == APR_SUCCESS, "beginning a read transaction after the failure gives %d", (int) s);
    for (i = 0; i < NP && ok; i++) {
        const napr_cache_entry_t *g = NULL;
        napr_cache_entry_t e = entry(i, m->v[i]);
        s = napr_cache_lookup_in_txn(C, PATHS[i], &g);
        if (m->v[i] ? s != APR_SUCCESS || !g || memcmp(g, &e, sizeof e) : !APR_STATUS_IS_NOTFOUND(s)) ok = 0;
    }
    napr_cache_end_read(C);
    return ok;
}
static void c_fail(int sweep, int set, int n)
{
    int a, b, all, k, i;
    paths(set, n);
    for (a = 0; a < (n > 8 ? 4 : 1 << n); a++) for (b = 0; b < (n > 8 ? 4 : 1 << n); b++) for (all = 0; all < 2; all++) {
        if (!mc_sel()) continue;
        for (k = 0; k < 200; k++) {
            apr_status_t s;
            int hit;
            map_t *after = &CUR;
            mc_desc("%d paths of set %d, subsets %d and %d: file operation %d%s of a %s fails", n, set, a, b, k, all ? " and all later ones" : "", sweep ? "sweep" : "commit");
            c_fresh();
            for (i = 0; i < n; i++) if (n > 8 ? i % 4 <= a : a >> i & 1) c_up(i, 1 + i % 4);
            c_commit();
            if (sweep) for (i = 0; i < n; i++) if (n > 8 ? i % 4 == b : b >> i & 1) c_mark(i);
            if (!sweep) { c_begin(); for (i = 0; i < n; i++) if (n > 8 ? i % 4 == b : b >> i & 1) c_up(i, 2 + i % 4); }
            else { memcpy(CUR.v, COM.v, sizeof(int) * (size_t) n); for (i = 0; i < n; i++) if (!MARK[i]) CUR.v[i] = 0; }
            f_at = k; f_ev = 0; f_all = all; f_on = 1;
            s = sweep ? napr_cache_sweep(C) : napr_cache_commit_write(C);
            f_on = 0;
            hit = f_ev > k;
            mc_trans(1);
            inw = 0;
            if (!hit) MC_CHECK(s == APR_SUCCESS, "a %s without any failure gives %d", sweep ? "sweep" : "commit", (int) s);
            if (s == APR_SUCCESS) {
                MC_CHECK(same_as(after), "the %s reports success but the contents are not those after it", sweep ? "sweep" : "commit");
                memcpy(COM.v, CUR.v, sizeof(int) * (size_t) n);
                if (sweep) memset(MARK, 0, (size_t) n);
            } else {
                if (!sweep && k % 2) (void) napr_cache_abort_write(C);      /* a caller may clean up after a failed commit */
                MC_CHECK(same_as(&COM) || same_as(after), "after the failed %s (%d) the contents are neither those before nor those after it", sweep ? "sweep" : "commit", (int) s);
                if (same_as(after)) memcpy(COM.v, CUR.v, sizeof(int) * (size_t) n);
                if (sweep) {                   /* the marks are still there: sweeping again gives what the first sweep should have given */
                    c_sweep();
                    chk_r("after sweeping again");
                }
            }
            c_up(0, 3); c_commit();
            fin();
            if (!hit) break;
        }
        MC_CHECK(k < 200, "too many file operations");
    }
}
static void c01_seq(int set, int n, int len)
{
    /* ops: upsert i (version by position), commit, abort, reopen (ends an open transaction by abort), lookup in a read transaction */
    int nops = n + 4, seq[12], d;
    long total = 1, x;
    paths(set, n);
    for (d = 0; d < len; d++) total *= nops;
    for (x = 0; x < total; x++) {
        long y = x;
        if (!mc_sel()) continue;
        mc_desc("%d paths of set %d:", n, set);
        c_fresh();
        for (d = 0; d < len; d++) {
            seq[d] = (int) (y % nops); y /= nops;
            if (seq[d] < n) { mc_desc_add(" put(%d)", seq[d]); c_up(seq[d], 1 + d); }
            else if (seq[d] == n) { mc_desc_add(" commit"); c_commit(); }
            else if (seq[d] == n + 1) { mc_desc_add(" abort"); c_abort(); }
            else if (seq[d] == n + 2) { mc_desc_add(" reopen"); c_abort(); c_close(); c_open(); }
            else { mc_desc_add(" look"); chk_all("in between"); }
        }
        chk_all("after the last operation");
        c_abort();
        chk_r("after ending the transaction");
        fin();
        if (x % 5003 == 11) mc_sample("%s", mc_desc_get());
    }
}
/* entries passed on as lookup returned them: they lie in the store, where storing them moves things */
static void c_copy(int i, int j)
{
    const napr_cache_entry_t *g = NULL;
    apr_status_t s;
    c_begin();
    s = napr_cache_lookup_in_txn(C, PATHS[i], &g);
    MC_CHECK(CUR.v[i] ? s == APR_SUCCESS && g : APR_STATUS_IS_NOTFOUND(s), "lookup of path %d gives %d", i, (int) s);
    if (!CUR.v[i]) return;
    s = napr_cache_upsert_in_txn(C, PATHS[j], g);
    MC_CHECK(s == APR_SUCCESS, "storing the entry of path %d under path %d gives %d", i, j, (int) s);
    CUR.v[j] = CUR.v[i] >= 1000 ? CUR.v[i] : (i + 1) * 1000 + CUR.v[i];
    mc_trans(1);
}
static void c01_alias(int set, int n, int len)
{
    int nops = n + n * n + 1, d;
    long total = 1, x;
    paths(set, n);
    for (d = 0; d < len; d++) total *= nops;
    for (x = 0; x < total; x++) {
        long y = x;
        int o;
        if (!mc_sel()) continue;
        mc_desc("%d paths of set %d:", n, set);
        c_fresh();
        for (d = 0; d < len; d++) {
            o = (int) (y % nops); y /= nops;
            if (o < n) { mc_desc_add(" put(%d)", o); c_up(o, 1 + d); }
            else if (o < n + n * n) { o -= n; mc_desc_add(" copy(%d to %d)", o / n, o % n); c_copy(o / n, o % n); }
            else { mc_desc_add(" commit"); c_commit(); }
        }
        chk_all("after the last operation");
        fin();
    }
}
static void c01_alias_full(int set, int n, int mode)
{
    int i, j, k;
    paths(set, n);
    for (i = 0; i < n; i++) {
        if (!mc_sel()) continue;
        for (j = 0; j < n; j++) {
            mc_desc("%d paths of set %d, %s: copy(%d to %d)", n, set, mode == 0 ? "stored before" : mode == 1 ? "stored by the same transaction" : "half of them stored before", i, j);
            c_fresh();
            for (k = 0; k < n; k++) if (mode != 2 || k % 2 == 0 || k == i) c_up(k, 1 + k % 3);
            if (mode != 1) c_commit();
            if (mode == 2) for (k = 1; k < n; k += 2) if (k != i && k != j) c_up(k, 2);
            c_copy(i, j); c_copy(j, (j + 1) % n);
            chk_all("after copying");
            fin();
        }
    }
}
static void c01_big(int set, int n, int order, int per)
{
    int i, k, r;
    if (!mc_sel_weighted(200)) return;
    paths(set, n);
    mc_desc("%d paths of set %d, order %d, %d per transaction, three rounds of updates", n, set, order, per);
    c_fresh();
    for (r = 1; r <= 3; r++) {
        for (k = 0; k < n; k++) {
            i = order == 0 ? k : order == 1 ? n - 1 - k : (int) ((long) k * 101 % n);
            if (r == 2 && i % 3) continue;
            c_up(i, r);
            if (r == 3 && i % 5 == 0) c_up(i, 4);
            if (k % per == per - 1) { if (r == 2 && k % 2) c_abort(); else c_commit(); }
        }
        c_commit();
        chk_r("after a round");
        c_close(); c_open();
        chk_r("after a round and reopening");
    }
    fin();
}
/* every length of a common beginning: stored in either order, updated, marked, swept */
static void c_prefix(int sweep)
{
    int l, o, i;
    for (l = 1; l <= 980; l++) for (o = 0; o < 2; o++) {
        if (!mc_sel()) continue;
        paths(1000 + l, 8);
        mc_desc("8 paths that agree in their first %d characters, stored %s", l, o ? "backwards" : "in order");
        c_fresh();
        for (i = 0; i < 8; i++) c_up(o ? 7 - i : i, 1);
        chk_all("while storing");
        c_commit();
        for (i = o; i < 8; i += 2) c_up(i, 2);
        c_commit();
        chk_r("after updating");
        if (sweep) {
            for (i = 0; i < 8; i++) if ((l >> (i % 3) & 1) != (i & 1)) c_mark(i);
            c_sweep();
            chk_r("after the sweep");
        }
        fin();
    }
}
/* paths of every length around and beyond what the store takes: refused without a trace or stored like any other */
static void c01_limit(int sweep)
{
    static const int L[] = { 1500, 2000, 2040, 2048, 3000, 4000, 4040, 4046, 4050, 4094, 4095, 4096, 4097, 4200, 8192, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 65600, 66000, 66500, 70000 };
    static char pb[70100];
    int k, o, i;
    for (k = 0; k < 120 + (int) (sizeof L / sizeof *L); k++) for (o = 0; o < 4; o++) {
        int l = k < 120 ? 960 + k : L[k - 120], took = 0;
        if (!mc_sel()) continue;
        paths(1000 + l, 6);
        add_path("/a"); add_path(""); add_path("/data/with/an/ordinary/name");
        memcpy(pb, PATHS[0], (size_t) l); pb[l > 1000 ? 1000 : l] = 0; add_path(pb);
        memcpy(pb, PATHS[0], (size_t) l); pb[l % 256 ? l % 256 : 1] = 0; add_path(pb);
        memcpy(pb, PATHS[0], (size_t) l); pb[l % 65536 ? l % 65536 : 1] = 0; if (l > 65536) add_path(pb);
        for (i = 1; i < NP; i++) { int j; for (j = 0; j < i; j++) if (!strcmp(PATHS[i], PATHS[j])) { free(PATHS[i]); PATHS[i] = PATHS[--NP]; i--; break; } }
        mc_desc("paths of %d and more characters, %s, among short ones", l, o & 1 ? "in a transaction of their own" : "stored together");
        c_fresh();
        for (i = 0; i < NP; i++) {
            int p = o & 2 ? NP - 1 - i : i;
            napr_cache_entry_t e = entry(p, 1);
            apr_status_t s;
            c_begin();
            strcpy(pb, PATHS[p]);
            s = napr_cache_upsert_in_txn(C, pb, &e);
            memset(pb, 'Z', strlen(pb)); memset(&e, 0xEE, sizeof e);
            MC_CHECK(s == APR_SUCCESS || strlen(PATHS[p]) > 980, "storing a path of %d characters gives %d", (int) strlen(PATHS[p]), (int) s);
            if (s == APR_SUCCESS) { CUR.v[p] = 1; took++; }
            chk_all("while storing");
            if (o & 1) { c_commit(); chk_r("after a commit"); }
        }
        c_commit();
        chk_r("after storing");
        if (sweep) {
            for (i = 0; i < NP; i++) if ((i + k) % 3) {
                strcpy(pb, PATHS[i]);
                MC_CHECK(napr_cache_mark_visited(C, pb) == APR_SUCCESS, "marking a path of %d characters fails", (int) strlen(PATHS[i]));
                memset(pb, 'Z', strlen(pb));
                MARK[i] = 1;
            }
            c_sweep();
            chk_r("after the sweep");
        }
        fin();
    }
}
static void c01(void)
{
    int t = mc_thorough, o;
    c_prefix(0); c01_limit(0);
    c01_seq(0, 3, t ? 8 : 7); c01_seq(0, 12, t ? 4 : 3); c01_seq(2, 5, t ? 5 : 4);
    c01_alias(0, 2, t ? 6 : 5); c01_alias(0, 3, t ? 5 : 4); c01_alias(2, 3, 3);
    { int m; for (m = 0; m < 3; m++) { c01_alias_full(2, t ? 16 : 10, m); c01_alias_full(1, t ? 60 : 24, m); c01_alias_full(0, 12, m); } }
    c_fail(0, 0, t ? 5 : 3); c_fail(0, 2, 4); c_fail(0, 1, 200);
    for (o = 0; o < 3; o++) {
        c01_big(1, t ? 6000 : 3000, o, 100); c01_big(1, 500, o, 1); c01_big(2, 300, o, 7); c01_big(3, 800, o, 50); c01_big(3, 400, o, 100000); c01_big(1, 2000, o, 100000);
    }
}

static void c02_sub(int set, int n, int pre, int rounds)
{
    /* every subset of stored entries x every subset of marks, then again */
    int a, b, i, r, when;
    paths(set, n);
    for (a = 0; a < 1 << n; a++) for (b = 0; b < 1 << n; b++) for (when = 0; when < 3; when++) {
        if (!mc_sel()) continue;
        mc_desc("%d paths of set %d: stored 0x%x, marked 0x%x %s, sweep", n, set, a, b, when == 0 ? "after storing" : when == 1 ? "before storing" : "half before, twice");
        c_fresh();
        for (r = 0; r < rounds; r++) {
            if (when == 1) for (i = 0; i < n; i++) if (b >> i & 1) c_mark(i);
            if (when == 2) for (i = 0; i < n; i += 2) if (b >> i & 1) c_mark(i);
            for (i = 0; i < n; i++) if (a >> i & 1) { c_up(i, 1 + (i + r) % 4); if (pre) c_commit(); }
            c_commit();
            if (when != 1) for (i = n - 1; i >= 0; i--) if (b >> i & 1) c_mark(i);
            c_sweep();
            chk_r("after the sweep");
            if (r == 0) b = ((b << 1) | (b >> (n - 1))) & ((1 << n) - 1);
            else b = ((b >> 1) | (b << (n - 1))) & ((1 << n) - 1);
        }
        if (rounds & 1) b = ((b >> 1) | (b << (n - 1))) & ((1 << n) - 1);
        fin();
    }
}
static void c02_big(int set, int n, int pat, int order, int mode)
{
    static const char *PN[] = { "none", "all", "every second", "every third", "first half", "last half", "all but the first", "all but the last", "middle third", "all but the middle third", "only the first", "only the last", "all but one in 50" };
    int i, k, r;
    if (!mc_sel_weighted(200)) return;
    paths(set, n);
    mc_desc("%d paths of set %d stored (order %d), marked: %s, %s", n, set, order, PN[pat], mode == 0 ? "swept" : mode == 1 ? "reopened between storing and marking" : "swept three times");
    c_fresh();
    for (k = 0; k < n; k++) { i = order == 0 ? k : order == 1 ? n - 1 - k : (int) ((long) k * 101 % n); c_up(i, 1 + i % 4); if (k % 333 == 0) c_commit(); }
    c_commit();
    if (mode == 1) { c_mark(0); c_close(); c_open(); }       /* marks do not survive closing */
    for (r = 0; r < (mode == 2 ? 3 : 1); r++) {
        for (i = 0; i < n; i++) {
            int m = 0;
            switch (pat) {
            case 1: m = 1; break; case 2: m = i % 2 == 0; break; case 3: m = (i + r) % 3 == 0; break; case 4: m = i < n / 2; break; case 5: m = i >= n / 2; break;
            case 6: m = i > 0; break; case 7: m = i < n - 1; break; case 8: m = i > n / 3 && i < 2 * n / 3; break; case 9: m = !(i > n / 3 && i < 2 * n / 3); break;
            case 10: m = i == 0; break; case 11: m = i == n - 1; break; case 12: m = i % 50 != 7; break;
            }
            if (m) c_mark(order == 1 ? n - 1 - i : i);
        }
        c_sweep();
        chk_r("after the sweep");
        if (mode == 2 && r < 2) { for (i = r; i < n; i += 3) c_up(i, 2 + r); c_commit(); chk_r("after storing again"); }
    }
    fin();
    mc_sample("%s", mc_desc_get());
}
static void c02(void)
{
    int t = mc_thorough, p, o, m;
    c_prefix(1); c01_limit(1);
    c02_sub(0, t ? 5 : 4, 0, 2); c02_sub(0, 4, 1, 3); c02_sub(2, t ? 6 : 5, 0, 1);
    c_fail(1, 0, t ? 5 : 3); c_fail(1, 2, 4); c_fail(1, 1, 200);
    for (p = 0; p < 13; p++) for (o = 0; o < 3; o++) for (m = 0; m < 3; m++) {
        c02_big(1, t ? 3000 : 900, p, o, m); c02_big(2, 120, p, o, m); c02_big(3, 250, p, o, m); c02_big(1, 97, p, o, m); c02_big(2, 5, p, o, m);
        if (t) c02_big(3, 2000, p, o, m);
    }
}

/* ---- C03 ---- */
/* file operations of the owner process are numbered; at a chosen one the process is killed, or another process tries to open */
static int ev, at = -1, action, watching;
static int sh_fd;
typedef struct { volatile int ok, fail, events, committed, progress, changed; volatile char msg[400]; } sh_t;
static sh_t *SH;
static void at_event(void);
static int f_hit(void) { int k; if (!f_on) return 0; k = f_ev++; if (k == f_at || (f_all && f_at >= 0 && k > f_at)) { errno = f_ev & 1 ? EIO : ENOSPC; return 1; } return 0; }
static int m_on, m_fine;                   /* this process takes part in an interleaving */
static unsigned char m_fd[1024];
static void m_point(void);
#define HOOK() do { if (watching) at_event(); if (m_on && m_fine) m_point(); if (f_hit()) return -1; } while (0)
#define HOOK_() do { if (watching) at_event(); if (m_on && m_fine) m_point(); } while (0)
#define MINE(p) (m_on && !strncmp((p), CP, strlen(CP)))
ssize_t write(int fd, const void *b, size_t n) { HOOK(); return syscall(SYS_write, fd, b, n); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { HOOK(); return syscall(SYS_pwrite64, fd, b, n, o); }
int fsync(int fd) { HOOK(); return (int) syscall(SYS_fsync, fd); }
int fdatasync(int fd) { HOOK(); return (int) syscall(SYS_fdatasync, fd); }
int ftruncate(int fd, off_t o) { HOOK(); return (int) syscall(SYS_ftruncate, fd, o); }
int ftruncate64(int fd, off64_t o) { HOOK(); return (int) syscall(SYS_ftruncate, fd, o); }
int close(int fd) { if (m_on && !m_fine && fd >= 0 && fd < 1024 && m_fd[fd]) m_point(); HOOK_(); if (fd >= 0 && fd < 1024) m_fd[fd] = 0; return (int) syscall(SYS_close, fd); }
int unlink(const char *p) { if (MINE(p)) m_point(); return (int) syscall(SYS_unlink, p); }
int unlinkat(int d, const char *p, int f) { if (MINE(p)) m_point(); return (int) syscall(SYS_unlinkat, d, p, f); }
int remove(const char *p) { if (MINE(p)) m_point(); return (int) syscall(SYS_unlink, p); }
int rename(const char *p, const char *q) { if (MINE(p) || MINE(q)) m_point(); return (int) syscall(SYS_rename, p, q); }
int link(const char *p, const char *q) { if (MINE(p) || MINE(q)) m_point(); return (int) syscall(SYS_link, p, q); }
static void m_blocked(void);
static int do_fcntl(int fd, int cmd, void *arg)
{
    if (m_on && (cmd == F_SETLK || cmd == F_SETLKW || cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW)) {
        m_point();
        if (cmd == F_SETLKW || cmd == F_OFD_SETLKW) {
            int r = (int) syscall(SYS_fcntl, fd, cmd == F_SETLKW ? F_SETLK : F_OFD_SETLK, arg);
            if (r < 0 && (errno == EAGAIN || errno == EACCES)) m_blocked();
            return r;
        }
    }
    return (int) syscall(SYS_fcntl, fd, cmd, arg);
}
int fcntl(int fd, int cmd, ...) { void *a; va_list l; va_start(l, cmd); a = va_arg(l, void *); va_end(l); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { void *a; va_list l; va_start(l, cmd); a = va_arg(l, void *); va_end(l); return do_fcntl(fd, cmd, a); }
int flock(int fd, int op)
{
    if (m_on) {
        m_point();
        if (!(op & (LOCK_NB | LOCK_UN))) { int r = (int) syscall(SYS_flock, fd, op | LOCK_NB); if (r < 0 && errno == EWOULDBLOCK) m_blocked(); return r; }
    }
    return (int) syscall(SYS_flock, fd, op);
}
void *mmap(void *a, size_t n, int p, int f, int fd, off_t o) { if (fd >= 0) HOOK_(); return (void *) syscall(SYS_mmap, a, n, p, f, fd, o); }
void *mmap64(void *a, size_t n, int p, int f, int fd, off64_t o) { if (fd >= 0) HOOK_(); return (void *) syscall(SYS_mmap, a, n, p, f, fd, o); }
int munmap(void *a, size_t n) { if (n > (64 << 20)) HOOK_(); return (int) syscall(SYS_munmap, a, n); }
static int do_open(const char *p, int fl, int m)
{
    int fd;
    if (watching && strstr(p, "/c.db")) at_event();
    if (MINE(p)) m_point();
    fd = (int) syscall(SYS_openat, AT_FDCWD, p, fl, m);
    if (MINE(p) && fd >= 0 && fd < 1024) m_fd[fd] = 1;
    return fd;
}
int open(const char *p, int fl, ...) { int m = 0; va_list a; va_start(a, fl); if (fl & O_CREAT) m = va_arg(a, int); va_end(a); return do_open(p, fl, m); }
int open64(const char *p, int fl, ...) { int m = 0; va_list a; va_start(a, fl); if (fl & O_CREAT) m = va_arg(a, int); va_end(a); return do_open(p, fl, m); }

static uint64_t fhash(const char *p)
{
    static unsigned char b[1 << 20];
    int fd = (int) syscall(SYS_open, p, O_RDONLY, 0);
    long n;
    uint64_t h;
    if (fd < 0) return 0;
    n = syscall(SYS_read, fd, b, sizeof b);
    syscall(SYS_close, fd);
    h = mc_hash(b, n > 0 ? (size_t) n : 0, 77);
    return h;
}
static volatile int owned;                 /* napr_cache_open has returned success and close has not begun */
static void intruder(void)                 /* runs in the owner: a forked process tries to open */
{
    int st, k;
    uint64_t h = fhash(CP), h2;
    pid_t p;
    fflush(NULL);
    p = fork();
    if (p == 0) {
        napr_cache_t *c2 = NULL;
        apr_pool_t *q;
        apr_status_t s = APR_SUCCESS;
        watching = 0;
        apr_pool_create(&q, NULL);
        for (k = 0; k < 2; k++) { s = napr_cache_open(&c2, CP, q); if (s == APR_SUCCESS) break; }
        _exit(s == APR_SUCCESS ? 10 : 11);
    }
    watching = 0;
    waitpid(p, &st, 0);
    watching = 1;
    if (!WIFEXITED(st)) { SH->fail = 1; strcpy((char *) SH->msg, "the other process died while opening"); _exit(5); }
    if (WEXITSTATUS(st) == 10) { SH->fail = 1; strcpy((char *) SH->msg, "another process could open the cache while it was open"); _exit(5); }
    h2 = fhash(CP);
    if (h != h2) { SH->fail = 1; strcpy((char *) SH->msg, "the refused attempt of another process changed the cache file"); _exit(5); }
}
static void at_event(void)
{
    int e = ev++;
    SH->events = ev;
    if (e != at) return;
    if (action == 0) syscall(SYS_kill, getpid(), SIGKILL);
    else if (action == 1 && owned) intruder();
}
/* the owner's life: open, store, commit, store without commit, sweep, close; the model state goes to shared memory as a number:
 * committed = number of completed commits, progress = 1 while a commit is in progress */
static void owner(int scen)
{
    int i;
    SH->committed = 0; SH->progress = 0;
    watching = 1; ev = 0;
    SH->progress = 1;
    c_open();
    owned = 1;
    SH->progress = 0;
    if (action == 2 && at == 0) intruder();
    for (i = 0; i < NP; i++) c_up(i, 1);
    if (action == 2 && at == 1) intruder();
    SH->progress = 1; c_commit(); SH->progress = 0; SH->committed = 1;
    if (action == 2 && at == 2) intruder();
    if (scen == 0) { c_up(0, 2); if (action == 2 && at == 3) intruder(); c_abort(); }
    else if (scen == 1) { c_up(0, 2); SH->progress = 1; c_commit(); SH->progress = 0; SH->committed = 2; }
    else if (scen == 2) { c_mark(1); SH->progress = 1; c_sweep(); SH->progress = 0; SH->committed = 2; }
    if (action == 2 && at == 4) intruder();
    chk_r("in the owner");
    if (scen == 3) { watching = 0; SH->ok = 1; _exit(0); }          /* ends without closing */
    if (scen == 4) { c_up(1, 3); watching = 0; SH->ok = 1; _exit(0); }   /* ends inside a transaction */
    owned = 0;
    c_close();
    watching = 0;
    SH->ok = 1;
    _exit(0);
}
static void model(int scen, int committed, map_t *m)
{
    int i;
    memset(m, 0, sizeof *m);
    if (committed >= 1) for (i = 0; i < NP; i++) m->v[i] = 1;
    if (committed >= 2 && scen == 1) m->v[0] = 2;
    if (committed >= 2 && scen == 2) { for (i = 0; i < NP; i++) if (i != 1) m->v[i] = 0; }
}
static int same(const map_t *m)
{
    int i, r = 1;
    if (napr_cache_begin_read(C, POOL) != APR_SUCCESS) return 0;
    for (i = 0; i < NP && r; i++) {
        const napr_cache_entry_t *g = NULL;
        napr_cache_entry_t e = entry(i, m->v[i]);
        apr_status_t s = napr_cache_lookup_in_txn(C, PATHS[i], &g);
        r = m->v[i] ? s == APR_SUCCESS && !memcmp(g, &e, sizeof e) : APR_STATUS_IS_NOTFOUND(s);
    }
    napr_cache_end_read(C);
    return r;
}
static void after(int scen, int old)
{
    map_t m;
    apr_status_t s;
    int i, base = SH->committed;
    (void) old;
    s = c_open_st();
    MC_CHECK(s == APR_SUCCESS, "after the owner ended, opening the cache gives %d", (int) s);
    model(scen, base, &m);
    i = same(&m);
    if (!i && SH->progress) { model(scen, base + 1, &m); i = same(&m); }
    MC_CHECK(i, "after the owner ended, the cache does not hold what was committed (%d commits completed)", base);
    COM = m;
    memset(MARK, 0, sizeof MARK);
    c_up(0, 4); c_commit();
    chk_r("after taking over");
    c_close();
    c_open(); chk_r("after taking over and reopening"); c_close();
    mc_eval(1); mc_trace(1);
}
static void c03_run(int scen)
{
    pid_t p;
    int st;
    char l[600];
    snprintf(CP, sizeof CP, "%s/c.db", mc_dir);
    snprintf(l, sizeof l, "%s.lock", CP);
    unlink(CP); unlink(l);
    memset(&COM, 0, sizeof COM);
    memset((void *) SH, 0, sizeof *SH);
    fflush(NULL);
    p = fork();
    if (p == 0) { owned = 0; owner(scen); _exit(0); }
    if (waitpid(p, &st, 0) != p) mc_error("waitpid");
    if (SH->fail) mc_fail(NULL, "%s", (const char *) SH->msg);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) _exit(77);      /* violation recorded by the owner */
    if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) mc_fail(NULL, "the owner died with signal %d", WTERMSIG(st));
    if (WIFEXITED(st) && !SH->ok) mc_fail(NULL, "the owner ended with status %d", WEXITSTATUS(st));
    mc_trans((uint64_t) SH->events);
    mc_outcome((uint64_t) (SH->committed * 10 + SH->progress + scen * 100));
    mc_state((uint64_t) (SH->events + 1000 * scen + 100000 * action + 1000000 * SH->committed));
    after(scen, 0);
}

/* Interleavings of two or three processes: every process stops before each of its file operations (coarse: those on names,
 * locks and descriptors of the cache and its companions; fine: also writes, syncs, truncations and mappings), the controller
 * decides who goes on.  All interleavings with up to a number of preemptions and of kills. */
#define MP 3
#define MPT 600
enum { M_RUN, M_AT, M_END };
typedef struct {
    sem_t turn[MP], ctl;
    volatile int st[MP], who, bad, inside, count, maybe, active[MP], overlap[MP], opened[MP], refused[MP], points;
    volatile char msg[300];
} ms_t;
static ms_t *MS;
static int me, m_np, m_rounds;
static void m_point(void) { if (!m_on) return; MS->st[me] = M_AT; sem_post(&MS->ctl); while (sem_wait(&MS->turn[me]) < 0) ; }
static void m_say(const char *t) { if (!MS->bad) { strncpy((char *) MS->msg, t, 299); MS->bad = 1; } m_on = 0; MS->st[me] = M_END; sem_post(&MS->ctl); syscall(SYS_exit_group, 1); }
static void m_blocked(void) { m_say("opening the cache waits for the other process instead of failing"); }
static void m_proc(void)
{
    int r, k;
    m_on = 1; memset(m_fd, 0, sizeof m_fd);
    for (r = 0; r < m_rounds; r++) {
        apr_status_t s;
        const napr_cache_entry_t *g = NULL;
        napr_cache_entry_t e;
        m_point();
        MS->active[me] = 1; MS->overlap[me] = 0;
        for (k = 0; k < m_np; k++) if (k != me && MS->active[k]) { MS->overlap[me] = 1; MS->overlap[k] = 1; }
        s = c_open_st();
        if (s != APR_SUCCESS) {
            MS->active[me] = 0; MS->refused[me]++;
            if (!MS->overlap[me]) m_say("opening the cache failed although no other process was using it");
            continue;
        }
        MS->opened[me]++;
        if (MS->inside >= 0) m_say("two processes have the cache open at the same time");
        MS->inside = me;
        m_point();
        if (napr_cache_begin_write(C, POOL) != APR_SUCCESS) m_say("the owner cannot begin a transaction");
        s = napr_cache_lookup_in_txn(C, PATHS[0], &g);
        for (k = MS->count; k <= MS->count + MS->maybe; k++) {
            e = entry(0, k);
            if (k ? s == APR_SUCCESS && !memcmp(g, &e, sizeof e) : APR_STATUS_IS_NOTFOUND(s)) break;
        }
        if (k > MS->count + MS->maybe) m_say("the owner does not find what the previous owner committed");
        MS->count = k; MS->maybe = 0;
        e = entry(0, k + 1);
        if (napr_cache_upsert_in_txn(C, PATHS[0], &e) != APR_SUCCESS) m_say("the owner cannot store");
        MS->maybe = 1;
        if (napr_cache_commit_write(C) != APR_SUCCESS) m_say("the owner cannot commit");
        MS->count++; MS->maybe = 0;
        MS->inside = -1;
        if (napr_cache_close(C) != APR_SUCCESS) m_say("the owner cannot close");
        MS->active[me] = 0;
    }
    m_on = 0; MS->st[me] = M_END; sem_post(&MS->ctl);
    syscall(SYS_exit_group, 0);
}
/* choices: process number, or 10 + process number to kill it there */
static int m_n, m_cur[MPT], m_en[MPT], m_ch[MPT];
static void m_ctl_wait(void)
{
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    t.tv_sec += 20;
    while (sem_timedwait(&MS->ctl, &t) < 0) if (errno == ETIMEDOUT) { MS->bad = 1; strcpy((char *) MS->msg, "a process using the cache hung or died"); return; }
}
static void m_run(const int *pre, int npre)
{
    pid_t pid[MP];
    int i, cur, left, ended[MP] = { 0 };
    char l[600], key[200];
    c_fresh(); c_close();
    snprintf(l, sizeof l, "%s.lock", CP); syscall(SYS_unlink, l);
    memset((void *) MS, 0, sizeof *MS);
    MS->inside = -1;
    sem_init(&MS->ctl, 1, 0);
    for (i = 0; i < m_np; i++) sem_init(&MS->turn[i], 1, 0);
    fflush(NULL);
    for (i = 0; i < m_np; i++) {
        MS->st[i] = M_RUN;
        pid[i] = fork();
        if (pid[i] < 0) mc_error("fork");
        if (pid[i] == 0) { me = i; m_proc(); _exit(0); }
        m_ctl_wait();
    }
    m_n = 0; cur = -1; left = m_np;
    while (left && !MS->bad) {
        int en = 0, c;
        for (i = 0; i < m_np; i++) if (!ended[i]) en |= 1 << i;
        if (cur >= 0 && ended[cur]) cur = -1;
        if (m_n < npre) c = pre[m_n];
        else if (cur >= 0) c = cur;
        else for (c = 0; !(en >> c & 1); c++) ;
        if (m_n >= MPT) { mc_cap("file operations of an interleaving"); break; }
        m_cur[m_n] = cur; m_en[m_n] = en; m_ch[m_n] = c; m_n++;
        if (c >= 10) {
            c -= 10;
            syscall(SYS_kill, pid[c], SIGKILL);
            waitpid(pid[c], NULL, 0);
            pid[c] = 0;
            ended[c] = 1; left--;
            MS->active[c] = 0;
            if (MS->inside == c) MS->inside = -1;
            cur = -1;
            continue;
        }
        cur = c;
        MS->st[c] = M_RUN;
        sem_post(&MS->turn[c]);
        m_ctl_wait();
        if (MS->st[c] == M_END) { ended[c] = 1; left--; }
    }
    for (i = 0; i < m_np; i++) if (pid[i] > 0) { if (left) syscall(SYS_kill, pid[i], SIGKILL); waitpid(pid[i], NULL, 0); }
    if (MS->bad) {
        int k, o = 0;
        for (k = 0; k < m_n && o < 180; k++) o += snprintf(key + o, sizeof key - (size_t) o, "%d ", m_ch[k]);
        mc_fail(NULL, "%s (order of the processes: %s)", (const char *) MS->msg, key);
    }
    mc_eval(1); mc_trace(1); mc_trans((uint64_t) m_n);
    { int o = MS->count; for (i = 0; i < m_np; i++) o = o * 25 + MS->opened[i] * 5 + MS->refused[i]; mc_outcome((uint64_t) o + 500000); }
    mc_state(mc_hash(m_ch, sizeof *m_ch * (size_t) m_n, (uint64_t) (m_np * 10 + m_rounds)));
    /* nobody is left: the cache can be opened and holds the last commit */
    {
        const napr_cache_entry_t *g = NULL;
        napr_cache_entry_t e;
        apr_status_t s = c_open_st();
        int k;
        MC_CHECK(s == APR_SUCCESS, "after all processes ended, opening the cache gives %d", (int) s);
        MC_CHECK(napr_cache_begin_read(C, POOL) == APR_SUCCESS, "reading after all processes ended");
        s = napr_cache_lookup_in_txn(C, PATHS[0], &g);
        for (k = MS->count; k <= MS->count + MS->maybe; k++) { e = entry(0, k); if (k ? s == APR_SUCCESS && !memcmp(g, &e, sizeof e) : APR_STATUS_IS_NOTFOUND(s)) break; }
        MC_CHECK(k <= MS->count + MS->maybe, "after all processes ended, the cache does not hold the last of %d commits", MS->count);
        napr_cache_end_read(C);
        c_close();
    }
}
static void m_explore(const int *pre, int npre, int pb, int kb, int top, int t0)
{
    int *ch, *cu, *en, *nx, n, i, a;
    m_run(pre, npre);
    n = m_n;
    ch = malloc(sizeof(int) * (size_t) n * 4); cu = ch + n; en = cu + n; nx = en + n;
    memcpy(ch, m_ch, sizeof(int) * (size_t) n); memcpy(cu, m_cur, sizeof(int) * (size_t) n); memcpy(en, m_en, sizeof(int) * (size_t) n);
    for (i = npre; i < n; i++) for (a = 0; a < 2 * m_np; a++) {
        int p = a % m_np, kill = a >= m_np, c = kill ? 10 + p : p, cost;
        if (!(en[i] >> p & 1) || c == ch[i]) continue;
        if (kill && (!kb || p != ch[i])) continue;                    /* only the running process is killed: elsewhere it makes no difference */
        cost = !kill && cu[i] >= 0;
        if (cost > pb) continue;
        memcpy(nx, ch, sizeof(int) * (size_t) i); nx[i] = c;
        if (top) {
            if (!mc_sel()) continue;
            mc_desc("%d processes opening, updating and closing %d times, stopped at %s file operations: first deviation %s %d at step %d, then up to %d preemptions and %d kills", m_np, m_rounds,
                    m_fine ? "all" : "name and lock", kill ? "kill" : "switch to", p, i, pb - cost, kb - kill);
        }
        m_explore(nx, i + 1, pb - cost, kb - kill, 0, t0);
    }
    free(ch);
}
static void c03_inter(int np, int rounds, int fine, int pb, int kb)
{
    m_np = np; m_rounds = rounds; m_fine = fine;
    at = -1; action = 0; watching = 0;
    paths(0, 1);
    m_explore(NULL, 0, pb, kb, 1, 0);
}
static void c03(void)
{
    int scen, n, i, k;
    SH = mmap(NULL, sizeof *SH, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    MS = mmap(NULL, sizeof *MS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    c03_inter(2, 1, 0, 4 + mc_thorough, 1);
    c03_inter(2, 2, 0, 3 + mc_thorough, 0);
    c03_inter(2, 2, 0, 2, 1);
    c03_inter(3, 1, 0, 3 + mc_thorough, 0);
    c03_inter(3, 1, 0, 2, 1);
    c03_inter(2, 1, 1, 2 + mc_thorough, 0);
    c03_inter(2, 1, 1, 1 + mc_thorough, 1);
    for (k = 0; k < 2; k++) for (scen = 0; scen < 5; scen++) {
        paths(k ? 2 : 0, k ? 20 : 6);
        at = -1; action = 0;
        c03_run(scen);
        n = SH->events;
        for (i = 0; i < n; i++) for (action = 0; action < 2; action++) {
            if (!mc_sel()) continue;
            mc_desc("owner scenario %d with %d paths: %s at its file operation %d", scen, NP, action == 0 ? "killed" : "another process tries to open", i);
            at = i;
            c03_run(scen);
        }
        action = 2;
        for (i = 0; i < 5; i++) {
            if (!mc_sel()) continue;
            mc_desc("owner scenario %d with %d paths: another process tries to open at stage %d", scen, NP, i);
            at = i;
            c03_run(scen);
        }
    }
    /* an attempt that fails for another reason must not keep the lock: the cache file is unusable, then repaired */
    for (i = 0; i < 4; i++) for (k = 0; k < 3; k++) {
        apr_status_t s;
        int fd;
        pid_t p;
        int st2;
        if (!mc_sel()) continue;
        at = -1; action = 0;
        paths(0, 6);
        mc_desc("opening fails because the cache file is %s; then repaired and opened by %s", i == 0 ? "a directory" : i == 1 ? "not a database" : i == 2 ? "too short" : "empty after its first pages are damaged",
                k == 0 ? "the same process" : k == 1 ? "another process" : "another process, after two failures");
        c_fresh(); c_up(0, 1); c_commit(); c_close();
        { char sv[600]; snprintf(sv, sizeof sv, "%s.sav", CP); rename(CP, sv); }
        if (i == 0) mkdir(CP, 0755);
        else {
            char junk[16384];
            fd = (int) syscall(SYS_open, CP, O_RDWR | O_CREAT | O_TRUNC, 0644);
            memset(junk, 'j', sizeof junk);
            if (i == 3) memset(junk + 8192, 0, 8192);
            if (syscall(SYS_write, fd, junk, (size_t) (i == 2 ? 100 : 16384)) < 0) mc_error("junk");
            syscall(SYS_close, fd);
        }
        {
            int r, rounds = k == 2 ? 2 : 1;
            for (r = 0; r < rounds; r++) {
                s = c_open_st();
                MC_CHECK(s != APR_SUCCESS, "a file that is no database is accepted as cache");
                /* POOL stays alive: the failed handle must hold nothing */
            }
        }
        if (i == 0) rmdir(CP); else unlink(CP);
        { char sv[600]; snprintf(sv, sizeof sv, "%s.sav", CP); rename(sv, CP); }
        if (k == 0) { c_open(); chk_r("after the repair"); c_close(); }
        else {
            fflush(NULL);
            p = fork();
            if (p == 0) { c_open(); chk_r("after the repair"); c_close(); _exit(0); }
            waitpid(p, &st2, 0);
            if (WIFEXITED(st2) && WEXITSTATUS(st2) == 77) _exit(77);
            MC_CHECK(WIFEXITED(st2) && WEXITSTATUS(st2) == 0, "opening by another process died");
        }
        mc_eval(1); mc_trace(1); mc_trans(1);
    }
}
static void worker(void)
{
    apr_initialize();
    mc_watch(mc_is("C03") ? 120 : 60);
    snprintf(CP, sizeof CP, "%s/c.db", mc_dir);
    if (mc_is("C01")) c01(); else if (mc_is("C02")) c02(); else c03();
}
int main(int argc, char **argv) { mc_init(argc, argv); return mc_run(worker); }
