/* D01, D02, D07: the store beyond 8-, 16- and 32-bit borders: transaction numbers, page numbers and file offsets. */
#define _GNU_SOURCE
#include "mc.h"
#include <apr_general.h>
#include <apr_pools.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <unistd.h>
#include "napr_db.h"

/* nothing here depends on what is on disk after a crash */
int fsync(int fd) { (void) fd; return 0; }
int fdatasync(int fd) { (void) fd; return 0; }

static apr_pool_t *POOL;
static napr_db_env_t *ENV;
static char PATH[300];
static apr_size_t MAP;
static int VS;
static void open_(int fresh)
{
    if (fresh) { char b[320]; unlink(PATH); snprintf(b, sizeof b, "%s-lock", PATH); unlink(b); snprintf(b, sizeof b, "%s.lock", PATH); unlink(b); }
    apr_pool_create(&POOL, NULL);
    MC_CHECK(napr_db_env_create(&ENV, POOL) == APR_SUCCESS && napr_db_env_set_mapsize(ENV, MAP) == APR_SUCCESS && napr_db_env_open(ENV, PATH, NAPR_DB_INTRAPROCESS_LOCK | (fresh ? NAPR_DB_CREATE : 0)) == APR_SUCCESS, "opening the database failed");
}
static void close_(void) { MC_CHECK(napr_db_env_close(ENV) == APR_SUCCESS, "closing failed"); apr_pool_destroy(POOL); }
static char KB[32], VB[8192];
static napr_db_val_t K(long i) { napr_db_val_t v; v.size = (apr_size_t) snprintf(KB, sizeof KB, "%09ld", i); v.data = KB; return v; }
static napr_db_val_t V(long i, int ver) { napr_db_val_t v; memset(VB, (int) (i * 7 + ver), (size_t) VS); v.size = (apr_size_t) (VS - ver % 3 + snprintf(VB, 40, "<%ld/%d>", i, ver) * 0); v.data = VB; return v; }
static int is_v(const napr_db_val_t *d, long i, int ver) { napr_db_val_t w = V(i, ver); return d->size == w.size && memcmp(d->data, w.data, d->size) == 0; }
static napr_db_txn_t *begin(unsigned f) { napr_db_txn_t *t = NULL; MC_CHECK(napr_db_txn_begin(ENV, f, &t) == APR_SUCCESS, "beginning a transaction failed"); return t; }
static void put(napr_db_txn_t *t, long i, int ver) { napr_db_val_t k = K(i), v = V(i, ver); apr_status_t s = napr_db_put(t, &k, &v); MC_CHECK(s == APR_SUCCESS, "storing key %ld failed (%d)", i, (int) s); }
static void del(napr_db_txn_t *t, long i) { napr_db_val_t k = K(i); apr_status_t s = napr_db_del(t, &k, NULL); MC_CHECK(s == APR_SUCCESS, "deleting key %ld failed (%d)", i, (int) s); }
static void commit(napr_db_txn_t *t) { apr_status_t s = napr_db_txn_commit(t); MC_CHECK(s == APR_SUCCESS, "commit failed (%d)", (int) s); }
static void want(napr_db_txn_t *t, long i, int ver)
{
    napr_db_val_t k = K(i), d; apr_status_t s = napr_db_get(t, &k, &d);
    if (ver < 0) { MC_CHECK(APR_STATUS_IS_NOTFOUND(s), "lookup of the absent key %ld gives %d", i, (int) s); return; }
    MC_CHECK(s == APR_SUCCESS, "lookup of the stored key %ld gives %d", i, (int) s);
    MC_CHECK(is_v(&d, i, ver), "lookup of key %ld gives a wrong value, version %d expected", i, ver);
}
/* reopening after each of the transactions around the border */
static void ids(long border)
{
    static int ver[8]; long n; int j;
    if (!mc_sel_weighted(border > 10000 ? 5000 : 50)) return;
    mc_desc("8 keys, one updated per transaction; reopened after each of transactions %ld to %ld", border - 10, border + 10);
    MAP = 4 << 20; VS = 900;
    open_(1);
    for (j = 0; j < 8; j++) ver[j] = -1;
    for (n = 0; n < border + 10; n++) {
        napr_db_txn_t *t = begin(0);
        put(t, n % 8, (int) (n / 8)); ver[n % 8] = (int) (n / 8);
        commit(t);
        mc_trans(1);
        if (n < border - 10 && n % 4096) continue;
        t = begin(NAPR_DB_RDONLY); for (j = 0; j < 8; j++) want(t, j, ver[j]); commit(t);
        close_(); open_(0);
        t = begin(NAPR_DB_RDONLY); for (j = 0; j < 8; j++) want(t, j, ver[j]); commit(t);
    }
    close_();
    mc_eval(1); mc_trace(1); mc_state((uint64_t) border);
}
/* pages keys, one per page: beyond the border of the page numbers or of the file offsets */
static void pages(long n, int per)
{
    long i, j; napr_db_txn_t *t; napr_db_cursor_t *c; napr_db_val_t k, d; struct stat st; apr_status_t s; struct statvfs sv;
    if (!mc_sel_weighted((int) (n / 20))) return;
    mc_desc("%ld pairs of more than half a page, %d stored per transaction", n, per);
    if (statvfs(mc_dir, &sv) == 0 && (double) sv.f_bavail * sv.f_frsize < (double) n * 4096 * 1.5 + 2e9) { mc_note("not enough space for %ld pages: left out", n); mc_cap("space for large databases"); return; }
    MAP = (apr_size_t) (n + n / 8 + 4000) * 4096; VS = 2100;
    open_(1);
    for (i = 0; i < n; i = j) {
        t = begin(0);
        for (j = i; j < n && j < i + per; j++) put(t, j, 0);
        commit(t);
        mc_trans((uint64_t) (j - i));
    }
    stat(PATH, &st);
    MC_CHECK(st.st_size >= (off_t) n * 4096, "the file has %ld bytes although %ld pages are needed", (long) st.st_size, n);
    /* updates and deletes at both ends and in the middle */
    t = begin(0);
    for (i = 0; i < n; i += n / 997 + 1) put(t, i, 1);
    del(t, 3); del(t, n - 2);
    commit(t);
#define VER(i) ((i) == 3 || (i) == n - 2 ? -1 : (i) % (n / 997 + 1) == 0 ? 1 : 0)
    for (j = 0; j < 2; j++) {
        t = begin(NAPR_DB_RDONLY);
        if (mc_is("D01")) for (i = 0; i < n; i += n > 200000 ? 7 : 1) want(t, i, VER(i));
        want(t, n, -1); want(t, n - 1, VER(n - 1)); want(t, 3, -1);
        if (mc_is("D02")) {
            MC_CHECK(napr_db_cursor_open(t, &c) == APR_SUCCESS, "opening a cursor failed");
            for (i = 0, s = napr_db_cursor_get(c, &k, &d, NAPR_DB_FIRST); s == APR_SUCCESS; s = napr_db_cursor_get(c, &k, &d, NAPR_DB_NEXT)) {
                napr_db_val_t w;
                while (i < n && VER(i) < 0) i++;
                MC_CHECK(i < n, "the walk goes on after the last key");
                w = K(i);
                MC_CHECK(k.size == w.size && memcmp(k.data, w.data, w.size) == 0, "walking forward: key %ld expected, got %.9s", i, (const char *) k.data);
                MC_CHECK(is_v(&d, i, VER(i)), "walking forward: wrong value for key %ld", i);
                i++;
            }
            MC_CHECK(i >= n && APR_STATUS_IS_NOTFOUND(s), "the walk forward ends at key %ld of %ld", i, n);
            for (i = n - 1, s = napr_db_cursor_get(c, &k, &d, NAPR_DB_LAST); s == APR_SUCCESS; s = napr_db_cursor_get(c, &k, &d, NAPR_DB_PREV)) {
                napr_db_val_t w;
                while (i >= 0 && VER(i) < 0) i--;
                MC_CHECK(i >= 0, "the walk goes on before the first key");
                w = K(i);
                MC_CHECK(k.size == w.size && memcmp(k.data, w.data, w.size) == 0, "walking backwards: key %ld expected, got %.9s", i, (const char *) k.data);
                i--;
            }
            MC_CHECK(i < 0, "the walk backwards ends at key %ld", i);
            napr_db_cursor_close(c);
        }
        commit(t);
        if (j == 0) { close_(); open_(0); }
    }
    close_();
    unlink(PATH);
    mc_eval(1); mc_trace(1); mc_state((uint64_t) n);
}
/* a map of that many pages, filled until it refuses */
static void limit(long np, int per)
{
    long i, j, com = 0; napr_db_txn_t *t; apr_status_t s = APR_SUCCESS; struct stat st; struct statvfs sv;
    if (!mc_sel_weighted((int) (np / 20))) return;
    mc_desc("map of %ld pages filled until it refuses, %d pairs per transaction", np, per);
    if (statvfs(mc_dir, &sv) == 0 && (double) sv.f_bavail * sv.f_frsize < (double) np * 4096 * 1.5 + 2e9) { mc_note("not enough space for %ld pages: left out", np); mc_cap("space for large databases"); return; }
    MAP = (apr_size_t) np * 4096; VS = 2100;
    open_(1);
    for (i = 0; s == APR_SUCCESS; i = j) {
        t = begin(0);
        for (j = i; s == APR_SUCCESS && j < i + per; j++) { napr_db_val_t k = K(j), v = V(j, 0); s = napr_db_put(t, &k, &v); mc_trans(1); MC_CHECK(j < np, "%ld pairs of more than half a page were accepted in a map of %ld pages", j, np); }
        if (s != APR_SUCCESS) { MC_CHECK(napr_db_txn_abort(t) == APR_SUCCESS, "aborting the refused transaction failed"); break; }
        s = napr_db_txn_commit(t);
        if (s == APR_SUCCESS) com = j;
    }
    stat(PATH, &st);
    MC_CHECK(st.st_size <= (off_t) MAP, "the file has %ld bytes, the map %ld", (long) st.st_size, (long) MAP);
    MC_CHECK(com > np / 2, "the map of %ld pages refused after %ld pairs", np, com);
    for (j = 0; j < 3; j++) {
        t = begin(NAPR_DB_RDONLY);
        for (i = 0; i < com; i += com > 100000 ? 7 : 1) want(t, i, i == 5 && j == 2 ? -1 : 0);
        want(t, com, -1); want(t, com - 1, 0);
        commit(t);
        if (j == 0) { close_(); open_(0); }
        if (j == 1) { t = begin(0); napr_db_val_t k = K(5); s = napr_db_del(t, &k, NULL); if (s == APR_SUCCESS) s = napr_db_txn_commit(t); else napr_db_txn_abort(t); if (s != APR_SUCCESS) break; }
    }
    close_();
    unlink(PATH);
    mc_eval(1); mc_trace(1); mc_state((uint64_t) np);
}
/* many pages rewritten again and again, with page numbers beyond the border */
static void reuse(long n, int cnt, int rounds)
{
    long i; int r; napr_db_txn_t *t; struct stat st; long base = 0, last; struct statvfs sv;
    if (!mc_sel_weighted((int) (n / 5))) return;
    mc_desc("%ld pairs of more than half a page, %d of them rewritten in each of %d transactions", n, cnt, rounds);
    if (statvfs(mc_dir, &sv) == 0 && (double) sv.f_bavail * sv.f_frsize < (double) n * 4096 * 3 + 2e9) { mc_note("not enough space for %ld pages: left out", n); mc_cap("space for large databases"); return; }
    MAP = (apr_size_t) n * 4096 * 8; VS = 2100;
    open_(1);
    for (i = 0; i < n; ) { t = begin(0); for (r = 0; r < 2000 && i < n; r++, i++) put(t, i, 0); commit(t); }
    for (r = 1; r <= rounds; r++) {
        t = begin(0);
        for (i = 0; i < cnt; i++) put(t, (i * (n / cnt) + (r % 3)) % n, r);
        commit(t);
        mc_trans((uint64_t) cnt);
        stat(PATH, &st);
        if (r == 20) base = (long) (st.st_size / 4096);
    }
    last = (long) (st.st_size / 4096);
    MC_CHECK(last - base <= 3L * cnt, "the file grew from %ld pages after 20 rounds to %ld pages after %d", base, last, rounds);
    t = begin(NAPR_DB_RDONLY);
    for (i = 0; i < n; i++) {
        long q = i / (n / cnt), m = i % (n / cnt); int v = 0;
        if (q < cnt && m < 3) { for (v = rounds; v % 3 != m; v--) ; }
        want(t, i, v);
    }
    commit(t);
    close_();
    unlink(PATH);
    mc_eval(1); mc_trace(1); mc_state((uint64_t) n + 7);
    mc_sample("%s: %ld then %ld pages", mc_desc_get(), base, last);
}
static void worker(void)
{
    apr_initialize();
    mc_watch(600);
    snprintf(PATH, sizeof PATH, "%s/big.db", mc_dir);
    if (mc_is("D07")) { reuse(68000, 1000, 80); reuse(68000, 300, 200); limit(540000, 10000); limit(66000, 500); limit(66000, 20000); limit(33000, 100); return; }
    pages(540000, 10000);
    pages(70000, 500);
    pages(1060000, 10000);
    if (mc_is("D01")) { ids(128); ids(256); ids(32768); ids(65536); }
}
int main(int argc, char **argv) { mc_init(argc, argv); return mc_run(worker); }
