/* dbx.h - reference model of the key-value store and full comparison with the real one (public API only). */
#ifndef DBX_H
#define DBX_H
#include "mc.h"
#include <apr_general.h>
#include <apr_pools.h>
#include "napr_db.h"
#include <unistd.h>
#include <sys/stat.h>

#define NKMAX 4200
typedef struct { int klen_lo, klen_hi; int vs[4]; int bytes; const char *name; } prof_t;  /* key length range, value sizes per version */

static const prof_t *PR;
static int NK;                            /* keys in the alphabet */
typedef struct { int ver[NKMAX]; } snap_t;

static const struct { const char *s; int n; } BYTEKEYS[] = {
    {"", 0}, {"\0", 1}, {"\0\0", 2}, {"\0\1", 2}, {"\1", 1}, {"a", 1}, {"a\0", 2}, {"aa", 2}, {"ab", 2}, {"b", 1},
    {"\x7f", 1}, {"\x80", 1}, {"\x80\0", 2}, {"\xff", 1}, {"\xff\0", 2}, {"\xff\xff", 2}
};
#define NBYTEKEYS 16

static int PRE;                           /* all keys begin with the same PRE bytes */
static int key_len(int i)
{
    if (PR->bytes) return PRE + BYTEKEYS[i].n;
    return PRE + PR->klen_lo + (int) (((unsigned) i * 7919u + 13u) % (unsigned) (PR->klen_hi - PR->klen_lo + 1));
}
static void pre_fill(unsigned char *b) { int j; for (j = 0; j < PRE; j++) b[j] = (unsigned char) (j * 37 + 5); }
static int key_of(int i, unsigned char *b)
{
    int n, l;
    if (PRE) pre_fill(b);
    if (PR->bytes) { memcpy(b + PRE, BYTEKEYS[i].s, (size_t) BYTEKEYS[i].n); return PRE + BYTEKEYS[i].n; }
    n = PRE + sprintf((char *) b + PRE, "%04d", i);
    l = key_len(i);
    while (n < l) b[n++] = 'x';
    return n;
}
static int gap_after(int i, unsigned char *b)     /* a key between key i and key i+1 that is never stored */
{
    int n;
    if (PR->bytes) { n = key_of(i, b); b[n++] = 0; b[n++] = 0; b[n++] = 0; return n; }   /* just after key i */
    if (PRE) pre_fill(b);
    n = PRE + sprintf((char *) b + PRE, "%04d~", i);
    return n;
}
static int val_size(int i, int ver)
{
    int s = PR->vs[ver & 3];
    if (s < 0) { static const int mix[8] = { 3, 1900, 700, 60, 3900, 1290, 0, 2700 }; s = mix[(i * 5 + ver * 3) & 7]; }
    if (!PR->bytes && s + key_len(i) > 4000) s = 4000 - key_len(i);
    return s;
}
static int val_of(int i, int ver, unsigned char *b)
{
    int n = val_size(i, ver), j;
    unsigned x = (unsigned) i * 2654435761u + (unsigned) ver * 40503u + 17u;
    for (j = 0; j < n; j++) { x = x * 1103515245u + 12345u; b[j] = (unsigned char) (x >> 16); }
    return n;
}
static unsigned char KB[8192], VB[70000];
static napr_db_val_t K(int i) { napr_db_val_t v; v.size = (apr_size_t) key_of(i, KB); v.data = KB; return v; }
static napr_db_val_t V(int i, int ver) { napr_db_val_t v; v.size = (apr_size_t) val_of(i, ver, VB); v.data = VB; return v; }

static int is_key(const napr_db_val_t *k, int i)
{
    unsigned char b[8192];
    int n = key_of(i, b);
    return k->size == (apr_size_t) n && (n == 0 || memcmp(k->data, b, (size_t) n) == 0);
}
static int is_val(const napr_db_val_t *v, int i, int ver)
{
    static unsigned char b[70000];
    int n = val_of(i, ver, b);
    return v->size == (apr_size_t) n && (n == 0 || memcmp(v->data, b, (size_t) n) == 0);
}
static const char *st(apr_status_t s)
{
    static char b[8][32]; static int k;
    char *p = b[k++ & 7];
    if (s == APR_SUCCESS) return "success";
    if (APR_STATUS_IS_EEXIST(s)) return "APR_EEXIST";
    if (APR_STATUS_IS_NOTFOUND(s)) return "APR_NOTFOUND";
    if (APR_STATUS_IS_ENOSPC(s)) return "APR_ENOSPC";
    snprintf(p, 32, "status %d", (int) s);
    return p;
}
static uint64_t snap_hash(const snap_t *m) { return mc_hash(m->ver, sizeof(int) * (size_t) NK, 99); }

/* every lookup */
static void check_gets(napr_db_txn_t *t, const snap_t *m, const char *who)
{
    int i;
    for (i = 0; i < NK; i++) {
        napr_db_val_t k = K(i), d;
        apr_status_t s = napr_db_get(t, &k, &d);
        if (m->ver[i] == 0) { MC_CHECK(APR_STATUS_IS_NOTFOUND(s), "%s: get of absent key %d gives %s", who, i, st(s)); }
        else {
            MC_CHECK(s == APR_SUCCESS, "%s: get of stored key %d (version %d) gives %s", who, i, m->ver[i], st(s));
            MC_CHECK(is_val(&d, i, m->ver[i]), "%s: get of key %d gives a wrong value (%lu bytes), version %d expected", who, i, (unsigned long) d.size, m->ver[i]);
        }
    }
    mc_trans((uint64_t) NK);
}
static int next_present(const snap_t *m, int i) { for (i++; i < NK; i++) if (m->ver[i]) return i; return -1; }
static int prev_present(const snap_t *m, int i) { for (i--; i >= 0; i--) if (m->ver[i]) return i; return -1; }

static void expect(apr_status_t s, const napr_db_val_t *k, const napr_db_val_t *d, int i, const snap_t *m, const char *who, const char *op, int at)
{
    if (i < 0) { MC_CHECK(APR_STATUS_IS_NOTFOUND(s), "%s: cursor %s at %d: not found expected, got %s", who, op, at, st(s)); return; }
    MC_CHECK(s == APR_SUCCESS, "%s: cursor %s at %d: key %d expected, got %s", who, op, at, i, st(s));
    MC_CHECK(is_key(k, i), "%s: cursor %s at %d: key %d expected, got another key (%lu bytes '%.*s')", who, op, at, i, (unsigned long) k->size, (int) (k->size < 12 ? k->size : 12), (const char *) k->data);
    MC_CHECK(is_val(d, i, m->ver[i]), "%s: cursor %s at %d: wrong value for key %d", who, op, at, i);
}
static void check_scan(napr_db_txn_t *t, const snap_t *m, const char *who)
{
    napr_db_cursor_t *c;
    napr_db_val_t k = { 0 }, d = { 0 };
    int i;
    MC_CHECK(napr_db_cursor_open(t, &c) == APR_SUCCESS, "%s: opening a cursor failed", who);
    i = next_present(m, -1);
    expect(napr_db_cursor_get(c, &k, &d, NAPR_DB_FIRST), &k, &d, i, m, who, "first", -1);
    while (i >= 0) { int j = next_present(m, i); expect(napr_db_cursor_get(c, &k, &d, NAPR_DB_NEXT), &k, &d, j, m, who, "next", i); i = j; }
    napr_db_cursor_close(c);
    mc_trans(1);
}
static void check_scan_back(napr_db_txn_t *t, const snap_t *m, const char *who)
{
    napr_db_cursor_t *c;
    napr_db_val_t k = { 0 }, d = { 0 };
    int i;
    MC_CHECK(napr_db_cursor_open(t, &c) == APR_SUCCESS, "%s: opening a cursor failed", who);
    i = prev_present(m, NK);
    expect(napr_db_cursor_get(c, &k, &d, NAPR_DB_LAST), &k, &d, i, m, who, "last", -1);
    while (i >= 0) { int j = prev_present(m, i); expect(napr_db_cursor_get(c, &k, &d, NAPR_DB_PREV), &k, &d, j, m, who, "prev", i); i = j; }
    napr_db_cursor_close(c);
    mc_trans(1);
}
/* every positioning operation on every key and gap, followed by every one- and two-step movement */
static void check_cursor(napr_db_txn_t *t, const snap_t *m, const char *who, int step)
{
    napr_db_cursor_t *c;
    napr_db_val_t k = { 0 }, d = { 0 };
    unsigned char gb[1200];
    int i, path;
    static const char *MV[2] = { "next", "prev" };
    MC_CHECK(napr_db_cursor_open(t, &c) == APR_SUCCESS, "%s: opening a cursor failed", who);
    for (i = 0; i < NK; i += step) {
        int how;
        for (how = 0; how < 3; how++) {           /* exact, range, range on a gap */
            int at, ok;
            if (how == 0) at = m->ver[i] ? i : -1;
            else if (how == 1) at = m->ver[i] ? i : next_present(m, i);
            else {
                unsigned char kb[8192];
                int gl = gap_after(i, gb), kl, j;
                for (at = -1, j = next_present(m, -1); j >= 0; j = next_present(m, j)) {
                    int c;
                    if (!PR->bytes && j <= i) continue;
                    kl = key_of(j, kb); c = memcmp(kb, gb, (size_t) (kl < gl ? kl : gl));
                    if (c > 0 || (c == 0 && kl >= gl)) { at = j; break; }
                }
            }
            for (path = 0; path < 7; path++) {    /* none, n, p, nn, np, pn, pp */
                apr_status_t s;
                int p = at, a, b;
                if (how == 2) { k.data = gb; k.size = (apr_size_t) gap_after(i, gb); } else k = K(i);
                s = napr_db_cursor_get(c, &k, &d, how == 0 ? NAPR_DB_SET : NAPR_DB_SET_RANGE);
                expect(s, &k, &d, at, m, who, how == 0 ? "exact position" : how == 1 ? "range position" : "range position in the gap after", i);
                if (at < 0) break;
                if (path == 0) {
                    s = napr_db_cursor_get(c, &k, &d, NAPR_DB_GET_CURRENT);
                    expect(s, &k, &d, at, m, who, "current", at);
                    continue;
                }
                a = path <= 2 ? path - 1 : (path - 3) / 2; b = path <= 2 ? -1 : (path - 3) % 2;
                ok = 1;
                p = a ? prev_present(m, at) : next_present(m, at);
                s = napr_db_cursor_get(c, &k, &d, a ? NAPR_DB_PREV : NAPR_DB_NEXT);
                expect(s, &k, &d, p, m, who, MV[a], at);
                if (p < 0) ok = 0;
                if (b >= 0 && ok) {
                    int q = b ? prev_present(m, p) : next_present(m, p);
                    s = napr_db_cursor_get(c, &k, &d, b ? NAPR_DB_PREV : NAPR_DB_NEXT);
                    expect(s, &k, &d, q, m, who, MV[b], p);
                }
            }
        }
    }
    napr_db_cursor_close(c);
    mc_trans((uint64_t) NK);
}

/* ---- environment ---- */
static apr_pool_t *EP;
static napr_db_env_t *ENV;
static char DBPATH[512];
static apr_size_t MAPSIZE = 4 << 20;
static apr_status_t env_open_st(unsigned fl)
{
    apr_status_t s;
    apr_pool_create(&EP, NULL);
    s = napr_db_env_create(&ENV, EP);
    if (s == APR_SUCCESS) s = napr_db_env_set_mapsize(ENV, MAPSIZE);
    if (s == APR_SUCCESS) s = napr_db_env_open(ENV, DBPATH, fl | NAPR_DB_INTRAPROCESS_LOCK);
    return s;
}
static void env_open(void)
{
    apr_status_t s = env_open_st(NAPR_DB_CREATE);
    MC_CHECK(s == APR_SUCCESS, "opening the database gives %s", st(s));
}
static void env_close(void)
{
    apr_status_t s = napr_db_env_close(ENV);
    MC_CHECK(s == APR_SUCCESS, "closing the database gives %s", st(s));
    apr_pool_destroy(EP);
    ENV = NULL;
}
static void env_fresh(void)
{
    snprintf(DBPATH, sizeof DBPATH, "%s/t.db", mc_dir);
    unlink(DBPATH);
    env_open();
}
static napr_db_txn_t *begin_txn(unsigned fl)
{
    napr_db_txn_t *t = NULL;
    apr_status_t s = napr_db_txn_begin(ENV, fl, &t);
    MC_CHECK(s == APR_SUCCESS, "beginning a transaction gives %s", st(s));
    return t;
}
static long file_pages(void)
{
    struct stat sb;
    if (stat(DBPATH, &sb)) return -1;
    return (long) (sb.st_size / 4096);
}
#endif
