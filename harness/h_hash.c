/* S01: every sequence of insert/remove operations on a small set of keys whose hash values are chosen to collide in
 * every way (same bucket at first, same 32-bit value, different lengths with a common prefix), for several bucket
 * capacities, plus long insert/remove families through several growths, against a plain array. */
#include "mc.h"
#include <apr_general.h>
#include <apr_pools.h>
#include <sys/resource.h>
#include "napr_hash.h"
#include "key_hash.h"

typedef struct { const char *key; apr_size_t len; apr_uint32_t h; int present, seen; } el_t;
static const void *gk(const void *o) { return ((const el_t *) o)->key; }
static apr_size_t gl(const void *o) { return ((const el_t *) o)->len; }
static int kc(const void *a, const void *b, apr_size_t n) { return memcmp(a, b, n); }

#define NK 8
static el_t K[NK];
static apr_uint32_t (*hf)(const char *, apr_size_t);
static apr_uint32_t hv(register const void *p, register apr_size_t n) { return hf(p, n); }

static const char *const names[NK] = { "a", "b", "ab", "aa", "", "ba", "abc", "c" };
/* hash profiles */
static apr_uint32_t h_same(const char *p, apr_size_t n) { (void) p; (void) n; return 0x12345678u; }
static apr_uint32_t h_low(const char *p, apr_size_t n) { return ((apr_uint32_t) (n ? p[n - 1] - 'a' + 1 : 0) << 3) | 1; }
static apr_uint32_t h_two(const char *p, apr_size_t n) { return (n && p[0] == 'b') ? 0xffffffffu : 0u; }
static apr_uint32_t h_high(const char *p, apr_size_t n) { return ((apr_uint32_t) n << 30) | ((n ? (apr_uint32_t) (unsigned char) p[0] : 7u) << 14); }
static apr_uint32_t h_good(const char *p, apr_size_t n) { return (apr_uint32_t) mc_hash(p, n, 3); }
static apr_uint32_t (*const prof[])(const char *, apr_size_t) = { h_same, h_low, h_two, h_high, h_good };
static const char *const pname[] = { "all-equal", "low-bits-equal", "two-values", "high-bits", "spread" };

static apr_pool_t *P;
static napr_hash_t *T;
static int NKu;

static void verify(void)
{
    int i, n = 0, seen = 0;
    napr_hash_index_t *it;
    apr_uint32_t h;
    for (i = 0; i < NK; i++) {
        el_t *r;
        h = 0xdeadbeef;
        r = napr_hash_search(T, K[i].key, K[i].len, &h);
        MC_CHECK(h == K[i].h, "search reports a hash value that is not the key's");
        MC_CHECK(napr_hash_search(T, K[i].key, K[i].len, NULL) == r, "search without hash output differs");
        if (K[i].present) { MC_CHECK(r == &K[i], "key \"%s\" is stored but search gives %s", K[i].key, r ? r->key : "nothing"); n++; }
        else MC_CHECK(r == NULL, "key \"%s\" is not stored but search gives \"%s\"", K[i].key, r->key);
        K[i].seen = 0;
    }
    for (it = napr_hash_first(P, T); it; it = napr_hash_next(it)) {
        const void *k = NULL;
        apr_size_t l = 0;
        void *v = NULL;
        el_t *e;
        napr_hash_this(it, &k, &l, &v);
        e = v;
        MC_CHECK(e >= K && e < K + NK && e->present, "iteration visits something that is not stored");
        MC_CHECK(k == e->key && l == e->len, "iteration gives a wrong key for an element");
        MC_CHECK(!e->seen, "iteration visits \"%s\" twice", e->key);
        e->seen = 1;
        seen++;
    }
    MC_CHECK(seen == n, "iteration visits %d of %d elements", seen, n);
}

static void op(int k)
{
    apr_uint32_t h = 0;
    mc_trans(1);
    if (!K[k].present) {
        el_t *r = napr_hash_search(T, K[k].key, K[k].len, &h);
        MC_CHECK(r == NULL, "absent key found");
        MC_CHECK(napr_hash_set(T, &K[k], h) == APR_SUCCESS, "insert failed");
        K[k].present = 1;
    }
    else {
        napr_hash_remove(T, &K[k], K[k].h);
        K[k].present = 0;
    }
    verify();
}

static void make(apr_size_t nel, apr_size_t ff)
{
    napr_hash_create_args_t a = { .pool = P, .nel = nel, .ffactor = ff, .get_key = gk, .get_key_len = gl, .key_cmp = kc, .hash = hv };
    int i;
    T = napr_hash_make_ex(&a);
    MC_CHECK(T != NULL, "creation failed");
    MC_CHECK(napr_hash_pool_get(T) == P, "pool accessor");
    for (i = 0; i < NK; i++) {
        K[i].key = names[i]; K[i].len = strlen(names[i]); K[i].h = hf(K[i].key, K[i].len); K[i].present = 0;
    }
    verify();
}

static void toggles(int depth, int keys, apr_size_t nel, apr_size_t ff, int pr)
{
    uint64_t tot = 1, s, x;
    int i;
    hf = prof[pr];
    NKu = keys;
    for (i = 0; i < depth; i++) tot *= (uint64_t) keys;
    for (s = 0; s < tot; s++) {
        if (!mc_sel()) continue;
        mc_desc("hash=%s buckets=%u capacity=%u toggles:", pname[pr], (unsigned) nel, (unsigned) ff);
        for (x = s, i = 0; i < depth; i++, x /= (uint64_t) keys) mc_desc_add(" \"%s\"", names[x % (uint64_t) keys]);
        apr_pool_create(&P, NULL);
        make(nel, ff);
        for (x = s, i = 0; i < depth; i++, x /= (uint64_t) keys) {
            unsigned m = 0, j;
            op((int) (x % (uint64_t) keys));
            for (j = 0; j < NK; j++) m |= (unsigned) K[j].present << j;
            { unsigned st[4] = { m, (unsigned) nel, (unsigned) ff, (unsigned) pr }; mc_state(mc_hash(st, sizeof st, (uint64_t) i)); }
        }
        /* removing what is not there changes nothing */
        for (i = 0; i < NK; i++) if (!K[i].present) { napr_hash_remove(T, &K[i], K[i].h); verify(); break; }
        mc_outcome(mc_hash(&s, sizeof s, (uint64_t) pr * 1000 + nel * 50 + ff));
        mc_eval(1); mc_trace(1);
        apr_pool_destroy(P);
        if (s == tot / 3) mc_sample("%s", mc_desc_get());
    }
}

/* ---- long families: string and file-size tables through several growths ---- */
#define BIG 4000
static char strs[BIG][16];
static struct { apr_off_t sz; int present, seen; } sizes[BIG];
static const void *sz_key(const void *o) { return o; }
static struct { apr_off_t sz; int present, seen; } same[5000];
static apr_uint32_t hash_one(register const void *k, register apr_size_t n) { (void) k; (void) n; return 77; }
static void verify_str(napr_hash_t *t, const char *pres, int n, const char *what)
{
    int i, cnt = 0, seen = 0;
    napr_hash_index_t *it;
    static char mark[BIG];
    memset(mark, 0, sizeof mark);
    for (i = 0; i < n; i++) {
        void *r = napr_hash_search(t, strs[i], strlen(strs[i]), NULL);
        MC_CHECK((r == strs[i]) == (pres[i] != 0) && (r == NULL || r == strs[i]), "%s: string %s stored=%d but search gives %s", what, strs[i], pres[i], r ? (char *) r : "nothing");
        cnt += pres[i];
    }
    for (it = napr_hash_first(P, t); it; it = napr_hash_next(it)) {
        void *v = NULL;
        int k;
        napr_hash_this(it, NULL, NULL, &v);
        k = (int) (((char *) v - strs[0]) / 16);
        MC_CHECK(k >= 0 && k < n && pres[k] && !mark[k], "%s: iteration wrong at %s", what, (char *) v);
        mark[k] = 1;
        seen++;
    }
    MC_CHECK(seen == cnt, "%s: iteration visits %d of %d", what, seen, cnt);
}
static void long_strings(void)
{
    static const int counts[] = { 1, 7, 8, 9, 31, 33, 64, 100, 257, 1000, BIG };
    static const int steps[] = { 1, 2, 3, 7, 8 };
    static char pres[BIG];
    unsigned c, st, nelx, ff;
    int i;
    for (i = 0; i < BIG; i++) snprintf(strs[i], 16, "k%d", i);
    for (c = 0; c < sizeof counts / sizeof *counts; c++)
        for (st = 0; st < sizeof steps / sizeof *steps; st++)
            for (nelx = 1; nelx <= 32; nelx *= 32)
                for (ff = 1; ff <= 8; ff += (ff == 1 ? 2 : 5)) {
                    napr_hash_t *t;
                    apr_uint32_t h;
                    if (!mc_sel()) continue;
                    mc_desc("string table buckets=%u capacity=%u: insert %d strings, remove every %dth, re-insert them", nelx, ff, counts[c], steps[st]);
                    apr_pool_create(&P, NULL);
                    t = napr_hash_str_make(P, nelx, ff);
                    memset(pres, 0, sizeof pres);
                    for (i = 0; i < counts[c]; i++) {
                        MC_CHECK(!napr_hash_search(t, strs[i], strlen(strs[i]), &h), "absent found");
                        MC_CHECK(napr_hash_set(t, strs[i], h) == APR_SUCCESS, "insert failed");
                        pres[i] = 1;
                    }
                    verify_str(t, pres, counts[c], "after insert");
                    for (i = 0; i < counts[c]; i += steps[st]) {
                        MC_CHECK(napr_hash_search(t, strs[i], strlen(strs[i]), &h) == strs[i], "stored not found");
                        napr_hash_remove(t, strs[i], h);
                        pres[i] = 0;
                    }
                    verify_str(t, pres, counts[c], "after remove");
                    for (i = 0; i < counts[c]; i += steps[st]) {
                        MC_CHECK(!napr_hash_search(t, strs[i], strlen(strs[i]), &h), "removed found");
                        MC_CHECK(napr_hash_set(t, strs[i], h) == APR_SUCCESS, "insert failed");
                        pres[i] = 1;
                    }
                    verify_str(t, pres, counts[c], "after re-insert");
                    mc_trans((uint64_t) counts[c] * 2); mc_eval(1); mc_trace(1);
                    { unsigned o[4] = { c, st, nelx, ff }; mc_outcome(mc_hash(o, sizeof o, 77)); }
                    apr_pool_destroy(P);
                }
    /* strings that agree in all characters but one, every length; all of them in one bucket */
    for (c = 1; c <= 1100; c++) for (nelx = 1; nelx <= 32; nelx *= 32) {
        static char ls[9][1200];
        napr_hash_t *t;
        apr_uint32_t h;
        int j;
        if (!mc_sel()) continue;
        mc_desc("string table buckets=%u: 9 strings of %u characters that differ in one of them or in length", nelx, c);
        apr_pool_create(&P, NULL);
        t = napr_hash_str_make(P, nelx, 8);
        for (i = 0; i < 9; i++) {
            unsigned q;
            for (q = 0; q < c; q++) ls[i][q] = (char) ('a' + q % 23);
            ls[i][c] = 0;
            if (i == 1) ls[i][c - 1] = 'X'; if (i == 2) ls[i][0] = 'Y'; if (i == 3) strcat(ls[i], "z"); if (i == 4) ls[i][c / 2] = '\xff'; if (i == 5) ls[i][c - 1] = '\x81'; if (i == 6) strcat(ls[i], "y");
            if (i == 7) strcat(ls[i], "zz"); if (i == 8) ls[i][c * 2 / 3] ^= 1;
        }
        for (i = 0; i < 9; i++) {
            void *r = napr_hash_search(t, ls[i], strlen(ls[i]), &h);
            for (j = 0; j < i; j++) if (!strcmp(ls[j], ls[i])) break;
            if (j < i) { MC_CHECK(r == ls[j], "a stored string is not found"); ls[i][0] = 0; continue; }
            MC_CHECK(!r, "the absent string %d is found", i);
            MC_CHECK(napr_hash_set(t, ls[i], h) == APR_SUCCESS, "insert failed");
        }
        for (i = 0; i < 9; i++) if (ls[i][0]) MC_CHECK(napr_hash_search(t, ls[i], strlen(ls[i]), &h) == ls[i], "string %d is not found or another one is", i);
        for (i = 0; i < 9; i += 2) if (ls[i][0]) { (void) napr_hash_search(t, ls[i], strlen(ls[i]), &h); napr_hash_remove(t, ls[i], h); }
        for (i = 0; i < 9; i++) if (ls[i][0]) MC_CHECK(napr_hash_search(t, ls[i], strlen(ls[i]), &h) == (i & 1 ? ls[i] : NULL), "after removing: string %d", i);
        mc_trans(18); mc_eval(1); mc_trace(1);
        apr_pool_destroy(P);
    }
    /* very many elements */
    for (c = 0; c < 3; c++) {
        static char (*ms)[8];
        static unsigned char *sn;
        static const int many[] = { 65535, 66000, 300000 };
        napr_hash_t *t;
        napr_hash_index_t *it;
        apr_uint32_t h;
        int n = 0, N = many[c];
        if (!mc_sel()) continue;
        mc_desc("string table: %d strings", N);
        ms = malloc((size_t) N * 8); sn = calloc((size_t) N, 1);
        apr_pool_create(&P, NULL);
        t = napr_hash_str_make(P, 32, 8);
        for (i = 0; i < N; i++) {
            snprintf(ms[i], 8, "%07d", i);
            MC_CHECK(!napr_hash_search(t, ms[i], 7, &h), "the absent string %s is found", ms[i]);
            MC_CHECK(napr_hash_set(t, ms[i], h) == APR_SUCCESS, "insert failed");
        }
        for (i = 0; i < N; i++) MC_CHECK(napr_hash_search(t, ms[i], 7, NULL) == ms[i], "string %d is lost", i);
        for (it = napr_hash_first(P, t); it; it = napr_hash_next(it)) {
            void *v = NULL;
            napr_hash_this(it, NULL, NULL, &v);
            i = (int) (((char *) v - ms[0]) / 8);
            MC_CHECK(i >= 0 && i < N && !sn[i]++, "iteration wrong");
            n++;
        }
        MC_CHECK(n == N, "iteration visits %d of %d", n, N);
        for (i = 0; i < N; i++) if (i % 3) { (void) napr_hash_search(t, ms[i], 7, &h); napr_hash_remove(t, ms[i], h); }
        for (i = 0; i < N; i++) MC_CHECK(napr_hash_search(t, ms[i], 7, NULL) == (i % 3 ? NULL : ms[i]), "string %d after removing", i);
        mc_trans((uint64_t) N * 2); mc_eval(1); mc_trace(1);
        apr_pool_destroy(P);
        free(ms); free(sn);
    }
    /* the same string again and again (as -i x,x,x does) must end and stay findable */
    for (c = 1; c <= 40; c++) {
        napr_hash_t *t;
        apr_uint32_t h;
        int n = 0;
        napr_hash_index_t *it;
        if (!mc_sel()) continue;
        mc_desc("string table: insert the same string %u times", c);
        apr_pool_create(&P, NULL);
        t = napr_hash_str_make(P, 32, 8);
        for (i = 0; i < (int) c; i++) {
            (void) napr_hash_search(t, strs[i % 2], strlen(strs[i % 2]), &h);
            MC_CHECK(napr_hash_set(t, strs[i % 2], h) == APR_SUCCESS, "insert failed");
            MC_CHECK(napr_hash_search(t, strs[i % 2], strlen(strs[i % 2]), NULL) == strs[i % 2], "not found after insert");
        }
        for (it = napr_hash_first(P, t); it; it = napr_hash_next(it)) n++;
        MC_CHECK(n == (int) c || n == (c < 2 ? 1 : 2), "iteration visits %d", n);
        mc_trans(c); mc_eval(1); mc_trace(1);
        apr_pool_destroy(P);
    }
    /* very many elements with the same hash value */
    for (c = 0; c < 12; c++) {
        static const int cnt[] = { 300, 1030, 2100, 5000 }, ffs_[] = { 1, 8, 50 };
        int n = cnt[c / 3], k, seen = 0;
        napr_hash_create_args_t a = { .nel = 8, .ffactor = (apr_size_t) ffs_[c % 3], .get_key = sz_key, .get_key_len = ft_fsize_get_key_len, .key_cmp = apr_off_t_key_cmp, .hash = hash_one };
        napr_hash_t *t;
        apr_uint32_t h;
        napr_hash_index_t *it;
        if (!mc_sel_weighted(n / 10)) continue;
        mc_desc("%d elements with one hash value, capacity %d", n, ffs_[c % 3]);
        apr_pool_create(&P, NULL);
        a.pool = P;
        t = napr_hash_make_ex(&a);
        for (k = 0; k < n; k++) {
            same[k].sz = k;
            MC_CHECK(!napr_hash_search(t, &same[k].sz, sizeof(apr_off_t), &h), "an absent key is found");
            MC_CHECK(napr_hash_set(t, &same[k], h) == APR_SUCCESS, "insert failed");
        }
        for (k = 0; k < n; k += 3) { (void) napr_hash_search(t, &same[k].sz, sizeof(apr_off_t), &h); napr_hash_remove(t, &same[k], h); }
        for (k = 0; k < n; k += 6) { (void) napr_hash_search(t, &same[k].sz, sizeof(apr_off_t), &h); MC_CHECK(napr_hash_set(t, &same[k], h) == APR_SUCCESS, "insert failed"); }
        for (k = 0; k < n; k++) MC_CHECK(napr_hash_search(t, &same[k].sz, sizeof(apr_off_t), NULL) == (k % 3 == 0 && k % 6 ? NULL : &same[k]), "key %d is lost, or found after it was removed", k);
        for (it = napr_hash_first(P, t); it; it = napr_hash_next(it)) seen++;
        for (k = 0; k < n; k++) seen -= !(k % 3 == 0 && k % 6);
        MC_CHECK(seen == 0, "iteration visits %d elements too many", seen);
        mc_trans((uint64_t) n * 2); mc_eval(1); mc_trace(1);
        apr_pool_destroy(P);
    }
    /* table keyed by file size, with the program's own callbacks */
    for (c = 0; c < 6; c++) {
        static const apr_off_t mul[] = { 1, 4096, 0x100000000LL, 0x100000001LL, -1, 0x7fffffffLL };
        napr_hash_create_args_t a = { .nel = 32, .ffactor = 8, .get_key = sz_key, .get_key_len = ft_fsize_get_key_len, .key_cmp = apr_off_t_key_cmp, .hash = apr_off_t_key_hash };
        napr_hash_t *t;
        apr_uint32_t h;
        int n = 0;
        napr_hash_index_t *it;
        if (!mc_sel()) continue;
        mc_desc("size table: 2000 sizes, multiples of %lld", (long long) mul[c]);
        apr_pool_create(&P, NULL);
        a.pool = P;
        t = napr_hash_make_ex(&a);
        for (i = 0; i < 2000; i++) {
            sizes[i].sz = (apr_off_t) i * mul[c];
            MC_CHECK(!napr_hash_search(t, &sizes[i].sz, sizeof(apr_off_t), &h), "absent size found");
            MC_CHECK(napr_hash_set(t, &sizes[i], h) == APR_SUCCESS, "insert failed");
        }
        for (i = 0; i < 2000; i++) {
            apr_off_t k = sizes[i].sz;
            MC_CHECK(napr_hash_search(t, &k, sizeof k, NULL) == &sizes[i], "size %lld lost", (long long) k);
        }
        for (it = napr_hash_first(P, t); it; it = napr_hash_next(it)) n++;
        MC_CHECK(n == 2000, "iteration visits %d of 2000", n);
        mc_trans(2000); mc_eval(1); mc_trace(1);
        mc_outcome(mc_hash(&c, sizeof c, 99));
        apr_pool_destroy(P);
    }
}

static void worker(void)
{
    struct rlimit rl = { 6ul << 30, 6ul << 30 };
    static const apr_size_t nels[] = { 1, 2, 8 }, ffs[] = { 1, 2, 3, 8 };
    unsigned a, b, p;
    setrlimit(RLIMIT_AS, &rl);
    apr_initialize();
    mc_watch(30);
    for (p = 0; p < 5; p++)
        for (a = 0; a < 3; a++)
            for (b = 0; b < 4; b++) {
                toggles(mc_thorough ? 7 : 5, NK, nels[a], ffs[b], (int) p);
                toggles(mc_thorough ? 12 : 9, 3, nels[a], ffs[b], (int) p);
            }
    long_strings();
}
int main(int argc, char **argv) { mc_init(argc, argv); return mc_run(worker); }
