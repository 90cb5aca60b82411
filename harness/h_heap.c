/* S02: every sequence of insertions/extractions up to a depth, every insertion order of n elements, and all short
 * sequences started from heaps filled up to the growth limits, against a plain list. */
#include "mc.h"
#include <apr_general.h>
#include <apr_pools.h>
#include "napr_heap.h"

#define MAXE 1200
typedef struct { int v; int present; int seen; } el_t;
static el_t E[MAXE];
static int nE, nP;
static int sign = 1;
static int cmp(const void *a, const void *b)
{
    int x = ((const el_t *) a)->v, y = ((const el_t *) b)->v;
    return sign * ((x > y) - (x < y));
}
static apr_pool_t *P;
static napr_heap_t *H;
static int reent, full;

static void start(void)
{
    nE = nP = 0;
    H = reent ? napr_heap_make_r(P, cmp) : napr_heap_make(P, cmp);
    MC_CHECK(H != NULL, "creating a heap failed");
}
static void check(void)
{
    unsigned n, i;
    n = napr_heap_size(H);
    MC_CHECK((int) n == nP, "size is %u, %d elements are stored", n, nP);
    MC_CHECK(napr_heap_get_nth(H, n) == NULL, "index equal to the size does not give NULL");
    if (!full && nP > 40) return;
    for (i = 0; i < n; i++) {
        el_t *e = napr_heap_get_nth(H, i);
        MC_CHECK(e >= E && e < E + nE && e->present, "index %u gives something that is not stored", i);
        MC_CHECK(!e->seen, "index %u gives an element already reached at a smaller index", i);
        e->seen = 1;
    }
    for (i = 0; i < (unsigned) nE; i++) E[i].seen = 0;
}
static void ins(int v)
{
    el_t *e = &E[nE++];
    int r;
    e->v = v; e->present = 1; e->seen = 0;
    r = reent ? napr_heap_insert_r(H, e) : napr_heap_insert(H, e);
    MC_CHECK(r == 0, "insert failed (%d)", r);
    nP++;
    mc_trans(1);
    check();
}
static void ext(void)
{
    el_t *e = napr_heap_extract(H);
    int i;
    mc_trans(1);
    if (nP == 0) { MC_CHECK(e == NULL, "extracting from an empty heap gives an element"); check(); return; }
    MC_CHECK(e != NULL, "extract gives NULL although %d elements are stored", nP);
    MC_CHECK(e >= E && e < E + nE, "extract gives an unknown pointer");
    MC_CHECK(e->present, "an element came out twice");
    for (i = 0; i < nE; i++)
        MC_CHECK(!E[i].present || sign * (E[i].v - e->v) <= 0, "extract gives %d although %d is stored", e->v, E[i].v);
    e->present = 0;
    nP--;
    check();
}
static uint64_t snap(void)
{
    int a[MAXE], i, n = (int) napr_heap_size(H);
    for (i = 0; i < n && i < MAXE; i++) a[i] = ((el_t *) napr_heap_get_nth(H, (unsigned) i))->v;
    return mc_hash(a, sizeof(int) * (size_t) n, 7 + (uint64_t) sign);
}
static void drain(void)
{
    while (nP > 0) ext();
    ext();
}
static void begin(void) { apr_pool_create(&P, NULL); start(); }
static void end(void) { mc_eval(1); mc_trace(1); apr_pool_destroy(P); }

static void sequences(int depth, int vals)
{
    uint64_t tot = 1, s, x;
    int i;
    char d[64];
    for (i = 0; i < depth; i++) tot *= (uint64_t) vals + 1;
    for (s = 0; s < tot; s++) {
        if (!mc_sel()) continue;
        for (x = s, i = 0; i < depth; i++, x /= (uint64_t) vals + 1) d[i] = (char) ((x % (uint64_t) (vals + 1)) == (uint64_t) vals ? '-' : '0' + (int) (x % (uint64_t) (vals + 1)));
        d[depth] = 0;
        mc_desc("sign=%d reentrant=%d ops=%s (digit: insert it, '-': extract), then drain", sign, reent, d);
        begin();
        for (i = 0; i < depth; i++) {
            if (d[i] == '-') ext(); else ins(d[i] - '0');
            mc_state(snap());
        }
        if (nP > 1) mc_outcome(mc_hash(d, (size_t) depth, 1));
        drain();
        end();
        if (s == tot / 2) mc_sample("%s", mc_desc_get());
    }
}
static void perms(int n)
{
    int p[16], i, j, t, c[16] = { 0 }, extr;
    for (i = 0; i < n; i++) p[i] = i;
    for (;;) {
        /* insert in this order, with an extraction after position extr */
        for (extr = 0; extr <= n; extr += (n > 7 ? n : 1)) {
            if (mc_sel()) {
                char d[64];
                for (i = 0; i < n; i++) d[i] = (char) ('a' + p[i]);
                d[n] = 0;
                mc_desc("sign=%d reentrant=%d insert order %s, one extract after %d, then drain", sign, reent, d, extr);
                begin();
                for (i = 0; i < n; i++) { ins(p[i]); if (i + 1 == extr) ext(); }
                mc_state(snap());
                drain();
                end();
                mc_outcome(mc_hash(d, (size_t) n, 2 + (uint64_t) extr));
            }
        }
        /* next permutation */
        for (i = n - 2; i >= 0 && p[i] > p[i + 1]; i--) ;
        if (i < 0) break;
        for (j = n - 1; p[j] < p[i]; j--) ;
        t = p[i]; p[i] = p[j]; p[j] = t;
        for (i++, j = n - 1; i < j; i++, j--) { t = p[i]; p[i] = p[j]; p[j] = t; }
    }
    (void) c;
}
static int fillval(int pat, int i, int n)
{
    switch (pat) {
    case 0: return i;
    case 1: return n - i;
    case 2: return 5;
    case 3: return (i * 7919) % 1009;
    default: return i % 3;
    }
}
/* start from a heap holding n elements, around each growth limit */
static void grown(int depth)
{
    static const int around[] = { 256, 512, 1024 };
    int a, dn, pat, i;
    uint64_t s, tot = 1, x;
    for (i = 0; i < depth; i++) tot *= 4;
    for (a = 0; a < (mc_thorough ? 3 : 2); a++)
        for (dn = -2; dn <= 1; dn++)
            for (pat = 0; pat < 5; pat++)
                for (s = 0; s < tot; s++) {
                    static const int vs[3] = { -3, 500, 5000 };
                    if (!mc_sel()) continue;
                    mc_desc("sign=%d reentrant=%d prefill %d elements pattern %d, then ops %llu (base 4: insert low/mid/high, extract), then drain",
                            sign, reent, around[a] + dn, pat, (unsigned long long) s);
                    begin();
                    full = 0;
                    for (i = 0; i < around[a] + dn; i++) ins(fillval(pat, i, around[a]));
                    full = 1;
                    for (x = s, i = 0; i < depth; i++, x /= 4) { if (x % 4 == 3) ext(); else ins(vs[x % 4]); }
                    mc_state(snap());
                    mc_outcome(mc_hash(&s, sizeof s, (uint64_t) (around[a] + dn) * 8 + (uint64_t) pat));
                    full = 0;
                    drain();
                    full = 1;
                    end();
                }
}
/* large heaps: filled, partly emptied, filled again, drained, against the sorted list */
typedef struct { int v; int out; } big_t;
static int bcmp_(const void *a, const void *b) { int x = ((const big_t *) a)->v, y = ((const big_t *) b)->v; return sign * ((x > y) - (x < y)); }
static int icmp_(const void *a, const void *b) { int x = *(const int *) a, y = *(const int *) b; return (x > y) - (x < y); }
static void huge(int n, int pat)
{
    static big_t B[700000];
    static int left[700000];
    int i, nb = 0, nl = 0, r, prev = 0;
    if (!mc_sel_weighted(n / 200 + 1)) return;
    mc_desc("sign=%d reentrant=%d %d elements pattern %d, a third extracted, as many inserted, drained", sign, reent, n, pat);
    apr_pool_create(&P, NULL);
    H = reent ? napr_heap_make_r(P, bcmp_) : napr_heap_make(P, bcmp_);
#define INS() do { B[nb].v = pat == 3 ? (int) ((unsigned) nb * 2654435761u >> 8) : fillval(pat, nb, n); B[nb].out = 0; r = reent ? napr_heap_insert_r(H, &B[nb]) : napr_heap_insert(H, &B[nb]); nb++; MC_CHECK(r == 0, "insert %d failed (%d)", nb, r); } while (0)
#define EXT() do { big_t *e = napr_heap_extract(H); MC_CHECK(e && e >= B && e < B + nb && !e->out, "extraction gives something that is not stored"); e->out = 1; r = e->v; } while (0)
    for (i = 0; i < n; i++) INS();
    MC_CHECK((int) napr_heap_size(H) == nb, "size is %u after %d insertions", napr_heap_size(H), nb);
    for (i = 0; i < n / 3; i++) { EXT(); MC_CHECK(!i || sign * (r - prev) <= 0, "extraction gives %d after %d", r, prev); prev = r; }
    for (i = 0; i < nb; i++) if (!B[i].out) MC_CHECK(sign * (B[i].v - prev) <= 0 || n < 3, "%d was left while %d came out", B[i].v, prev);
    for (i = 0; i < n / 3; i++) INS();
    for (i = 0; i < nb; i++) if (!B[i].out) left[nl++] = B[i].v;
    qsort(left, (size_t) nl, sizeof *left, icmp_);
    MC_CHECK((int) napr_heap_size(H) == nl, "size is %u, %d elements are stored", napr_heap_size(H), nl);
    for (i = 0; i < nl; i++) { EXT(); MC_CHECK(r == left[sign > 0 ? nl - 1 - i : i], "extraction %d gives %d instead of %d", i, r, left[sign > 0 ? nl - 1 - i : i]); }
    MC_CHECK(napr_heap_extract(H) == NULL && napr_heap_size(H) == 0, "the heap is not empty after everything was extracted");
    mc_trans((uint64_t) nb * 2); mc_eval(1); mc_trace(1); mc_outcome(mc_hash(&n, sizeof n, (uint64_t) pat));
    apr_pool_destroy(P);
}
static void worker(void)
{
    apr_initialize();
    full = 1;
    for (sign = 1; sign >= -1; sign -= 2) {
        for (reent = 0; reent <= 1; reent++) {
            sequences(mc_thorough ? 11 : 8, 3);
            perms(6);
            grown(3);
        }
        for (reent = 0; reent <= 1; reent++) {
            static const int ns[] = { 1, 2, 3, 4, 7, 1000, 2047, 2048, 2049, 4096, 5000, 8192, 8193, 20000, 32769, 65537, 70000, 140000, 300000 };
            unsigned q; int pat;
            for (q = 0; q < sizeof ns / sizeof *ns; q++) for (pat = 0; pat < 5; pat++) huge(ns[q], pat);
        }
        reent = 0;
        perms(mc_thorough ? 9 : 8);
    }
}
int main(int argc, char **argv) { mc_init(argc, argv); return mc_run(worker); }
