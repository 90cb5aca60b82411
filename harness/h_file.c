/* F08: comparison and checksum on the real implementation with every environment answer the kernel may give: all file
 * sizes around the block limits, every (or every boundary) difference position, mmap allowed or refused for either
 * file, reads of several granularities per file, a failing read at every position. */
#define _GNU_SOURCE
#include "mc.h"
#include <apr_general.h>
#include <apr_pools.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "ft_file.h"

static ino_t inoA, inoB;
static int armed, mmapfail, gran[2], nreads, failread, eintr;

static int which(int fd)
{
    struct stat st;
    if (fstat(fd, &st)) return -1;
    return st.st_ino == inoA ? 0 : st.st_ino == inoB ? 1 : -1;
}
ssize_t read(int fd, void *b, size_t n)
{
    if (armed) {
        int w = which(fd);
        if (w >= 0) {
            int k = nreads++;
            if (k == failread) { errno = EIO; return -1; }
            if (eintr && k % 3 == 1) { errno = EINTR; return -1; }
            if (gran[w] && n > (size_t) gran[w]) n = (size_t) gran[w];
        }
    }
    return syscall(SYS_read, fd, b, n);
}
static void *my_mmap(void *a, size_t n, int p, int f, int fd, off_t o)
{
    if (armed && fd >= 0) {
        int w = which(fd);
        if (w >= 0 && (mmapfail >> w & 1)) { errno = ENOMEM; return MAP_FAILED; }
    }
    return (void *) syscall(SYS_mmap, a, n, p, f, fd, o);
}
void *mmap(void *a, size_t n, int p, int f, int fd, off_t o) { return my_mmap(a, n, p, f, fd, o); }
void *mmap64(void *a, size_t n, int p, int f, int fd, off_t o) { return my_mmap(a, n, p, f, fd, o); }

typedef XXH128_hash_t (*xxh_fn)(const void *, size_t);
static xxh_fn ref_hash;

static unsigned char *buf, *buf2;
static char fa[700], fb[700];
static apr_pool_t *P;

static void put(const char *f, const unsigned char *d, size_t n, ino_t *ino)
{
    int fd = open(f, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    struct stat st;
    size_t o = 0;
    while (o < n) { ssize_t r = write(fd, d + o, n - o); if (r <= 0) mc_error("write: %d", errno); o += (size_t) r; }
    fstat(fd, &st);
    *ino = st.st_ino;
    close(fd);
}
static void reset(void) { armed = 0; mmapfail = 0; gran[0] = gran[1] = 0; nreads = 0; failread = -1; eintr = 0; }

static int do_cmp(size_t n, long excess, int init, int *st)
{
    int r = init;
    apr_pool_t *p;
    apr_pool_create(&p, P);
    nreads = 0;
    armed = 1;
    *st = filecmp(p, fa, fb, (apr_off_t) n, (apr_off_t) excess, &r);
    armed = 0;
    apr_pool_destroy(p);
    mc_eval(1); mc_trans(1);
    return r;
}
static void do_sum(size_t n, long excess)
{
    ft_hash_t h = { 0, 0 };
    XXH128_hash_t w = ref_hash(buf, n);
    apr_pool_t *p;
    int st;
    apr_pool_create(&p, P);
    nreads = 0;
    armed = 1;
    st = checksum_file(fa, (apr_off_t) n, (apr_off_t) excess, &h, p);
    armed = 0;
    apr_pool_destroy(p);
    mc_eval(1); mc_trans(1);
    if (failread >= 0 && nreads > failread) { MC_CHECK(st != APR_SUCCESS, "a failing read gives a checksum as if nothing happened"); return; }
    MC_CHECK(st == APR_SUCCESS, "checksum of a readable file fails (%d)", st);
    MC_CHECK(h.low64 == w.low64 && h.high64 == w.high64, "checksum is not XXH3-128 of the bytes");
    mc_outcome(mc_hash(&h, sizeof h, 1));
    mc_trace(1);
}
static void judge(size_t n, long excess, int same)
{
    int init, st, r;
    for (init = 0; init <= 1; init++) {
        r = do_cmp(n, excess, init ? 0x5a5a : 0, &st);
        if (failread >= 0 && nreads > failread) {
            MC_CHECK(st != APR_SUCCESS || r != 0 , "a failing read leads to \"equal\"");
            continue;
        }
        MC_CHECK(st == APR_SUCCESS, "comparing readable files fails (%d)", st);
        MC_CHECK((r == 0) == same, "files are %s but compared %s (result variable was %d before)", same ? "equal" : "different", r == 0 ? "equal" : "different", init ? 0x5a5a : 0);
        mc_trace(1);
    }
}

static const int grans[] = { 0, 1, 7, 1000, 4096, 65535, 30000 };

static void grid(size_t n, int small)
{
    /* difference positions: none (-1), all for small files, boundaries for large ones */
    static const long marks[] = { 0, 1, 2, 4094, 4095, 4096, 4097, 29999, 30000, 65534, 65535, 65536, 65537, 100000, 131070, 131071, 131072, 131073, 196607, 196608, 196609 };
    unsigned i, g1, g2, m, x, pos;
    unsigned npos = small ? (unsigned) n + 1 : (unsigned) (sizeof marks / sizeof *marks) + 4;
    unsigned maxg = sizeof grans / sizeof *grans;
    for (pos = 0; pos < npos; pos++) {
        long d = -1;
        if (small) d = (long) pos - 1;
        else if (pos < sizeof marks / sizeof *marks) { d = marks[pos]; if (d >= (long) n) continue; }
        else { int k = (int) (pos - sizeof marks / sizeof *marks); d = k == 0 ? -1 : (long) n - k; if (d < -1) continue; }
        for (m = 0; m < 4; m++)
            for (x = 0; x < 3; x++) {
                long ex = x == 0 ? 0 : x == 1 ? (long) n : (long) n + 1;
                if (!mc_sel()) continue;
                mc_desc("size=%zu difference at %ld mmap-refused=%u excess=%ld", n, d, m, ex);
                for (i = 0; i < n; i++) buf[i] = (unsigned char) (i * 131 + (i >> 8) * 7 + (i >> 16));
                memcpy(buf2, buf, n);
                if (d >= 0) buf2[d] ^= (unsigned char) (1 << (pos & 7));
                put(fa, buf, n, &inoA);
                put(fb, buf2, n, &inoB);
                for (g1 = 0; g1 < maxg; g1++)
                    for (g2 = 0; g2 < maxg; g2++) {
                        if (n > 9000 && (grans[g1] == 1 || grans[g2] == 1 || grans[g1] == 7 || grans[g2] == 7) && !(mc_thorough && n < 70000)) continue;
                        reset();
                        mmapfail = (int) m;
                        gran[0] = grans[g1]; gran[1] = grans[g2];
                        mc_desc("size=%zu difference at %ld mmap-refused=%u excess=%ld read granularity %d/%d", n, d, m, ex, grans[g1], grans[g2]);
                        judge(n, ex, d < 0);
                        if (g2 == 0 && m < 2) do_sum(n, ex);
                        if (mc_state(mc_hash(mc_desc_get(), strlen(mc_desc_get()), 0)) && pos == 1 && g1 == 2) mc_sample("%s", mc_desc_get());
                        if (x == 2 && m == 0) { g1 = g2 = maxg; }   /* fully mapped: read granularity is irrelevant */
                    }
                /* interrupted reads, and an error at every read */
                for (g1 = 0; g1 < 2; g1++) {
                    int k, total;
                    reset();
                    mmapfail = (int) m;
                    gran[0] = gran[1] = g1 ? 30000 : 0;
                    eintr = 1;
                    mc_desc("size=%zu difference at %ld mmap-refused=%u excess=%ld granularity %d, every third read interrupted", n, d, m, ex, gran[0]);
                    judge(n, ex, d < 0);
                    do_sum(n, ex);
                    eintr = 0;
                    { int st; (void) do_cmp(n, ex, 0, &st); }
                    total = nreads;
                    for (k = 0; k < total; k++) {
                        failread = k;
                        mc_desc("size=%zu difference at %ld mmap-refused=%u excess=%ld granularity %d, read number %d fails", n, d, m, ex, gran[0], k);
                        judge(n, ex, d < 0);
                        if (d < 0) do_sum(n, ex);
                    }
                    failread = -1;
                }
            }
    }
}
static void worker(void)
{
    static const size_t sm[] = { 0, 1, 2, 3, 8, 16, 17, 31 };
    static const size_t bg[] = { 240, 241, 4095, 4096, 4097, 65535, 65536, 65537, 131071, 131072, 131073, 196608, 262145 };
    unsigned i;
    void *dl;
    size_t n;
    reset();
    apr_initialize();
    apr_pool_create(&P, NULL);
    dl = dlopen("libxxhash.so.0", RTLD_NOW | RTLD_LOCAL | RTLD_DEEPBIND);
    if (dl) ref_hash = (xxh_fn) dlsym(dl, "XXH3_128bits");
    if (!ref_hash) { ref_hash = XXH3_128bits; mc_note("system libxxhash not present: vendored copy used as reference"); }
    snprintf(fa, sizeof fa, "%s/a", mc_dir);
    snprintf(fb, sizeof fb, "%s/b", mc_dir);
    buf = malloc(70 << 20);
    buf2 = malloc(70 << 20);
    for (i = 0; i < sizeof sm / sizeof *sm; i++) grid(sm[i], 1);
    for (i = 0; i < sizeof bg / sizeof *bg; i++) grid(bg[i], 0);
    /* larger files: differences around every block end and every power of two, mapped and read in blocks */
    {
        static const size_t lg[] = { 300000, 1048575, 1048576, 1048577, 3145728, 3210000, (17 << 20) + 3, (64 << 20) + 70001 };
        unsigned q;
        for (q = 0; q < sizeof lg / sizeof *lg; q++) {
            long step = lg[q] < 4000000 ? 65536 : 0, at, base, e;
            if (mc_sel()) {
                n = lg[q];
                for (i = 0; i < n; i++) buf[i] = (unsigned char) (i * 131 + (i >> 8) * 7 + (i >> 16));
                put(fa, buf, n, &inoA); put(fb, buf, n, &inoB);
                mc_desc("two equal files of %zu bytes", n);
                for (i = 0; i < 4; i++) { reset(); mmapfail = i == 2 ? 3 : i == 3 ? 1 : 0; judge(n, i == 1 ? 0 : (long) n + 1, 1); do_sum(n, i == 1 ? 0 : (long) n + 1); }
            }
            for (base = step ? step : 1024; base <= (long) lg[q] + 2; base = step ? base + step : base * 2) for (e = -1; e < 2; e++) {
                int fd;
                at = base + e;
                if (!step && at >= (long) lg[q] - 2) break;
                if (at >= (long) lg[q]) at = (long) lg[q] - 1;
                if (!mc_sel()) continue;
                n = lg[q];
                for (i = 0; i < n; i++) buf[i] = (unsigned char) (i * 131 + (i >> 8) * 7 + (i >> 16));
                put(fa, buf, n, &inoA); put(fb, buf, n, &inoB);
                fd = open(fb, O_WRONLY);
                buf[at] ^= 0x40;
                if (pwrite(fd, buf + at, 1, at) != 1) mc_error("pwrite");
                close(fd);
                mc_desc("files of %zu bytes, difference at %ld", n, at);
                for (i = 0; i < 3; i++) { reset(); mmapfail = i == 2 ? 3 : 0; judge(n, i == 1 ? 0 : (long) n + 1, 0); }
                mc_state(mc_hash(&at, sizeof at, n));
                if (!step) { buf[at] ^= 0x40; at = (long) n - 1; }
            }
        }
    }
    /* files that no longer have the stated size: equal contents only */
    {
        static const size_t ns[] = { 1, 2, 16, 4095, 4096, 65535, 65536, 65537, 131072, 140000 };
        static const long ds[] = { -65536, -4096, -2, -1, 0, 1, 2, 4096, 65536 };
        unsigned a, b, q;
        for (a = 0; a < sizeof ns / sizeof *ns; a++) for (b = 0; b < 81; b++) for (q = 0; q < 12; q++) {
            long l1 = (long) ns[a] + ds[b / 9], l2 = (long) ns[a] + ds[b % 9];
            if (l1 < 0 || l2 < 0) continue;
            if (!mc_sel()) continue;
            n = ns[a];
            for (i = 0; i < 270000; i++) buf[i] = (unsigned char) (i * 131 + (i >> 8) * 7 + (i >> 16));
            put(fa, buf, (size_t) l1, &inoA); put(fb, buf, (size_t) l2, &inoB);
            reset();
            mmapfail = q & 3; gran[0] = q >= 8 ? 1000 : 0; gran[1] = q >= 4 && q < 8 ? 4096 : 0;
            mc_desc("files of %ld and %ld bytes with the same beginning, examined as %zu bytes, mmap-refused=%d", l1, l2, n, mmapfail);
            for (i = 0; i < 2; i++) {
                int st, r = do_cmp(n, i ? 0 : (long) n + 1, 0, &st);
                MC_CHECK(st != APR_SUCCESS || r != 0 || l1 == l2, "files of %ld and %ld bytes are compared equal", l1, l2);
                if (l1 == (long) n && l2 == (long) n) MC_CHECK(st == APR_SUCCESS && r == 0, "equal files are compared different");
            }
            mc_trace(1);
        }
    }
    /* checksum for every length up to a limit, mapped and read in blocks */
    for (n = 0; n <= (mc_thorough ? 20000u : 2600u); n++) {
        unsigned k;
        if (!mc_sel()) continue;
        for (k = 0; k < n; k++) buf[k] = (unsigned char) (k * 167 + n);
        put(fa, buf, n, &inoA);
        mc_desc("checksum of %zu bytes", n);
        reset();
        do_sum(n, 0);
        do_sum(n, (long) n + 1);
        gran[0] = 100; do_sum(n, 0);
        mmapfail = 1; do_sum(n, (long) n + 1);
    }
}
int main(int argc, char **argv) { mc_init(argc, argv); return mc_run(worker); }
