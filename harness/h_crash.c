/* D03, D06: crash points, lost and torn writes, and failing file operations on the real key-value store.
 *
 * All file operations of the code under test on the database file pass through the functions below.  They keep
 *   - the durable image (what the last successful sync guaranteed) and
 *   - the list of later writes, truncations and stores through the memory map, in order,
 * and at every file operation build every disk image a crash could leave (bounded patterns of lost and torn writes),
 * reopen it with the real code in a second environment and compare with the reference model. */
#include "dbx.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>

static const prof_t P_MID  = { 8, 8,  { 1, 1300, 1290, 1310 }, 0, "1300-byte values" };
static const prof_t P_LONG = { 800, 1000, { 1, 60, 5, 1500 },  0, "keys of 800..1000 bytes" };
static const prof_t P_MIX  = { 4, 60, { -1, -1, -1, -1 },      0, "mixed value sizes" };
static const prof_t P_FULL = { 8, 8,  { 1, 3000, 2500, 3900 },  0, "a pair per page" };
static const prof_t P_TINY = { 8, 8,  { 1, 8, 9, 24 },         0, "tiny values" };

#define MAXIMG (4000 * 4096)
#define MAXU 4000
typedef struct { unsigned char b[MAXIMG]; size_t n; } im_t;
typedef struct { int kind; size_t off, len; unsigned char *data; } unit_t;    /* 0 write, 1 truncate to off, 2 map store */
static im_t DUR, VOL;
static unit_t U[MAXU];
static int nU;
static int track, infd = -1;           /* tracking on, descriptor of the database file */
static char TRACKED[512], CRASHP[512];

/* allowed states of a crash now */
static snap_t OLD, NEW;
static int in_commit;                  /* OLD or NEW allowed; otherwise OLD only */
static int creating;                   /* database not yet created: opening may find nothing committed */
static int explore_on;
static uint64_t n_images;

static void im_copy(im_t *d, const im_t *s) { memcpy(d->b, s->b, s->n); d->n = s->n; }
static uint64_t im_hash(const im_t *im)
{
    uint64_t h = im->n, w; size_t i;
    for (i = 0; i + 8 <= im->n; i += 8) { memcpy(&w, im->b + i, 8); h = (h ^ w) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
    for (; i < im->n; i++) h = (h ^ im->b[i]) * 0x100000001B3ull;
    return h ^ h >> 31;
}
static int light;                      /* fewer patterns: prefixes, all but one, only one */
static void unit_add(int kind, size_t off, size_t len, const void *d)
{
    unit_t *u;
    if (nU >= MAXU) mc_error("too many unsynced writes");
    u = &U[nU++];
    u->kind = kind; u->off = off; u->len = len; u->data = NULL;
    if (len) { u->data = malloc(len); memcpy(u->data, d, len); }
}
static void units_clear(void) { while (nU) { free(U[--nU].data); } }
static void put_bytes(im_t *im, size_t off, size_t len, const void *d)
{
    if (off + len > MAXIMG) mc_error("image too large");
    if (off + len > im->n) { memset(im->b + im->n, 0, off + len - im->n); im->n = off + len; }
    memcpy(im->b + off, d, len);
}
static void apply(im_t *im, const unit_t *u)
{
    if (u->kind == 1) {
        if (u->off > MAXIMG) mc_error("image too large");
        if (u->off > im->n) memset(im->b + im->n, 0, u->off - im->n);
        im->n = u->off;
    } else put_bytes(im, u->off, u->len, u->data);
}
/* bring stores made through the memory map into the list */
static void note_map_stores(void)
{
    static unsigned char now[MAXIMG];
    struct stat sb;
    size_t i, n;
    if (infd < 0 || syscall(SYS_fstat, infd, &sb)) return;
    n = (size_t) sb.st_size;
    if (n > MAXIMG) mc_error("file too large for the tracker");
    if (syscall(SYS_pread64, infd, now, n, 0L) != (long) n) mc_error("tracker read");
    if (n != VOL.n) mc_error("tracker: size %lu, expected %lu", (unsigned long) n, (unsigned long) VOL.n);
    for (i = 0; i < n; i += 512) {
        size_t l = n - i < 512 ? n - i : 512, a, b;
        if (!memcmp(now + i, VOL.b + i, l)) continue;
        for (a = 0; now[i + a] == VOL.b[i + a]; a++) ;
        for (b = l; now[i + b - 1] == VOL.b[i + b - 1]; b--) ;
        unit_add(2, i + a, b - a, now + i + a);
        memcpy(VOL.b + i + a, now + i + a, b - a);
    }
}

/* ---- checking one disk image ---- */
#define SEEN (1u << 16)
static uint64_t seen[SEEN];
static int nseen;
typedef struct { unsigned char *b; size_t n; int state; } keep_t;    /* images kept for a second crash */
static keep_t *KEEP;
static int nkeep, capkeep, keeping;
static const snap_t *recovered;

static int matches(napr_db_txn_t *t, const snap_t *m)
{
    int i;
    for (i = 0; i < NK; i++) {
        napr_db_val_t k = K(i), d;
        apr_status_t s = napr_db_get(t, &k, &d);
        if (m->ver[i] == 0 ? !APR_STATUS_IS_NOTFOUND(s) : (s != APR_SUCCESS || !is_val(&d, i, m->ver[i]))) return 0;
    }
    return 1;
}
static void check_image(const im_t *im, const char *what)
{
    apr_pool_t *ep = EP; napr_db_env_t *en = ENV;
    char save[512];
    int tr = track, ex = explore_on, i, fd;
    napr_db_txn_t *t;
    snap_t m;
    apr_size_t map = MAPSIZE;
    apr_status_t s;
    uint64_t h = im_hash(im) ^ (in_commit ? 0x1234567 : 0) ^ snap_hash(&OLD), j;
    if (h == 0) h = 1;
    for (j = h & (SEEN - 1); seen[j]; j = (j + 1) & (SEEN - 1)) if (seen[j] == h) return;
    if (nseen > (int) (SEEN / 2)) { memset(seen, 0, sizeof seen); nseen = 0; j = h & (SEEN - 1); }
    seen[j] = h; nseen++; n_images++;
    track = 0; explore_on = 0;
    strcpy(save, DBPATH); strcpy(DBPATH, CRASHP);
    fd = (int) syscall(SYS_open, CRASHP, O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || syscall(SYS_write, fd, im->b, im->n) != (long) im->n) mc_error("crash image");
    syscall(SYS_close, fd);
    /* a map just as large as the file: freed pages have to be used again at once */
    if (im->n > 2 * 4096) MAPSIZE = (im->n + 4095) / 4096 * 4096;
    s = env_open_st(NAPR_DB_CREATE);
    MC_CHECK(s == APR_SUCCESS, "crash (%s): the database cannot be opened again (%s)", what, st(s));
    t = begin_txn(NAPR_DB_RDONLY);
    recovered = NULL;
    if (matches(t, &OLD)) recovered = &OLD;
    if (in_commit && matches(t, &NEW)) recovered = &NEW;
    MC_CHECK(recovered, "crash (%s): the reopened database holds neither the state before nor the one after the transaction%s", what, in_commit ? "" : " (no commit was in progress: the last committed state is required)");
    m = *recovered;
    check_scan(t, &m, "after the crash");
    napr_db_txn_commit(t);
    if (keeping) {
        if (nkeep == capkeep) KEEP = realloc(KEEP, sizeof *KEEP * (size_t) (capkeep = capkeep * 2 + 16));
        KEEP[nkeep].b = malloc(im->n); memcpy(KEEP[nkeep].b, im->b, im->n); KEEP[nkeep].n = im->n; KEEP[nkeep].state = recovered == &NEW; nkeep++;
    }
    if (MAPSIZE != map) {
        snap_t b = m;
        t = begin_txn(0);
        for (s = APR_SUCCESS, i = 0; i < NK && s == APR_SUCCESS; i++) {
            napr_db_val_t k, d;
            if (i & 1 || !m.ver[i]) continue;
            k = K(i); d = V(i, 1 + (m.ver[i] + 1) % 3);
            s = napr_db_put(t, &k, &d);
            m.ver[i] = 1 + (m.ver[i] + 1) % 3;
        }
        if (s == APR_SUCCESS) s = napr_db_txn_commit(t); else napr_db_txn_abort(t);
        if (s != APR_SUCCESS) m = b;                   /* no space is a fair answer here */
        t = begin_txn(NAPR_DB_RDONLY);
        check_gets(t, &m, "after a crash and a transaction that had to use freed pages");
        napr_db_txn_commit(t);
        env_close();
        MAPSIZE = map;
        s = env_open_st(0);
        MC_CHECK(s == APR_SUCCESS, "crash (%s): opening after a further transaction gives %s", what, st(s));
    }
    /* the database accepts further transactions */
    t = begin_txn(0);
    for (i = 0; i < NK; i += 2) {
        napr_db_val_t k, d;
        k = K(i); d = V(i, 1 + (m.ver[i] + 1) % 3);
        MC_CHECK(napr_db_put(t, &k, &d) == APR_SUCCESS, "crash (%s): a put after reopening fails", what);
        m.ver[i] = 1 + (m.ver[i] + 1) % 3;
    }
    s = napr_db_txn_commit(t);
    MC_CHECK(s == APR_SUCCESS, "crash (%s): a commit after reopening gives %s", what, st(s));
    env_close();
    s = env_open_st(0);
    MC_CHECK(s == APR_SUCCESS, "crash (%s): opening after a further transaction gives %s", what, st(s));
    t = begin_txn(NAPR_DB_RDONLY);
    check_gets(t, &m, "after a crash and a further transaction");
    check_scan(t, &m, "after a crash and a further transaction");
    napr_db_txn_commit(t);
    env_close();
    EP = ep; ENV = en; track = tr; explore_on = ex;
    strcpy(DBPATH, save);
    mc_eval(1); mc_trace(1);
    mc_state(h);
}
static void build_mask(im_t *im, uint64_t mask)
{
    int i;
    im_copy(im, &DUR);
    for (i = 0; i < nU; i++) if (i >= 64 || mask >> i & 1) apply(im, &U[i]);
}
/* unit x torn: only the sectors of `sect` (bit set) reach the disk; the others: 0 none, 1 earlier, 2 all */
static void build_torn(im_t *im, int x, uint64_t sect, int others)
{
    int i;
    size_t o, k;
    im_copy(im, &DUR);
    for (i = 0; i < nU; i++) {
        if (i != x) { if (others == 2 || (others == 1 && i < x)) apply(im, &U[i]); continue; }
        for (o = U[i].off, k = 0; o < U[i].off + U[i].len; k++) {
            size_t e = (o / 512 + 1) * 512;
            if (e > U[i].off + U[i].len) e = U[i].off + U[i].len;
            if (sect >> k & 1) put_bytes(im, o, e - o, U[i].data + (o - U[i].off));
            o = e;
        }
        /* the size of the file is metadata and changes at once: lost sectors of an extension read as zeros */
        if (im->n < U[i].off + U[i].len) { memset(im->b + im->n, 0, U[i].off + U[i].len - im->n); im->n = U[i].off + U[i].len; }
    }
}
static int big, bigcalls;                    /* transactions of hundreds of pages: chosen crash points and patterns */
static unsigned char SEL[MAXU];
static void build_sel(im_t *im) { int i; im_copy(im, &DUR); for (i = 0; i < nU; i++) if (SEL[i]) apply(im, &U[i]); }
static void explore_big(const char *where)
{
    static im_t im;
    char what[160]; int i, k, o, step = nU / (mc_is("D03") ? 8 : 2) + 1; uint64_t m;
    if (strstr(where, "before a write") && bigcalls++ % big) return;
    note_map_stores();
    mc_trans(1);
#define CKB(...) do { build_sel(&im); snprintf(what, sizeof what, __VA_ARGS__); check_image(&im, what); } while (0)
    for (k = 0; k <= nU; k = k < nU && k + step > nU ? nU : k + step) {
        for (i = 0; i < nU; i++) SEL[i] = i < k;
        CKB("%s, first %d writes of %d", where, k, nU);
        for (i = 0; i < nU; i++) SEL[i] = i >= k;
        CKB("%s, all but the first %d writes of %d", where, k, nU);
    }
    for (k = 0; k < nU; k += step) {
        for (i = 0; i < nU; i++) SEL[i] = i != k;
        CKB("%s, all but write %d of %d", where, k, nU);
        for (i = 0; i < nU; i++) SEL[i] = i == k;
        CKB("%s, only write %d of %d", where, k, nU);
    }
    for (k = 0; k < nU; k++) if (U[k].kind == 0 && U[k].off < 8192) {
        for (i = 0; i < nU; i++) SEL[i] = i != k;
        CKB("%s, all but write %d of %d", where, k, nU);
        for (i = 0; i < nU; i++) SEL[i] = i == k;
        CKB("%s, only write %d of %d", where, k, nU);
        if (mc_is("D03")) for (o = 0; o < 3; o += 2) for (m = 0; m < 8; m++) { build_torn(&im, k, 1ull << m, o); snprintf(what, sizeof what, "%s, sector %d of write %d", where, (int) m, k); check_image(&im, what); build_torn(&im, k, ~(1ull << m), o); check_image(&im, what); }
    }
}
static void explore(const char *where)
{
    static im_t im;
    int i, j, o;
    uint64_t m;
    char what[160];
    if (!explore_on) return;
    if (big) { explore_big(where); return; }
    note_map_stores();
    mc_trans(1);
    if (getenv("MCDBG")) for (i = 0; i < nU; i++) fprintf(stderr, "  %s: unit %d kind %d off %lu len %lu\n", where, i, U[i].kind, U[i].off, U[i].len);
#define CK(...) do { snprintf(what, sizeof what, __VA_ARGS__); check_image(&im, what); } while (0)
    if (nU <= (light ? 3 : 9)) {
        for (m = 0; m < (1ull << nU); m++) { build_mask(&im, m); CK("%s, writes on disk 0x%llx of %d", where, (unsigned long long) m, nU); }
    } else {
        int n = nU > 63 ? 63 : nU;
        uint64_t all = n == 63 ? ~0ull : (1ull << n) - 1;
        for (i = 0; i <= n; i++) {
            build_mask(&im, all & ((1ull << i) - 1)); CK("%s, first %d writes of %d", where, i, nU);
            build_mask(&im, all & ~((1ull << i) - 1)); CK("%s, all but the first %d writes of %d", where, i, nU);
        }
        for (i = 0; i < n; i++) for (j = i; j < (light ? i + 1 : n); j++) {
            build_mask(&im, all & ~(1ull << i) & ~(1ull << j)); CK("%s, all but writes %d and %d of %d", where, i, j, nU);
            build_mask(&im, (1ull << i) | (1ull << j)); CK("%s, only writes %d and %d of %d", where, i, j, nU);
        }
    }
    for (i = 0; i < nU; i++) {
        int ns;
        if (U[i].kind == 1) continue;
        if (U[i].kind == 2) {             /* a store through the map reaches memory word by word */
            for (j = 8; j < (int) U[i].len; j += 8) { build_mask(&im, (1ull << i) - 1); put_bytes(&im, U[i].off, (size_t) j, U[i].data); CK("%s, %d bytes of map store %d", where, j, i); }
            continue;
        }
        if (light && U[i].off >= 8192) continue;
        ns = (int) ((U[i].off + U[i].len + 511) / 512 - U[i].off / 512);
        if (ns < 2) continue;
        if (ns > 64) ns = 64;
        for (o = 0; o < 3; o++) {
            if (ns <= 8 && (nU == 1 || U[i].off < 8192)) { for (m = 0; m < (1ull << ns); m++) { build_torn(&im, i, m, o); CK("%s, sectors 0x%llx of write %d", where, (unsigned long long) m, i); } continue; }
            for (j = 0; j < ns; j++) {
                build_torn(&im, i, (2ull << j) - 1, o); CK("%s, first %d sectors of write %d", where, j + 1, i);
                build_torn(&im, i, ~((2ull << j) - 1), o); CK("%s, all but the first %d sectors of write %d", where, j + 1, i);
                build_torn(&im, i, ~(1ull << j), o); CK("%s, all but sector %d of write %d", where, j, i);
            }
        }
    }
}

/* ---- fault injection ---- */
static int ev, f1 = -1, f2 = -1, fvar, f_from = -1, fired;
static int ev_kind[8192];
enum { EV_SEEK, EV_WRITE, EV_SYNC, EV_TRUNC, EV_MMAP, EV_OPEN, EV_STAT, EV_READ };
static const char *EVN[] = { "seek", "write", "sync", "truncate", "mmap", "open", "stat", "read" };
static int fault(int kind)          /* 0 go on, 1 fail with EIO, 2 (write) half then ENOSPC, 3 (write) short but successful */
{
    int e = ev++;
    if (e < 8192) ev_kind[e] = kind;
    if (e == f1 || e == f2 || (f_from >= 0 && e >= f_from)) {
        fired++;
        if (e == f1 && kind == EV_WRITE) return 1 + fvar;
        return 1;
    }
    return 0;
}

/* ---- the file operations ---- */
static int is_db(const char *p) { return track && !strcmp(p, TRACKED); }
static int do_open(const char *p, int fl, int mode)
{
    int fd;
    if (is_db(p)) {
        if (fault(EV_OPEN)) { errno = EIO; return -1; }
        fd = (int) syscall(SYS_openat, AT_FDCWD, p, fl, mode);
        if (fd >= 0) {
            struct stat sb;
            infd = fd;
            syscall(SYS_fstat, fd, &sb);
            if (fl & O_TRUNC && VOL.n) { unit_add(1, 0, 0, NULL); VOL.n = 0; }
        }
        return fd;
    }
    return (int) syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}
int open(const char *p, int fl, ...) { int m = 0; va_list a; va_start(a, fl); if (fl & O_CREAT) m = va_arg(a, int); va_end(a); return do_open(p, fl, m); }
int open64(const char *p, int fl, ...) { int m = 0; va_list a; va_start(a, fl); if (fl & O_CREAT) m = va_arg(a, int); va_end(a); return do_open(p, fl, m); }
int close(int fd) { if (track && fd == infd) { explore("closing"); infd = -1; } return (int) syscall(SYS_close, fd); }
static ssize_t do_write(int fd, const void *b, size_t n, long at)    /* at < 0: current position */
{
    int f, e;
    size_t k = n;
    long pos, r;
    if (!(track && fd == infd)) return at < 0 ? syscall(SYS_write, fd, b, n) : syscall(SYS_pwrite64, fd, b, n, at);
    f = fault(EV_WRITE);
    note_map_stores();
    explore("before a write");
    if (f == 1) { errno = EIO; return -1; }
    if (f == 2 || f == 3) { k = n / 2; if (k == 0) { if (f == 2) { errno = ENOSPC; return -1; } k = n; } }
    pos = at < 0 ? syscall(SYS_lseek, fd, 0L, SEEK_CUR) : at;
    r = at < 0 ? syscall(SYS_write, fd, b, k) : syscall(SYS_pwrite64, fd, b, k, at);
    if (r != (long) k) mc_error("tracker write");
    unit_add(0, (size_t) pos, k, b);
    put_bytes(&VOL, (size_t) pos, k, b);
    if (f == 2) { if (f1 >= 0) { f2 = ev; } (void) e; return (ssize_t) k; }    /* the rest of it fails */
    return (ssize_t) k;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, -1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    ssize_t t = 0;
    int i;
    if (!(track && fd == infd)) return syscall(SYS_writev, fd, v, c);
    for (i = 0; i < c; i++) { ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, -1); if (r < 0) return t ? t : r; t += r; if ((size_t) r < v[i].iov_len) break; }
    return t;
}
static int do_sync(int fd, long nr)
{
    int r;
    if (!(track && fd == infd)) return (int) syscall(nr, fd);
    note_map_stores();
    explore("before a sync");
    if (fault(EV_SYNC)) { errno = EIO; return -1; }
    r = (int) syscall(nr, fd);
    im_copy(&DUR, &VOL); units_clear();
    explore("after a sync");
    return r;
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }
static char *mapa; static size_t mapn;
int msync(void *a, size_t n, int fl)
{
    if (!(track && mapa && (char *) a >= mapa && (char *) a < mapa + mapn)) return (int) syscall(SYS_msync, a, n, fl);
    note_map_stores();
    explore("before a sync of the map");
    if (fault(EV_SYNC)) { errno = EIO; return -1; }
    if (fl & MS_SYNC) {                   /* everything within the range becomes durable (the kernel syncs the whole range of the file) */
        size_t lo = (size_t) ((char *) a - mapa), hi = lo + n, j;
        int i, k = 0;
        for (i = 0; i < nU; i++) {
            if (U[i].kind != 1 && U[i].off >= lo && U[i].off + U[i].len <= hi) { apply(&DUR, &U[i]); free(U[i].data); }
            else if (U[i].kind == 1) { apply(&DUR, &U[i]); free(U[i].data); }
            else U[k++] = U[i];
        }
        nU = k; (void) j;
    }
    explore("after a sync of the map");
    return (int) syscall(SYS_msync, a, n, fl);
}
static int do_trunc(int fd, off_t o)
{
    if (!(track && fd == infd)) return (int) syscall(SYS_ftruncate, fd, o);
    note_map_stores();
    explore("before a truncation");
    if (fault(EV_TRUNC)) { errno = EIO; return -1; }
    if ((size_t) o != VOL.n) { unit_t u; unit_add(1, (size_t) o, 0, NULL); u = U[nU - 1]; apply(&VOL, &u); }
    return (int) syscall(SYS_ftruncate, fd, o);
}
int ftruncate(int fd, off_t o) { return do_trunc(fd, o); }
int ftruncate64(int fd, off64_t o) { return do_trunc(fd, o); }
static off_t do_seek(int fd, off_t o, int w)
{
    if (track && fd == infd && fault(EV_SEEK)) { errno = EIO; return -1; }
    return syscall(SYS_lseek, fd, o, w);
}
off_t lseek(int fd, off_t o, int w) { return do_seek(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return do_seek(fd, o, w); }
static void *do_mmap(void *a, size_t n, int p, int f, int fd, off_t o)
{
    void *r;
    if (track && fd == infd && fd >= 0 && fault(EV_MMAP)) { errno = ENOMEM; return MAP_FAILED; }
    r = (void *) syscall(SYS_mmap, a, n, p, f, fd, o);
    if (track && fd == infd && fd >= 0) { mapa = r; mapn = n; }
    return r;
}
void *mmap(void *a, size_t n, int p, int f, int fd, off_t o) { return do_mmap(a, n, p, f, fd, o); }
void *mmap64(void *a, size_t n, int p, int f, int fd, off64_t o) { return do_mmap(a, n, p, f, fd, o); }
int stat(const char *p, struct stat *b)
{
    if (is_db(p) && fault(EV_STAT)) { errno = EIO; return -1; }
    return (int) syscall(SYS_newfstatat, AT_FDCWD, p, b, 0);
}
int stat64(const char *p, struct stat64 *b) { return stat(p, (struct stat *) b); }
int fstat(int fd, struct stat *b)
{
    if (track && fd == infd && fault(EV_STAT)) { errno = EIO; return -1; }
    return (int) syscall(SYS_fstat, fd, b);
}
int fstat64(int fd, struct stat64 *b) { return fstat(fd, (struct stat *) b); }
ssize_t read(int fd, void *b, size_t n)
{
    if (track && fd == infd && fault(EV_READ)) { errno = EIO; return -1; }
    return syscall(SYS_read, fd, b, n);
}

/* ---- running a history ---- */
static snap_t COM;
static void set_image(const unsigned char *b, size_t n)
{
    int fd = (int) syscall(SYS_open, TRACKED, O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || syscall(SYS_write, fd, b, n) != (long) n) mc_error("image");
    syscall(SYS_close, fd);
    memcpy(DUR.b, b, n); DUR.n = n; im_copy(&VOL, &DUR);
    units_clear();
}
static void track_new(void)
{
    snprintf(TRACKED, sizeof TRACKED, "%s/t.db", mc_dir);
    snprintf(CRASHP, sizeof CRASHP, "%s/c.db", mc_dir);
    strcpy(DBPATH, TRACKED);
    unlink(TRACKED);
    DUR.n = VOL.n = 0; units_clear(); infd = -1;
    memset(&OLD, 0, sizeof OLD); NEW = OLD; COM = OLD;
    in_commit = 0;
}
/* transactions: what they do to the store; returns the status of the commit */
#define NTX 9
static const char *TXN[NTX] = { "put(0)", "put(mid)", "put-all", "delete(mid)", "delete-all", "put(last),delete(0)", "put-half", "abort(put-all)", "delete-half" };
static apr_status_t tx_ops(int kind, int ver, napr_db_txn_t **tt)
{
    napr_db_txn_t *t = NULL;
    apr_status_t s = napr_db_txn_begin(ENV, 0, &t);
    int i;
    *tt = NULL;
    NEW = COM;
    if (s != APR_SUCCESS) return s;
    for (i = 0; i < NK && s == APR_SUCCESS; i++) {
        int put = 0, del = 0;
        napr_db_val_t k, d;
        switch (kind) {
        case 0: put = i == 0; break;
        case 1: put = i == NK / 2; break;
        case 2: case 7: put = 1; break;
        case 3: del = i == NK / 2; break;
        case 4: del = 1; break;
        case 5: put = i == NK - 1; del = i == 0; break;
        case 6: put = i & 1; break;
        default: del = i & 1; break;
        }
        if (put) { k = K(i); d = V(i, 1 + (ver + i) % 3); s = napr_db_put(t, &k, &d); if (s == APR_SUCCESS) NEW.ver[i] = 1 + (ver + i) % 3; mc_trans(1); }
        if (del && NEW.ver[i]) { k = K(i); s = napr_db_del(t, &k, NULL); if (s == APR_SUCCESS) NEW.ver[i] = 0; mc_trans(1); }
    }
    *tt = t;
    return s;
}
static void run_tx(int kind, int ver)
{
    napr_db_txn_t *t;
    apr_status_t s = tx_ops(kind, ver, &t);
    MC_CHECK(s == APR_SUCCESS, "an operation of transaction %s gives %s", TXN[kind], st(s));
    OLD = COM;
    explore("before the commit");
    if (kind == 7) { s = napr_db_txn_abort(t); MC_CHECK(s == APR_SUCCESS, "abort gives %s", st(s)); explore("after an abort"); return; }
    in_commit = 1;
    s = napr_db_txn_commit(t);
    in_commit = 0;
    MC_CHECK(s == APR_SUCCESS, "commit gives %s", st(s));
    COM = NEW; OLD = COM;
    explore("after the commit returned");
}
static int hold_from = -1, hold_to = -1;  /* a reader begun before transaction hold_from, ended before transaction hold_to */
static void d03_case(const prof_t *p, int nk, const int *seq, int len, int from, int deep)
{
    int i, j;
    napr_db_txn_t *rdr = NULL;
    PR = p; NK = nk; MAPSIZE = (big ? 3900 : hold_from >= 0 ? 300 : 90) * 4096;
    memset(seen, 0, sizeof seen); nseen = 0;
    mc_desc("%s, %d keys:", p->name, nk);
    for (i = 0; i < len; i++) mc_desc_add(" %s", TXN[seq[i]]);
    if (hold_from >= 0) mc_desc_add(", a reader from before transaction %d on", hold_from + 1);
    if (hold_to >= 0) mc_desc_add(" until before transaction %d", hold_to + 1);
    track_new();
    track = 1; explore_on = from == 0;
    env_open();
    explore("after creating the database");
    keeping = 0; light = deep && !mc_thorough;
    for (i = 0; i < len; i++) { if (i >= from) explore_on = 1; if (deep && i == len - 1) { keeping = 1; nkeep = 0; } if (i == hold_from) rdr = begin_txn(NAPR_DB_RDONLY); if (i == hold_to) { napr_db_txn_commit(rdr); rdr = NULL; } run_tx(seq[i], i); }
    keeping = 0;
    if (rdr) napr_db_txn_commit(rdr);
    env_close();
    explore("after closing");
    track = 0; explore_on = 0;
    if (deep) {                            /* a second crash, in the transaction after each recovery */
        snap_t a = NEW, b; int n = nkeep;
        keep_t *kk = KEEP;
        KEEP = NULL; nkeep = capkeep = 0;
        /* states of the last transaction */
        b = a;
        for (i = 0; i < NK; i++) (void) b.ver[i];
        for (j = 0; j < n; j++) {
            im_t *im = NULL;
            napr_db_txn_t *t;
            (void) im;
            set_image(kk[j].b, kk[j].n);
            free(kk[j].b);
            mc_desc_add(j ? "" : "; second crash after recovery");
            track = 1; explore_on = 0; light = !mc_thorough;
            env_open();
            t = begin_txn(NAPR_DB_RDONLY);
            for (i = 0; i < NK; i++) {     /* what was recovered was checked when the image was kept: take it over */
                napr_db_val_t k = K(i), d; int v;
                COM.ver[i] = 0;
                if (napr_db_get(t, &k, &d) == APR_SUCCESS) for (v = 1; v <= 3; v++) if (is_val(&d, i, v)) COM.ver[i] = v;
            }
            napr_db_txn_commit(t);
            explore_on = 1;
            run_tx(deep - 1, 1);
            env_close();
            track = 0; explore_on = 0;
        }
        free(kk);
    }
    mc_outcome(n_images);
    mc_sample("%s: %llu images so far", mc_desc_get(), (unsigned long long) n_images);
}
/* transaction numbers beyond 8 and 16 bits: every crash point of the transactions around the border */
static void d03_ids(const prof_t *p, long border)
{
    long n; int i, fd; napr_db_txn_t *t; struct stat sb; unsigned char *b;
    if (!mc_sel_weighted(border > 10000 ? 20000 : 400)) return;
    PR = p; NK = 4; MAPSIZE = 90 * 4096;
    memset(seen, 0, sizeof seen); nseen = 0;
    mc_desc("%s, 4 keys: transactions %ld to %ld", p->name, border - 5, border + 5);
    track_new();
    track = 0; explore_on = 0; light = 1;
    env_open();
    for (n = 0; n < border - 6; n++) { apr_status_t s = tx_ops((int) (n & 1), (int) n, &t); if (s == APR_SUCCESS) s = napr_db_txn_commit(t); MC_CHECK(s == APR_SUCCESS, "transaction %ld fails", n); COM = NEW; }
    env_close();
    fd = (int) syscall(SYS_open, TRACKED, O_RDONLY, 0);
    syscall(SYS_fstat, fd, &sb); b = malloc((size_t) sb.st_size + 1);
    if (syscall(SYS_read, fd, b, (size_t) sb.st_size) != (long) sb.st_size) mc_error("start image");
    syscall(SYS_close, fd);
    set_image(b, (size_t) sb.st_size);
    free(b);
    OLD = NEW = COM;
    track = 1; explore_on = 1;
    env_open();
    for (i = 0; i < 11; i++) run_tx(i % 3, i);
    env_close();
    explore("after closing");
    track = 0; explore_on = 0; light = 0;
    mc_outcome(n_images);
}
/* the record of freed pages takes several pages: n0 transactions under one reader, n1 more under a second; the first ends, and every
   crash point of the following transactions is explored */
static void d03_pile(const prof_t *p, int nk, int n0, int n1, int n2, int kind)
{
    int n, i; napr_db_txn_t *r0 = NULL, *r1 = NULL;
    if (!mc_sel_weighted(400)) return;
    PR = p; NK = nk; MAPSIZE = 16 << 20;
    memset(seen, 0, sizeof seen); nseen = 0;
    mc_desc("%s, %d keys: %d transactions under one reader, %d more under a second, the first reader ends, then %d of %s", p->name, nk, n0, n1, n2, TXN[kind]);
    track_new();
    track = 1; explore_on = 0; light = 1;
    env_open();
    run_tx(2, 0);
    for (n = 0; n < n0 + n1; n++) {
        if (n == 0) r0 = begin_txn(NAPR_DB_RDONLY);
        if (n == n0) r1 = begin_txn(NAPR_DB_RDONLY);
        run_tx(n % 5 == 4 ? 6 : n & 1, n);
    }
    napr_db_txn_commit(r0);
    explore_on = 1;
    for (i = 0; i < n2; i++) run_tx(kind, i);
    napr_db_txn_commit(r1);
    for (i = 0; i < 3; i++) run_tx(kind, i);
    env_close();
    explore("after closing");
    track = 0; explore_on = 0; light = 0;
    mc_outcome(n_images);
}
static void d03(void)
{
    static const prof_t *const PS[4] = { &P_MID, &P_LONG, &P_MIX, &P_TINY };
    int a, b, c, d, p, seq[40];
    /* all histories of two transactions; the last transaction of all histories of three and four */
    for (p = 0; p < 4; p++) for (a = 0; a < NTX; a++) for (b = 0; b < NTX; b++) {
        if (!mc_sel_weighted(200)) continue;
        seq[0] = a; seq[1] = b;
        d03_case(PS[p], p == 1 ? 9 : 6, seq, 2, 0, 0);
    }
    for (p = 0; p < 4; p++) for (a = 0; a < NTX; a++) for (b = 0; b < NTX; b++) for (c = 0; c < NTX; c++) {
        if (a == 7 || a == 3 || a == 4 || a == 8) continue;      /* nothing stored yet: same as the shorter history */
        if (!mc_sel_weighted(200)) continue;
        seq[0] = a; seq[1] = b; seq[2] = c;
        d03_case(PS[p], p == 1 ? 9 : 6, seq, 3, 2, 0);
    }
    /* after many transactions freed pages are reused: explore the 9th..14th, 30th.. */
    for (p = 0; p < 4; p++) for (a = 0; a < NTX; a++) for (b = 0; b < NTX; b++) for (d = 8; d <= (mc_thorough ? 30 : 14); d += mc_thorough ? 1 : 2) {
        if (a == 7) continue;
        if (!mc_sel_weighted(200)) continue;
        seq[0] = 2;
        for (c = 1; c < d; c++) seq[c] = (c & 1) ? a : b;
        d03_case(PS[p], p == 1 ? 9 : 6, seq, d, d - 1, 0);
    }
    /* the same while a reader keeps the freed pages from being used, and when it has just ended */
    for (p = 0; p < 4; p++) for (a = 0; a < NTX; a++) for (b = 0; b < NTX; b++) for (d = 3; d <= (mc_thorough ? 16 : 9); d += mc_thorough ? 1 : 3) for (c = 0; c < 2; c++) {
        int i;
        if (a == 7 || (d > 3 && b == 7)) continue;
        if (!mc_sel_weighted(200)) continue;
        seq[0] = 2;
        for (i = 1; i < d; i++) seq[i] = (i & 1) ? a : b;
        hold_from = 1; hold_to = c ? d - 1 : -1;
        d03_case(PS[p], p == 1 ? 9 : 6, seq, d, d - 1, 0);
        hold_from = hold_to = -1;
    }
    big = 1000000;
    for (p = 0; p < 2; p++) for (a = 2; a < NTX; a++) for (b = 1; b <= (mc_thorough ? 6 : 4); b++) {
        if (a == 3 || a == 5 || a == 7) continue;
        if (!mc_sel_weighted(2000)) continue;
        for (c = 0; c < b; c++) seq[c] = c & 1 ? 6 : 2;
        if (b == 4) { seq[2] = 4; seq[3] = 2; }
        seq[b] = a;
        big = mc_thorough ? 40 : 150; bigcalls = 0;
        d03_case(p ? &P_FULL : &P_MID, p ? 700 : 500, seq, b + 1, b, 0);
    }
    big = 0;
    for (a = 60; a <= 180; a += mc_thorough ? 20 : 60) for (b = 20; b <= 100; b += mc_thorough ? 20 : 80) { c = b & 32 ? 2 : 0; d03_pile(&P_TINY, 4, a, b, mc_thorough ? 200 : 8, c); d03_pile(&P_MID, 6, a, b, mc_thorough ? 100 : 5, c); }
    d03_ids(&P_TINY, 256); d03_ids(&P_MID, 256); d03_ids(&P_TINY, 32768); d03_ids(&P_TINY, 65536);
    /* second crash */
    for (p = 0; p < 4; p++) for (a = 0; a < NTX; a++) for (b = 0; b < NTX; b++) for (c = 0; c < (mc_thorough ? NTX : 3); c++) {
        if (a == 7 || b == 7) continue;
        if (!mc_sel_weighted(400)) continue;
        seq[0] = 2; seq[1] = 6; seq[2] = a; seq[3] = b;
        d03_case(PS[p], 4, seq, 4, 3, 1 + (mc_thorough ? c : c == 0 ? 0 : c == 1 ? 2 : 8));
    }
    if (mc_thorough)
        for (p = 0; p < 4; p++) for (a = 0; a < NTX; a++) for (b = 0; b < NTX; b++) for (c = 0; c < NTX; c++) for (d = 0; d < NTX; d++) {
            if (!mc_sel_weighted(200)) continue;
            seq[0] = 2; seq[1] = a; seq[2] = b; seq[3] = c; seq[4] = d;
            d03_case(PS[p], p == 1 ? 9 : 6, seq, 5, 4, 0);
        }
}

/* ---- D06 ---- */
static int before_or_after(const char *who, int ok)
{
    napr_db_txn_t *t = begin_txn(NAPR_DB_RDONLY);
    int r = -1;
    if (matches(t, &NEW)) r = 1;
    else if (!ok && matches(t, &COM)) r = 0;
    MC_CHECK(r >= 0, "%s: the store holds neither the state before nor the one after the failed operation%s", who, ok ? " (it reported success: the state after is required)" : "");
    check_scan(t, r ? &NEW : &COM, who);
    napr_db_txn_commit(t);
    return r;
}
static void d06_after(apr_status_t s, int open_failed, int k2)
{
    static const int CH[5] = { 0, 1, 2, 5, 6 };      /* transactions that always change something */
    int r, kind2 = CH[k2 % 5];
    apr_status_t s2;
    f1 = f2 = f_from = -1;
    if (!open_failed) {
        r = before_or_after("in the same process", s == APR_SUCCESS);
        if (s == APR_SUCCESS) { OLD = NEW; in_commit = 0; } else { OLD = COM; in_commit = 1; }
        explore_on = 1; explore("after the operation returned"); explore_on = 0;
        if (r) COM = NEW;
        /* later transactions work, crash-safe too */
        OLD = COM;
        { napr_db_txn_t *t; s2 = tx_ops(kind2, 7, &t); MC_CHECK(s2 == APR_SUCCESS, "an operation of the next transaction gives %s", st(s2));
          in_commit = 1; explore_on = 1; s2 = napr_db_txn_commit(t); in_commit = 0; MC_CHECK(s2 == APR_SUCCESS, "the next commit gives %s", st(s2));
          COM = NEW; OLD = COM; explore("after the next commit"); explore_on = 0; }
        before_or_after("after the next transaction", 1);
        env_close();
    } else if (ENV) { apr_pool_destroy(EP); ENV = NULL; }
    NEW = COM;
    env_open();
    before_or_after("after reopening", 1);
    { napr_db_txn_t *t; s2 = tx_ops(0, 5, &t); if (s2 == APR_SUCCESS) s2 = napr_db_txn_commit(t); MC_CHECK(s2 == APR_SUCCESS, "a transaction after reopening gives %s", st(s2)); COM = NEW; }
    env_close();
    env_open();
    before_or_after("after reopening again", 1);
    env_close();
    track = 0;
    mc_eval(1); mc_trace(1);
}
static unsigned char *START; static size_t nSTART; static snap_t START_COM;
static void d06_start(const prof_t *p, int nk, const int *seq, int len)
{
    int i, fd;
    struct stat sb;
    PR = p; NK = nk; MAPSIZE = (big ? 3900 : 90) * 4096;
    explore_on = 0; keeping = 0; f1 = f2 = f_from = -1;
    track_new();
    track = 1;
    env_open();
    for (i = 0; i < len; i++) run_tx(seq[i], i);
    env_close();
    track = 0;
    fd = (int) syscall(SYS_open, TRACKED, O_RDONLY, 0);
    syscall(SYS_fstat, fd, &sb);
    free(START); nSTART = (size_t) sb.st_size; START = malloc(nSTART + 1);
    if (syscall(SYS_read, fd, START, nSTART) != (long) nSTART) mc_error("start image");
    syscall(SYS_close, fd);
    START_COM = COM;
}
static apr_status_t d06_run(int kind, int a, int b, int var, int from)
{
    napr_db_txn_t *t;
    apr_status_t s;
    memset(seen, 0, sizeof seen); nseen = 0;
    set_image(START, nSTART); COM = START_COM;
    track = 1; explore_on = 0;
    env_open();
    s = tx_ops(kind, 3, &t);
    if (s != APR_SUCCESS) mc_fail(NULL, "an operation gives %s without any fault", st(s));
    OLD = COM;
    ev = 0; fired = 0; f1 = a; f2 = b; fvar = var; f_from = from;
    in_commit = 1;
    s = napr_db_txn_commit(t);
    in_commit = 0;
    return s;
}
/* one failing commit after the other: the second (and third) also fails, at every operation, before one succeeds */
static apr_status_t d06_again(apr_status_t s, int kind, int ver, int a, int from)
{
    napr_db_txn_t *t;
    int r;
    f1 = f2 = f_from = -1;
    r = before_or_after("in the same process", s == APR_SUCCESS);
    if (s == APR_SUCCESS) { OLD = NEW; in_commit = 0; } else { OLD = COM; in_commit = 1; }
    explore_on = 1; explore("after the operation returned"); explore_on = 0;
    if (r) COM = NEW;
    OLD = COM;
    s = tx_ops(kind, ver, &t);
    MC_CHECK(s == APR_SUCCESS, "an operation of the next transaction gives %s", st(s));
    ev = 0; fired = 0; f1 = from ? -1 : a; f2 = -1; fvar = 0; f_from = from ? a : -1;
    in_commit = 1;
    s = napr_db_txn_commit(t);
    in_commit = 0;
    return s;
}
static void d06_repeat(const prof_t *p, int nk, const int *seq, int len, int kind)
{
    static int kinds[8192];
    int n, i, j, m, q, a, b, end2, end3;
    apr_status_t s;
    d06_start(p, nk, seq, len);
    s = d06_run(kind, -1, -1, 0, -1);
    n = ev;
    MC_CHECK(s == APR_SUCCESS, "commit gives %s without any fault", st(s));
    env_close(); track = 0;
    memcpy(kinds, ev_kind, sizeof kinds);
    for (i = 0; i < n; i++) for (m = 0; m < 4; m++) {
        if (!mc_sel()) continue;
        for (end2 = 0, j = 0; j == 0 || j < end2; j++) for (end3 = 0, q = -1; q < end3; q++) {
            mc_desc("%s, %d keys, start of %d transactions: commit of %s with operation %d (%s)%s failing, next commit with operation %d%s failing", p->name, nk, len, TXN[kind], i, EVN[kinds[i]], m & 1 ? " and all later ones" : "", j, m & 2 ? " and all later ones" : "");
            if (q >= 0) mc_desc_add(", the next one with operation %d failing", q);
            s = d06_run(kind, m & 1 ? -1 : i, -1, 0, m & 1 ? i : -1);
            if (m & 1) MC_CHECK(s != APR_SUCCESS, "commit reports success although every file operation failed from the %dth on", i);
            a = kind == 2 ? 6 : 2;
            s = d06_again(s, a, 4, j, m & 2);
            if (ev > end2) end2 = ev;
            if (fired && (m & 2)) MC_CHECK(s != APR_SUCCESS, "the second commit reports success although every file operation failed from the %dth on", j);
            if (q >= 0) {
                b = a == 2 ? 0 : 2;
                s = d06_again(s, b, 5, q, 0);
            }
            end3 = m == 3 || mc_thorough ? 3 : 0;
            mc_outcome(mc_hash(&s, sizeof s, (uint64_t) (i * 100 + j)));
            d06_after(s, 0, i + j);
        }
    }
}
/* transactions of hundreds of pages */
static void d06_big(const prof_t *p, int nk, int kind, int earlier)
{
    static int kinds[8192];
    int n, i, v, seq[8]; apr_status_t s;
    if (!mc_sel_weighted(3000)) return;
    big = 100000000; bigcalls = 1;
    for (i = 0; i < earlier; i++) seq[i] = i & 1 ? 6 : 2;
    d06_start(p, nk, seq, earlier);
    s = d06_run(kind, -1, -1, 0, -1);
    n = ev;
    MC_CHECK(s == APR_SUCCESS, "commit gives %s without any fault", st(s));
    env_close(); track = 0;
    memcpy(kinds, ev_kind, sizeof ev_kind);
    for (i = 0; i < n; i++) for (v = 0; v < 4; v++) {
        if (i > 2 && i < n - 5 && i % (n / 8 + 1)) continue;
        if (v && v < 3 && kinds[i] != EV_WRITE) continue;
        mc_desc("%s, %d keys, after %d transactions: commit of %s with operation %d of %d (%s) %s", p->name, nk, earlier, TXN[kind], i, n, EVN[kinds[i]], v == 0 ? "failing" : v == 1 ? "half done, then failing" : v == 2 ? "short" : "and all later ones failing");
        s = d06_run(kind, v == 3 ? -1 : i, -1, v, v == 3 ? i : -1);
        if (v == 3) MC_CHECK(s != APR_SUCCESS, "commit reports success although every file operation failed from the %dth on", i);
        mc_outcome(mc_hash(&s, sizeof s, (uint64_t) (i * 100 + v)));
        d06_after(s, 0, i);
    }
    big = 0;
}
static void d06_txn(const prof_t *p, int nk, const int *seq, int len, int kind, int pairs)
{
    static int kinds[8192];
    int n, i, j, v;
    apr_status_t s;
    d06_start(p, nk, seq, len);
    s = d06_run(kind, -1, -1, 0, -1);
    n = ev;
    MC_CHECK(s == APR_SUCCESS, "commit gives %s without any fault", st(s));
    env_close(); track = 0;
    memcpy(kinds, ev_kind, sizeof kinds);
    for (i = 0; i < n; i++) for (v = 0; v < 3; v++) {
        int reached = 0;
        if (v && kinds[i] != EV_WRITE) continue;
        if (!mc_sel()) continue;
        for (j = i; j == i || (pairs && v == 0 && j < reached); j++) {      /* second fault: every operation reached after the first */
            int q;
            mc_desc("%s, %d keys, after", p->name, nk);
            for (q = 0; q < len; q++) mc_desc_add(" %s", TXN[seq[q]]);
            mc_desc_add(": commit of %s with operation %d (%s) %s", TXN[kind], i, EVN[kinds[i]], v == 0 ? "failing" : v == 1 ? "half done, then failing" : "short");
            if (j > i) mc_desc_add(" and operation %d failing", j);
            s = d06_run(kind, i, j > i ? j : -1, v, -1);
            if (j == i) reached = ev;
            if (fired == 0) mc_error("fault not reached");
            mc_outcome(mc_hash(&s, sizeof s, (uint64_t) (i * 100 + v)));
            d06_after(s, 0, i + j);
        }
    }
    for (i = 0; i < n; i++) {                      /* everything fails from operation i on */
        if (!mc_sel()) continue;
        mc_desc("%s, %d keys, start of %d transactions: commit of %s with every operation failing from %d on", p->name, nk, len, TXN[kind], i);
        s = d06_run(kind, -1, -1, 0, i);
        MC_CHECK(s != APR_SUCCESS, "commit reports success although every file operation failed from the %dth on", i);
        d06_after(s, 0, i % 7);
    }
}
/* failures while opening: an existing or a new database */
static void d06_open(const prof_t *p, int nk, const int *seq, int len)
{
    int n, i, j, v, nw;
    apr_status_t s;
    d06_start(p, nk, seq, len);
    for (nw = 0; nw < 2; nw++) {
        for (n = -1, i = -1; i < 30 && (n < 0 || i < n); i++) for (v = 0; v < 3; v++) for (j = -1; j < 16; j++) {
            if (i < 0 && (v || j >= 0)) continue;
            if (j >= 0 && (j <= i || v)) continue;
            if (i >= 0 && v && ev_kind[i] != EV_WRITE) continue;
            if (i >= 0 && !mc_sel()) continue;
            if (i >= 0) mc_desc("%s, %s database: open with operation %d (%s) %s, second fault %d", p->name, nw ? "new" : "existing", i, EVN[ev_kind[i]], v == 0 ? "failing" : v == 1 ? "half done, then failing" : "short", j);
            memset(seen, 0, sizeof seen); nseen = 0;
            if (nw) { track_new(); } else { set_image(START, nSTART); COM = START_COM; }
            track = 1; explore_on = 0;
            ev = 0; fired = 0; f1 = i; f2 = j; fvar = v;
            s = env_open_st(NAPR_DB_CREATE);
            f1 = f2 = -1;
            if (i < 0) { n = ev; MC_CHECK(s == APR_SUCCESS, "open gives %s without any fault", st(s)); env_close(); track = 0; continue; }
            NEW = COM;
            OLD = COM; in_commit = 0;
            if (v == 2) MC_CHECK(s == APR_SUCCESS || fired == 0 || 1, "x");
            d06_after(s, s != APR_SUCCESS, i % 7);
        }
    }
}
static void d06(void)
{
    static const prof_t *const PS[4] = { &P_MID, &P_LONG, &P_MIX, &P_TINY };
    int p, k, seq[24], i;
    for (p = 0; p < 4; p++) {
        int nk = p == 1 ? 9 : 6;
        seq[0] = 2; seq[1] = 6; seq[2] = 0;
        d06_open(PS[p], nk, seq, 3);
        for (k = 0; k < NTX; k++) {
            if (k == 7) continue;
            if (k != 3 && k != 4 && k != 8) d06_txn(PS[p], nk, seq, 0, k, 1);   /* first transaction of a new database */
            if (k != 5 || 1) { seq[0] = 2; d06_txn(PS[p], nk, seq, 1, k, 1); }
            seq[0] = 2; seq[1] = 6; seq[2] = 0; d06_txn(PS[p], nk, seq, 3, k, 1);
            for (i = 0; i < 14; i++) seq[i] = i == 0 ? 2 : i % 3 == 1 ? 6 : 0;
            d06_txn(PS[p], nk, seq, 14, k, 1);
        }
    }
    for (p = 0; p < 4; p++) {
        if ((p == 1 || p == 2) && !mc_thorough) continue;
        for (i = 0; i < 3; i++) for (k = 0; k < (mc_thorough ? 7 : 3); k += k == 0 || mc_thorough ? 2 : 1) {
            int q, l = i == 0 ? 0 : i == 1 ? 3 : 9;
            if (k == 4) continue;
            for (q = 0; q < l; q++) seq[q] = q == 0 ? 2 : q % 3 == 1 ? 6 : 0;
            d06_repeat(PS[p], p == 1 ? 9 : 6, seq, l, k);
        }
    }
    for (p = 0; p < 2; p++) for (k = 2; k < NTX; k++) for (i = 0; i < (mc_thorough ? 4 : 3); i++) if (k == 2 || k == 4 || k == 8) if (i || k == 2) d06_big(p ? &P_FULL : &P_MID, p ? 550 : 300, k, i);
}

static void worker(void)
{
    apr_initialize();
    mc_watch(90);
    if (mc_is("D03")) d03(); else { light = 1; d06(); }
}
int main(int argc, char **argv) { mc_init(argc, argv); return mc_run(worker); }
