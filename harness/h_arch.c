/* F11: extraction of archive members by the real ft_archive_untar_file from archives written by libarchive: all small
 * archives over an alphabet of names, sizes, formats and compressions; archives cut at every byte and with every header
 * byte damaged; every file operation of an extraction failing. */
#define _GNU_SOURCE
#include "mc.h"
#include <apr_general.h>
#include <apr_pools.h>
#include <archive.h>
#include <archive_entry.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
#include "ft_archive.h"

/* ---- what the child does, seen by the parent ---- */
typedef struct
{
    int nev, hit, ncr;
    char created[32][300];
    int ok, umask_after, fds_before, fds_after, readable;
    char result[300];
} run_t;
static run_t *R;
static int armed, f_at = -1, f_err, f_short, f_persist;
static char fdp[256];           /* descriptors of tracked files: 1 archive, 2 created */
static const char *arch_path;

static int event(void)
{
    int n = R->nev++;
    if (n == f_at || (f_persist && f_at >= 0 && n > f_at)) { R->hit = 1; return f_err; }
    return 0;
}
static void note_created(const char *p)
{
    int i;
    for (i = 0; i < R->ncr && i < 32; i++) if (!strcmp(R->created[i], p)) return;
    if (R->ncr < 32) snprintf(R->created[R->ncr], 300, "%s", p);
    R->ncr++;
}
static int real_open(int d, const char *p, int fl, int mode) { return (int) syscall(SYS_openat, d, p, fl, mode); }
static int my_open(int d, const char *p, int fl, int mode)
{
    int fd, tr = 0;
    if (armed && p) {
        if (fl & O_CREAT) tr = 2;
        else if (!strcmp(p, arch_path)) tr = 1;
        if (tr) {
            int e = event();
            if (e) { errno = e; return -1; }
        }
    }
    fd = real_open(d, p, fl, mode);
    if (fd >= 0 && fd < 256) fdp[fd] = (char) tr;
    if (fd >= 0 && tr == 2) note_created(p);
    return fd;
}
#define VA_MODE int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
int open(const char *p, int flags, ...) { VA_MODE return my_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { VA_MODE return my_open(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { VA_MODE return my_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { VA_MODE return my_open(d, p, flags, mode); }
static int my_mkstemp(char *tpl, int suffix, int flags)
{
    static int n;
    size_t l = strlen(tpl);
    int k, fd = -1;
    for (k = 0; k < 1000; k++) {
        char c[8];
        snprintf(c, sizeof c, "%06x", ((unsigned) getpid() * 64 + (unsigned) n++) & 0xffffff);
        memcpy(tpl + l - 6 - suffix, c, 6);
        fd = my_open(AT_FDCWD, tpl, O_RDWR | O_CREAT | O_EXCL | flags, 0600);
        if (fd >= 0 || errno != EEXIST) return fd;
    }
    return fd;
}
int mkstemp(char *t) { return my_mkstemp(t, 0, 0); }
int mkstemp64(char *t) { return my_mkstemp(t, 0, 0); }
int mkostemp(char *t, int f) { return my_mkstemp(t, 0, f); }
int mkstemps(char *t, int s) { return my_mkstemp(t, s, 0); }
#define TR(fd) (armed && (fd) >= 0 && (fd) < 256 && fdp[fd])
ssize_t read(int fd, void *b, size_t n)
{
    if (TR(fd)) { int e = event(); if (e) { errno = e; return -1; } if (f_short && n > (size_t) f_short) n = (size_t) f_short; }
    return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n)
{
    if (TR(fd)) { int e = event(); if (e) { errno = e; return -1; } if (f_short && n > (size_t) f_short) n = (size_t) f_short; }
    return syscall(SYS_write, fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{
    if (TR(fd)) { int e = event(); if (e) { errno = e; return -1; } if (f_short && n > (size_t) f_short) n = (size_t) f_short; }
    return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
int ftruncate(int fd, off_t n) { if (TR(fd)) { int e = event(); if (e) { errno = e; return -1; } } return (int) syscall(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int close(int fd)
{
    int e = TR(fd) ? event() : 0;
    if (fd >= 0 && fd < 256) fdp[fd] = 0;
    if (syscall(SYS_close, fd)) return -1;
    if (e) { errno = e; return -1; }
    return 0;
}
static int count_fds(void)
{
    int i, n = 0;
    for (i = 0; i < 256; i++) if (fcntl(i, F_GETFD) >= 0) n++;
    return n;
}
int symlink(const char *t, const char *p) { if (armed) note_created(p); return (int) syscall(SYS_symlinkat, t, AT_FDCWD, p); }
int symlinkat(const char *t, int d, const char *p) { if (armed) note_created(p); return (int) syscall(SYS_symlinkat, t, d, p); }
int link(const char *t, const char *p) { if (armed) note_created(p); return (int) syscall(SYS_linkat, AT_FDCWD, t, AT_FDCWD, p, 0); }
int linkat(int d, const char *t, int d2, const char *p, int f) { if (armed) note_created(p); return (int) syscall(SYS_linkat, d, t, d2, p, f); }
int mkdir(const char *p, mode_t m) { if (armed) note_created(p); return (int) syscall(SYS_mkdirat, AT_FDCWD, p, m); }
int mkfifo(const char *p, mode_t m) { if (armed) { note_created(p); errno = EPERM; return -1; } return (int) syscall(SYS_mknodat, AT_FDCWD, p, S_IFIFO | m, 0); }
int mknod(const char *p, mode_t m, dev_t d) { if (armed) { note_created(p); errno = EPERM; return -1; } return (int) syscall(SYS_mknodat, AT_FDCWD, p, m, d); }

/* ---- archives ---- */
#define NBIG 9500000
static unsigned char *bytes;
typedef struct { const char *name; size_t size; int seed, type, perm; const char *target; int hole; } memb_t;   /* type 0: regular */
static const char *const fmts[] = { "ustar", "pax", "gnutar", "v7tar" };
static const char *const filts[] = { "none", "gzip", "bzip2", "xz", "zstd", "compress" };
static const unsigned char *content(const memb_t *m) { return bytes + m->seed * 37; }
static int expect(const memb_t *m, const unsigned char *got, size_t n)
{
    size_t i;
    if (n != m->size) return 0;
    if (!m->hole) return !memcmp(got, content(m), n);
    /* data in the first and third quarter, holes elsewhere */
    for (i = 0; i < n; i++) { size_t q = i / (m->size / 4); if (got[i] != ((q == 0 || q == 2) ? content(m)[i] : 0)) return 0; }
    return 1;
}
static void write_archive(const char *path, const memb_t *m, int n, int fmt, int filt)
{
    struct archive *a = archive_write_new();
    int i;
    if (fmt == 0) archive_write_set_format_ustar(a);
    else if (fmt == 1) archive_write_set_format_pax(a);
    else if (fmt == 2) archive_write_set_format_gnutar(a);
    else archive_write_set_format_v7tar(a);
    switch (filt) {
    case 1: archive_write_add_filter_gzip(a); break;
    case 2: archive_write_add_filter_bzip2(a); break;
    case 3: archive_write_add_filter_xz(a); break;
    case 4: archive_write_add_filter_zstd(a); break;
    case 5: archive_write_add_filter_compress(a); break;
    }
    if (archive_write_open_filename(a, path)) mc_error("archive: %s", archive_error_string(a));
    for (i = 0; i < n; i++) {
        struct archive_entry *e = archive_entry_new();
        archive_entry_copy_pathname(e, m[i].name);
        archive_entry_set_filetype(e, m[i].type ? (unsigned) m[i].type : AE_IFREG);
        archive_entry_set_perm(e, (mode_t) m[i].perm);
        archive_entry_set_mtime(e, 1000000000 + i, 0);
        if (m[i].type == AE_IFLNK) archive_entry_copy_symlink(e, m[i].target);
        else if (m[i].target) archive_entry_copy_hardlink(e, m[i].target);
        if (m[i].type == AE_IFCHR) { archive_entry_set_rdevmajor(e, 1); archive_entry_set_rdevminor(e, 3); }
        if (!m[i].type && !m[i].target) {
            archive_entry_set_size(e, (la_int64_t) m[i].size);
            if (m[i].hole) {
                size_t q = m[i].size / 4;
                archive_entry_sparse_add_entry(e, 0, (la_int64_t) q);
                archive_entry_sparse_add_entry(e, (la_int64_t) (2 * q), (la_int64_t) q);
            }
        }
        if (archive_write_header(a, e) < ARCHIVE_WARN) mc_error("archive header: %s", archive_error_string(a));
        if (!m[i].type && !m[i].target && m[i].size && archive_write_data(a, content(&m[i]), m[i].size) < 0) mc_error("archive data: %s", archive_error_string(a));
        archive_entry_free(e);
    }
    if (archive_write_close(a)) mc_error("archive close: %s", archive_error_string(a));
    archive_write_free(a);
}
static size_t slurp(const char *path, unsigned char *b, size_t cap)
{
    int fd = real_open(AT_FDCWD, path, O_RDONLY, 0);
    size_t n = 0;
    ssize_t r;
    if (fd < 0) mc_error("cannot read %s", path);
    while ((r = syscall(SYS_read, fd, b + n, cap - n)) > 0) n += (size_t) r;
    syscall(SYS_close, fd);
    return n;
}
static void spew(const char *path, const unsigned char *b, size_t n)
{
    int fd = real_open(AT_FDCWD, path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || syscall(SYS_write, fd, b, n) != (long) n) mc_error("cannot write %s", path);
    syscall(SYS_close, fd);
}
static int count_here(void)
{
    DIR *d = opendir(".");
    int n = 0;
    if (!d) mc_error("opendir");
    while (readdir(d)) n++;
    closedir(d);
    return n;
}

/* extract `name` from `path`; want: the member, or NULL when it must fail; lax: an error is fine as well */
static unsigned t_uid;
static mode_t t_umask = 022;
static void extract(const char *path, const char *name, const memb_t *want, int lax)
{
    static unsigned char got[NBIG * 2];
    int st, i, here;
    pid_t p;
    struct stat sb;
    memset(R, 0, sizeof *R);
    here = count_here();
    arch_path = path;
    fflush(NULL);
    p = fork();
    if (p < 0) mc_error("fork");
    if (p == 0) {
        apr_pool_t *pool;
        ft_file_t *f;
        char *r;
        int nul = real_open(AT_FDCWD, "/dev/null", O_WRONLY, 0);
        dup2(nul, 2); syscall(SYS_close, nul);
        umask(t_umask);
        if (t_uid && (setgroups(0, NULL) || setgid(t_uid) || setuid(t_uid))) _exit(98);
        apr_initialize();
        apr_pool_create(&pool, NULL);
        f = apr_pcalloc(pool, sizeof *f);
        f->path = (char *) path; f->subpath = (char *) name;
        R->fds_before = count_fds();
        armed = 1;
        r = ft_archive_untar_file(f, pool);
        armed = 0;
        R->fds_after = count_fds();
        R->umask_after = (int) umask(0);
        R->ok = r != NULL;
        if (r) { snprintf(R->result, sizeof R->result, "%s", r); R->readable = !access(r, R_OK); }
        _exit(0);
    }
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    mc_eval(1);
    mc_trans((uint64_t) R->nev + 1);
    mc_trace(1);
    if (WIFSIGNALED(st)) mc_fail(NULL, "asking for \"%s\": the process died with signal %d", name, WTERMSIG(st));
    if (WEXITSTATUS(st)) mc_fail(NULL, "asking for \"%s\": the process ended with status %d", name, WEXITSTATUS(st));
    if (R->umask_after != (int) t_umask) mc_fail(NULL, "asking for \"%s\": the file creation mask was left at %03o instead of %03o", name, R->umask_after, (int) t_umask);
    if (R->fds_after != R->fds_before) mc_fail(NULL, "asking for \"%s\": %d descriptors left open", name, R->fds_after - R->fds_before);
    if (R->ok) {
        size_t n;
        if (!want) { unlink(R->result); mc_fail(NULL, "asking for \"%s\", which cannot be extracted, gave a file", name); return; }
        if (lstat(R->result, &sb) || !S_ISREG(sb.st_mode)) { mc_fail(NULL, "asking for \"%s\" gave no regular file", name); return; }
        if (!R->readable) { unlink(R->result); mc_fail(NULL, "asking for \"%s\" gave a file the caller cannot read", name); }
        if (sb.st_mode & 077) { unlink(R->result); mc_fail(NULL, "asking for \"%s\" gave a temporary file others can access (mode %03o)", name, (int) sb.st_mode & 0777); }
        n = slurp(R->result, got, sizeof got);
        unlink(R->result);
        if (!expect(want, got, n)) mc_fail(NULL, "asking for \"%s\" (%zu bytes) gave other contents (%zu bytes)", name, want->size, n);
    }
    else if (want && !lax && !R->hit) mc_fail(NULL, "asking for \"%s\", an intact member, gave an error", name);
    for (i = 0; i < R->ncr && i < 32; i++)
        if (!lstat(R->created[i], &sb)) {
            if (S_ISDIR(sb.st_mode)) rmdir(R->created[i]); else unlink(R->created[i]);
            mc_fail(NULL, "asking for \"%s\": temporary file %s left behind", name, R->ok ? "other than the result" : "of a failed extraction");
        }
    if (count_here() != here) mc_fail(NULL, "asking for \"%s\": something was created in the current directory", name);
    mc_outcome(mc_hash(name, strlen(name), (uint64_t) R->ok * 2 + (want ? want->size * 8 : 4)));
}
static char longname[3][400];
static void names_init(void)
{
    int i;
    memset(longname[0], 'n', 99); memset(longname[1], 'n', 100);
    for (i = 0; i < 200; i++) longname[2][i] = i % 50 == 49 ? '/' : 'p';
    longname[2][200] = 'q';
}
static void desc_members(const memb_t *m, int n, int fmt, int filt)
{
    int i;
    mc_desc("%s %s:", fmts[fmt], filts[filt]);
    for (i = 0; i < n; i++) mc_desc_add(" %.60s(%zu,type %o)", m[i].name, m[i].size, m[i].type);
    mc_desc_add(";");
}
static void fam_members(void)
{
    static const size_t sizes[] = { 0, 1, 511, 512, 513, 10240, 10241, 70000 };
    const char *const names[] = { "a", "b", "d/a", "a.txt", "./a", "ab", longname[0], longname[1], longname[2], "a b", "\xc3\xa9", "d/\xff" };
    int n, fmt, filt, i, j, k, x, y, z;
    for (n = 1; n <= 3; n++) for (fmt = 0; fmt < 4; fmt++) for (filt = 0; filt < 6; filt++)
        for (x = 0; x < 8; x++) for (y = 0; y < (n > 1 ? 8 : 1); y++) for (z = 0; z < (n > 2 ? 8 : 1); z++) {
            memb_t m[3] = { 0 };
            if (!mc_thorough && n == 3 && (filt > 1 || fmt > 1 || (x + y + z + fmt + filt) % 3)) continue;
            if (!mc_thorough && n == 2 && (x + y + fmt + filt) % 2) continue;
            if (!mc_sel()) continue;
            for (i = 0; i < n; i++) {
                m[i].size = sizes[i == 0 ? x : i == 1 ? y : z];
                m[i].seed = i;
                m[i].perm = i == 1 ? 0755 : 0644;
                m[i].name = names[i == 1 && x == y ? 2 : i == 2 ? 3 : i];
            }
            write_archive("x.tar", m, n, fmt, filt);
            for (i = 0; i < n; i++) { desc_members(m, n, fmt, filt); extract("x.tar", m[i].name, &m[i], 0); }
            desc_members(m, n, fmt, filt);
            extract("x.tar", "a.tx", NULL, 0);
            extract("x.tar", "", NULL, 0);
            extract("x.tar", "c", NULL, 0);
            mc_state(mc_hash(m, sizeof m[0] * 0 + 0, (uint64_t) (x * 64 + y * 8 + z) * 97 + (uint64_t) (fmt * 6 + filt)));
        }
    /* names: every ordered pair */
    for (fmt = 0; fmt < 4; fmt++) for (i = 0; i < 12; i++) for (j = 0; j < 12; j++) {
        memb_t m[2] = { 0 };
        if (i == j) continue;
        if (fmt == 3 && (strlen(names[i]) > 99 || strlen(names[j]) > 99)) continue;
        if (!mc_sel()) continue;
        m[0].name = names[i]; m[1].name = names[j];
        m[0].size = 5; m[1].size = 6; m[1].seed = 3; m[0].perm = m[1].perm = 0644;
        write_archive("x.tar", m, 2, fmt, 0);
        for (k = 0; k < 12; k++) {
            const memb_t *w = k == i ? &m[0] : k == j ? &m[1] : NULL;
            /* the name of a member that the archive format stores in the local character set is left open */
            int lax = fmt == 1 && w && (unsigned char) w->name[strlen(w->name) - 1] >= 0x80;
            desc_members(m, 2, fmt, 0);
            extract("x.tar", names[k], w, lax);
        }
        mc_state((uint64_t) (fmt * 1000 + i * 20 + j));
    }
}
/* names that agree in their first l characters and differ in the next one, or end there */
static void fam_prefix(void)
{
    static const int ls[] = { 8, 15, 16, 31, 32, 63, 64, 98, 99, 100, 101, 119, 120, 127, 128, 150, 199, 200, 254, 255, 256, 300, 400, 511, 512, 700, 1000 };
    int q, fmt, ord, i, k, c;
    for (q = 0; q < (int) (sizeof ls / sizeof *ls); q++) for (fmt = 1; fmt < 3; fmt++) for (ord = 0; ord < 4; ord++) {
        static char nm[4][1100];
        memb_t m[4] = { 0 };
        int l = ls[q];
        if (!mc_sel()) continue;
        for (k = 0; k < 4; k++) {
            for (c = 0; c < l; c++) nm[k][c] = c % 40 == 39 && c < l - 1 ? '/' : (char) ('a' + c % 24);
            strcpy(nm[k] + l, k == 0 ? "x" : k == 1 ? "y" : k == 2 ? "xx" : "x.y");
        }
        for (i = 0; i < 3; i++) { m[i].name = nm[(i + ord) % 4]; m[i].size = (size_t) (5 + i); m[i].seed = i; m[i].perm = 0644; }
        write_archive("x.tar", m, 3, fmt, 0);
        for (k = 0; k < 4; k++) {
            const memb_t *w = NULL;
            for (i = 0; i < 3; i++) if (!strcmp(m[i].name, nm[k])) w = &m[i];
            mc_desc("%s: 3 members whose names agree in %d characters;", fmts[fmt], l);
            extract("x.tar", nm[k], w, 0);
        }
        nm[0][l] = 0;
        extract("x.tar", nm[0], NULL, 0);
        mc_state((uint64_t) (l * 100 + fmt * 10 + ord));
    }
}
/* large members, and one behind very many others */
static void fam_large(void)
{
    static const size_t sizes[] = { 131071, 131072, 200000, 1048575, 1048577, 4194304, 9400001 };
    static const int many[] = { 1, 40, 255, 256, 300 };
    int q, filt, i;
    for (q = 0; q < 7; q++) for (filt = 0; filt < 6; filt++) {
        memb_t m[3] = { 0 };
        if (!mc_sel()) continue;
        for (i = 0; i < 3; i++) { m[i].name = i == 0 ? "first" : i == 1 ? "large" : "last"; m[i].size = i == 1 ? sizes[q] : 700; m[i].seed = i; m[i].perm = 0644; }
        write_archive("x.tar", m, 3, 1, filt);
        for (i = 0; i < 3; i++) { desc_members(m, 3, 1, filt); extract("x.tar", m[i].name, &m[i], 0); }
        mc_state(sizes[q] * 7 + (size_t) filt);
    }
    for (q = 0; q < 5; q++) for (filt = 0; filt < 2; filt++) {
        static memb_t m[301];
        static char nm[301][20];
        if (!mc_sel()) continue;
        memset(m, 0, sizeof m);
        for (i = 0; i <= many[q]; i++) { snprintf(nm[i], 20, "m%03d", i); m[i].name = nm[i]; m[i].size = (size_t) (i * 7 % 600); m[i].seed = i; m[i].perm = 0644; }
        write_archive("x.tar", m, many[q] + 1, 1, filt);
        for (i = 0; i <= many[q]; i += many[q] / 4 + 1) { mc_desc("%d members;", many[q] + 1); extract("x.tar", nm[i], &m[i], 0); }
        mc_desc("%d members;", many[q] + 1);
        extract("x.tar", nm[many[q]], &m[many[q]], 0);
        extract("x.tar", "m999", NULL, 0);
    }
}
static void fam_types(void)
{
    int ty, pos, fmt, i, nty = 6;
    static const int types[] = { AE_IFDIR, AE_IFLNK, 0, AE_IFIFO, AE_IFCHR, AE_IFLNK };
    for (ty = 0; ty < nty; ty++) for (pos = 0; pos < 3; pos++) for (fmt = 0; fmt < (types[ty] == AE_IFIFO || types[ty] == AE_IFCHR ? 3 : 4); fmt++) {
        memb_t m[3] = { 0 };
        if (!mc_sel()) continue;
        for (i = 0; i < 3; i++) { m[i].name = i == 0 ? "a" : i == 1 ? "b" : "c"; m[i].size = 10 + (size_t) i; m[i].seed = i; m[i].perm = 0644; }
        m[pos].type = types[ty]; m[pos].name = ty == 0 ? "s/" : "s"; m[pos].perm = 0755;
        if (ty == 1) m[pos].target = "victim";
        if (ty == 2) m[pos].target = "victim";
        if (ty == 5) m[pos].target = "nowhere";
        spew("victim", (const unsigned char *) "secret", 6);
        write_archive("x.tar", m, 3, fmt, 0);
        for (i = 0; i < 3; i++) {
            desc_members(m, 3, fmt, 0);
            extract("x.tar", m[i].name, i == pos ? NULL : &m[i], 0);
        }
        mc_state((uint64_t) (ty * 100 + pos * 10 + fmt));
    }
    /* modes of the member, as root and as somebody else, under several masks */
    for (i = 0; i < 512; i += mc_thorough ? 1 : 7) for (ty = 0; ty < 2; ty++) for (pos = 0; pos < 4; pos++) {
        memb_t m = { "a", 600, 1, 0, i, NULL, 0 };
        if (!mc_sel()) continue;
        t_umask = pos == 0 ? 022 : pos == 1 ? 0 : pos == 2 ? 077 : 002;
        t_uid = ty ? 65534 : 0;
        write_archive("x.tar", &m, 1, 0, 0);
        chmod("x.tar", 0644);
        mc_desc("member of mode %03o, mask %03o, user %u;", i, (int) t_umask, t_uid);
        extract("x.tar", "a", &m, 0);
        t_umask = 022; t_uid = 0;
    }
    /* holes */
    for (i = 0; i < 6; i++) for (ty = 0; ty < 6; ty++) {
        memb_t m[2] = { { "h", (size_t) 4 << (2 * i + 2), 1, 0, 0644, NULL, 1 }, { "b", 9, 2, 0, 0644, NULL, 0 } };
        if (!mc_sel()) continue;
        write_archive("x.tar", m, 2, 1, ty);
        desc_members(m, 2, 1, ty);
        mc_desc_add(" holes");
        extract("x.tar", "h", &m[0], 0);
        extract("x.tar", "b", &m[1], 0);
    }
    /* not archives */
    for (i = 0; i < 40; i++) {
        if (!mc_sel()) continue;
        spew("x.tar", i & 1 ? bytes : (const unsigned char *) calloc(1, 20000), (size_t) (i / 2) * (i < 20 ? 1 : 512));
        mc_desc("not an archive, %d bytes;", (i / 2) * (i < 20 ? 1 : 512));
        extract("x.tar", "a", NULL, 0);
        extract("missing.tar", "a", NULL, 0);
        extract(".", "a", NULL, 0);
    }
}
static const memb_t CUT[3] = { { "a", 700, 1, 0, 0644, NULL, 0 }, { "d/b", 3, 2, 0, 0644, NULL, 0 }, { "c", 1500, 3, 0, 0644, NULL, 0 } };
static void fam_cut(void)
{
    static unsigned char full[40000], part[40000];
    int fmt, filt, w;
    size_t n, k, b;
    for (fmt = 0; fmt < 4; fmt++) for (filt = 0; filt < 6; filt++) {
        if (!mc_thorough && filt && fmt) continue;
        for (b = 0; b < 24; b++) {
            int have = 0;
            if (!mc_sel()) continue;
            write_archive("x.tar", CUT, 3, fmt, filt);
            n = slurp("x.tar", full, sizeof full);
            for (k = b; k < n; k += 24) {
                /* in plain archives: all cuts near block ends, one in 16 elsewhere */
                if (!mc_thorough && filt == 0 && !(k % 512 < 4 || k % 512 > 508 || k % 24 == k / 24 % 24)) continue;
                (void) have;
                spew("y.tar", full, k);
                for (w = 0; w < 3; w++) {
                    mc_desc("%s %s cut after %zu of %zu bytes;", fmts[fmt], filts[filt], k, n);
                    extract("y.tar", CUT[w].name, &CUT[w], 1);
                }
                mc_state((uint64_t) k * 64 + (uint64_t) (fmt * 6 + filt));
            }
        }
    }
    /* damaged headers of a plain archive; with an intact header before it a member is still found */
    for (fmt = 0; fmt < 4; fmt += 3) for (b = 0; b < 512; b += 8) {
        static const size_t hdr[] = { 0, 512 + 1024, 512 + 1024 + 512 + 512 };
        int h, x;
        if (!mc_sel()) continue;
        write_archive("x.tar", CUT, 3, fmt, 0);
        n = slurp("x.tar", full, sizeof full);
        for (k = b; k < b + 8; k++) for (h = 0; h < 3; h++) for (x = 0; x < (mc_thorough ? 8 : 3); x++) {
            static const unsigned char xs[] = { 1, 0x80, 0x20, 2, 4, 8, 16, 0x40 };
            memcpy(part, full, n);
            part[hdr[h] + k] ^= xs[x];
            spew("y.tar", part, n);
            for (w = 0; w < 3; w++) {
                mc_desc("%s header %d damaged at byte %zu (^%02x);", fmts[fmt], h, k, xs[x]);
                extract("y.tar", CUT[w].name, &CUT[w], w >= h);
            }
            mc_state((uint64_t) k * 64 + (uint64_t) (h * 8 + x) + 1000000);
        }
    }
}
static void fam_faults(void)
{
    static const int errs[] = { EIO, ENOSPC, EINTR, EACCES };
    static const struct { int filt, w, sh; size_t size; } sc[] = { { 0, 0, 0, 700 }, { 0, 2, 0, 70000 }, { 1, 1, 0, 30000 }, { 2, 2, 0, 30000 }, { 3, 0, 0, 30000 }, { 4, 2, 0, 30000 }, { 0, 2, 1000, 30000 }, { 1, 2, 7, 3000 }, { 0, 1, 0, 0 }, { 0, 3, 0, 700 }, { 0, 1, 0, 65536 }, { 1, 0, 500, 16384 } };
    int s, e, n, N;
    for (s = 0; s < 12; s++) for (e = 0; e < 4; e++) {
        memb_t m[3] = { { "a", sc[s].size, 1, 0, 0644, NULL, 0 }, { "b", sc[s].size, 2, 0, 0644, NULL, 0 }, { "c", sc[s].size, 3, 0, 0644, NULL, 0 } };
        const char *nm = sc[s].w < 3 ? m[sc[s].w].name : "none";
        const memb_t *w = sc[s].w < 3 ? &m[sc[s].w] : NULL;
        if (!mc_sel()) continue;
        if (s >= 10 && w) m[sc[s].w].hole = 1;
        write_archive("x.tar", m, 3, 1, sc[s].filt);
        f_at = -1;
        mc_desc("scenario %d;", s);
        f_short = sc[s].sh;
        extract("x.tar", nm, w, 0);
        N = R->nev;
        for (n = 0; n < 2 * N; n++) {
            f_at = n >> 1; f_err = errs[e]; f_persist = n & 1;
            if (f_persist && f_err == EINTR) continue;                 /* retried for ever */
            mc_desc("scenario %d, file operation %d of %d fails with errno %d%s;", s, f_at, N, errs[e], f_persist ? ", and all later ones" : "");
            extract("x.tar", nm, w, 1);
            mc_state((uint64_t) (s * 4 + e) * 100000 + (uint64_t) n);
        }
        f_at = -1;
        f_short = f_persist = 0;
    }
}
static void worker(void)
{
    size_t i;
    R = mmap(NULL, sizeof *R, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (chdir(mc_dir)) mc_error("chdir");
    chmod(".", 0755);
    bytes = malloc(NBIG);
    for (i = 0; i < NBIG; i++) bytes[i] = (unsigned char) (i * 11 + (i >> 7) * 3 + (i >> 13) + 1);
    names_init();
    spew("x.tar", bytes, 0); spew("y.tar", bytes, 0); spew("victim", bytes, 0);
    fam_prefix();
    fam_large();
    fam_members();
    fam_types();
    fam_cut();
    fam_faults();
}
int main(int argc, char **argv)
{
    mc_init(argc, argv);
    return mc_run(worker);
}
