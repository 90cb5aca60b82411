/* tree.h - building scratch trees, running the real ftwin_main on them in a child process with an optional environment
 * fault, and parsing what it printed.  Shared by h_tree (F01, F02, F03, F04, F05, F10) and h_fault (F07, F09). */
#ifndef TREE_H
#define TREE_H
#define _GNU_SOURCE
#include "mc.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <pcre.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/sysmacros.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <grp.h>

#define MAXE 700
#define MAXP 700
typedef struct { char path[MAXP]; char type; const unsigned char *d; size_t n; char target[MAXP]; int mode; struct timespec mt; int has_mt; } ent_t;   /* type: R file, D directory, L link, F fifo */
static ent_t E[MAXE];
static int NE;

static void t_clear(void) { NE = 0; }
static ent_t *t_add(char type, const void *d, size_t n, const char *fmt, ...)
{
    ent_t *e = &E[NE++];
    va_list a;
    if (NE > MAXE) mc_error("tree too large");
    e->type = type; e->d = d; e->n = n; e->target[0] = 0; e->mode = -1; e->has_mt = 0;
    va_start(a, fmt);
    vsnprintf(e->path, MAXP, fmt, a);
    va_end(a);
    return e;
}
static ent_t *t_file(const void *d, size_t n, const char *p) { return t_add('R', d, n, "%s", p); }
static ent_t *t_link(const char *target, const char *p) { ent_t *e = t_add('L', NULL, 0, "%s", p); snprintf(e->target, MAXP, "%s", target); return e; }

static int t_rm_cb(const char *p, const struct stat *s, int t, struct FTW *f)
{
    (void) s; (void) f;
    if (t == FTW_DP || t == FTW_D || t == FTW_DNR) rmdir(p); else unlink(p);
    return 0;
}
/* only ever below this worker's own scratch directory (the current directory) */
static void t_remove(void)
{
    DIR *d = opendir(".");
    struct dirent *de;
    while (d && (de = readdir(d)))
        if (de->d_name[0] == 't' && strlen(de->d_name) < 40) {
            struct stat st;
            if (lstat(de->d_name, &st) == 0 && S_ISDIR(st.st_mode)) nftw(de->d_name, t_rm_cb, 32, FTW_DEPTH | FTW_PHYS);
            else unlink(de->d_name);
        }
    if (d) closedir(d);
}
static void t_mkparents(const char *p)
{
    char b[MAXP], *s;
    snprintf(b, sizeof b, "%s", p);
    for (s = strchr(b, '/'); s; s = strchr(s + 1, '/')) { *s = 0; mkdir(b, 0755); *s = '/'; }
}
static void t_write(const char *p, const unsigned char *d, size_t n)
{
    int fd = open(p, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    size_t o = 0;
    if (fd < 0) mc_error("cannot create %s: %d", p, errno);
    while (o < n) { ssize_t r = write(fd, d + o, n - o); if (r <= 0) mc_error("write %s: %d", p, errno); o += (size_t) r; }
    close(fd);
}
static void t_build_order(const int *order)
{
    int i;
    t_remove();
    for (i = 0; i < NE; i++) {
        ent_t *e = &E[order ? order[i] : i];
        t_mkparents(e->path);
        if (e->type == 'D') mkdir(e->path, 0755);
        else if (e->type == 'L') { if (symlink(e->target, e->path)) mc_error("symlink %s", e->path); }
        else if (e->type == 'F') { if (mkfifo(e->path, 0644)) mc_error("mkfifo %s", e->path); }
        else t_write(e->path, e->d, e->n);
        if (e->has_mt) { struct timespec ts[2] = { e->mt, e->mt }; if (utimensat(AT_FDCWD, e->path, ts, AT_SYMLINK_NOFOLLOW)) mc_error("utimensat"); }
    }
    for (i = 0; i < NE; i++) if (E[i].mode >= 0 && chmod(E[i].path, (mode_t) E[i].mode)) mc_error("chmod");
}
static void t_build(void) { t_build_order(NULL); }

/* ---- running ---- */
enum { EV_OPEN = 1, EV_MMAP, EV_READ, EV_FSTAT, EV_STAT, EV_OPENDIR, EV_READDIR, EV_CLOSE, EV_MUNMAP, EV_OTHER };
static const char *const ev_name[] = { "?", "open", "mmap", "read", "fstat", "stat", "opendir", "readdir", "close", "munmap", "other" };
#define MAXEV 4000
#define MAXCR 64
typedef struct
{
    int nev;
    struct { int kind; char path[MAXP]; } ev[MAXEV];
    int hit;                                        /* the fault happened */
    int ncr; char created[MAXCR][MAXP];             /* files created by the code under test */
    int nmut; char mut[MAXP + 40];                  /* first mutating call on the scanned tree */
    int nfd, maxfd, nmap, maxmap, leftfd;           /* descriptors and mappings of files of the tree */
} run_t;
static run_t *R;                                    /* shared with the child */

typedef struct
{
    int at, at2;                /* event numbers, or -1 */
    int kind, err;              /* persistent: every event of this kind (0: any) on path fails from event at on */
    char path[MAXP];
    int persist;
    void (*modify)(void);       /* called right before event at */
    int mmap_all;               /* all mappings refused */
    int readgran;
} fault_t;
static fault_t FT = { .at = -1, .at2 = -1 };
static int armed_child, seq_lock;
static char fdpath[1024][MAXP];

static int t_tracked(const char *p)
{
    if (!p) return 0;
    if (p[0] == '/') return !strncmp(p, mc_dir, strlen(mc_dir));
    while (p[0] == '.' && p[1] == '/') p += 2;
    if (!strncmp(p, "../", 3)) return 1;
    return p[0] == 't';
}
static const char *t_norm(const char *p)
{
    static __thread char b[MAXP];
    if (p[0] == '/') { p += strlen(mc_dir); while (*p == '/') p++; }
    while (p[0] == '.' && p[1] == '/') p += 2;
    snprintf(b, sizeof b, "%s", p);
    return b;
}
/* returns an errno to fail with, or 0 */
static int t_event(int kind, const char *path)
{
    static int nmm;
    int n, e = 0;
    const char *p = t_norm(path);
    while (__atomic_test_and_set(&seq_lock, __ATOMIC_ACQUIRE)) ;
    n = R->nev++;
    if (n < MAXEV) { R->ev[n].kind = kind; snprintf(R->ev[n].path, MAXP, "%s", p); }
    if (FT.at >= 0) {
        if (n == FT.at || n == FT.at2) {
            R->hit = 1;
            if (FT.modify) { armed_child = 0; FT.modify(); armed_child = 1; }
            else if (!FT.persist) e = FT.err;
        }
        if (FT.persist && n >= FT.at && !strcmp(p, FT.path) && (!FT.kind || FT.kind == kind)) { e = FT.err; R->hit = 1; }
    }
    if (FT.mmap_all && kind == EV_MMAP && (FT.mmap_all == 1 || nmm++ % 2)) e = ENOMEM;
    __atomic_clear(&seq_lock, __ATOMIC_RELEASE);
    return e;
}
static void t_mutation(const char *what, const char *p)
{
    if (armed_child && t_tracked(p) && !R->nmut++) snprintf(R->mut, sizeof R->mut, "%s(%s)", what, t_norm(p));
}
static int t_open(int dirfd, const char *p, int flags, int mode)
{
    int fd, n, tr = armed_child && dirfd == AT_FDCWD && t_tracked(p);
    if (tr) {
        int e = t_event(EV_OPEN, p);
        if (e) { errno = e; return -1; }
        if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC))) t_mutation("open for writing", p);
    }
    else if (armed_child && p && (flags & O_CREAT) && strncmp(p, "/dev/", 5) && strncmp(p, "/proc/", 6)) {
        int k = R->ncr++;
        if (k < MAXCR) snprintf(R->created[k], MAXP, "%s", p);
    }
    fd = (int) syscall(SYS_openat, dirfd, p, flags, mode);
    if (fd >= 0 && tr && (n = __atomic_add_fetch(&R->nfd, 1, __ATOMIC_SEQ_CST)) > R->maxfd) R->maxfd = n;
    if (fd >= 0 && fd < 1024) { if (tr) snprintf(fdpath[fd], MAXP, "%s", p); else fdpath[fd][0] = 0; }
    return fd;
}
#define VA_MODE int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
int open(const char *p, int flags, ...) { VA_MODE return t_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { VA_MODE return t_open(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { VA_MODE return t_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { VA_MODE return t_open(d, p, flags, mode); }
int mkstemp(char *tpl)
{
    static int n;
    size_t l = strlen(tpl);
    int k, fd;
    for (k = 0; k < 1000; k++) {
        char c[8];
        snprintf(c, sizeof c, "%06x", (unsigned) (getpid() * 64 + n++) & 0xffffff);
        memcpy(tpl + l - 6, c, 6);
        fd = open(tpl, O_RDWR | O_CREAT | O_EXCL, 0600);
        if (fd >= 0 || errno != EEXIST) return fd;
    }
    return -1;
}
#define FDP(fd) (armed_child && (fd) >= 0 && (fd) < 1024 && fdpath[fd][0] ? fdpath[fd] : NULL)
ssize_t read(int fd, void *b, size_t n)
{
    const char *p = FDP(fd);
    if (p) {
        int e = t_event(EV_READ, p);
        if (e) { errno = e; return -1; }
        if (FT.readgran && n > (size_t) FT.readgran) n = (size_t) FT.readgran;
    }
    return syscall(SYS_read, fd, b, n);
}
ssize_t pread(int fd, void *b, size_t n, off_t o)
{
    const char *p = FDP(fd);
    if (p) {
        int e = t_event(EV_READ, p);
        if (e) { errno = e; return -1; }
        if (FT.readgran && n > (size_t) FT.readgran) n = (size_t) FT.readgran;
    }
    return syscall(SYS_pread64, fd, b, n, o);
}
static struct { void *a; size_t n; } maps[4096];
static void *t_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o)
{
    void *r;
    int i, k;
    const char *p = FDP(fd);
    if (p) {
        int e = t_event(EV_MMAP, p);
        if (e) { errno = e; return MAP_FAILED; }
        if ((pr & PROT_WRITE) && (fl & MAP_SHARED)) t_mutation("writable mapping", p);
    }
    r = (void *) syscall(SYS_mmap, a, n, pr, fl, fd, o);
    if (p && r != MAP_FAILED) {
        while (__atomic_test_and_set(&seq_lock, __ATOMIC_ACQUIRE)) ;
        for (i = 0; i < 4096; i++) if (!maps[i].a) { maps[i].a = r; maps[i].n = n; break; }
        if ((k = ++R->nmap) > R->maxmap) R->maxmap = k;
        __atomic_clear(&seq_lock, __ATOMIC_RELEASE);
    }
    return r;
}
int munmap(void *a, size_t n)
{
    int i;
    if (armed_child && R->nmap) {
        while (__atomic_test_and_set(&seq_lock, __ATOMIC_ACQUIRE)) ;
        for (i = 0; i < 4096; i++) if (maps[i].a == a) { maps[i].a = NULL; R->nmap--; break; }
        __atomic_clear(&seq_lock, __ATOMIC_RELEASE);
    }
    return (int) syscall(SYS_munmap, a, n);
}
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { return t_mmap(a, n, pr, fl, fd, o); }
void *mmap64(void *a, size_t n, int pr, int fl, int fd, off_t o) { return t_mmap(a, n, pr, fl, fd, o); }
int close(int fd)
{
    const char *p = FDP(fd);
    int e = 0;
    if (p) { e = t_event(EV_CLOSE, p); fdpath[fd][0] = 0; __atomic_sub_fetch(&R->nfd, 1, __ATOMIC_SEQ_CST); }
    if (syscall(SYS_close, fd)) return -1;
    if (e) { errno = e; return -1; }
    return 0;
}
static int t_inomode;                      /* how the numbers of directories are changed */
static int t_stat(int flags, const char *p, struct stat *st)
{
    int r;
    if (armed_child && t_tracked(p)) {
        int e = t_event(EV_STAT, p);
        if (e) { errno = e; return -1; }
    }
    r = (int) syscall(SYS_newfstatat, AT_FDCWD, p, st, flags);
    if (r == 0 && t_inomode && armed_child && S_ISDIR(st->st_mode)) {
        static struct { ino_t i; dev_t d; } seen[64];
        static unsigned nseen;
        unsigned k;
        for (k = 0; k < nseen; k++) if (seen[k].i == st->st_ino && seen[k].d == st->st_dev) break;
        if (k == nseen && nseen < 64) { seen[k].i = st->st_ino; seen[k].d = st->st_dev; nseen++; }
        switch (t_inomode) {
        case 1: st->st_ino = 5 + ((ino_t) k << 8); break;
        case 2: st->st_ino = 5 + ((ino_t) k << 16); break;
        case 3: st->st_ino = 5 + ((ino_t) k << 32); break;
        case 4: st->st_ino = 5 + ((ino_t) k << 48); break;
        case 5: st->st_ino = 5; st->st_dev = 3 + k; break;
        case 6: st->st_ino = 5; st->st_dev = 3 + ((dev_t) k << 32); break;
        default: st->st_ino = 5 + k % 3; st->st_dev = 3 + k / 3; break;
        }
    }
    return r;
}
int stat(const char *p, struct stat *st) { return t_stat(0, p, st); }
int stat64(const char *p, struct stat64 *st) { return t_stat(0, p, (struct stat *) st); }
int lstat(const char *p, struct stat *st) { return t_stat(AT_SYMLINK_NOFOLLOW, p, st); }
int lstat64(const char *p, struct stat64 *st) { return t_stat(AT_SYMLINK_NOFOLLOW, p, (struct stat *) st); }
int fstat(int fd, struct stat *st)
{
    const char *p = FDP(fd);
    if (p) {
        int e = t_event(EV_FSTAT, p);
        if (e) { errno = e; return -1; }
    }
    return (int) syscall(SYS_fstat, fd, st);
}
int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *) st); }
#include <dlfcn.h>
/* directories list their entries in the order chosen by the harness: 0 as the file system does, 1 by name, 2 by name
 * backwards, 3 by t_rank of the full path */
static int t_dirorder;
static int (*t_rank)(const char *path);
static struct { DIR *d; char path[MAXP]; struct dirent *l; int n, pos; } dirs[256];
static int dir_cur;
static int dir_cmp(const void *a, const void *b)
{
    const struct dirent *x = a, *y = b;
    int r = strcmp(x->d_name, y->d_name);
    if (t_dirorder == 2) return -r;
    if (t_dirorder == 3) {
        char p[2 * MAXP];
        int rx, ry;
        snprintf(p, sizeof p, "%s/%s", dirs[dir_cur].path, x->d_name);
        rx = t_rank(t_norm(p));
        snprintf(p, sizeof p, "%s/%s", dirs[dir_cur].path, y->d_name);
        ry = t_rank(t_norm(p));
        if (rx != ry) return rx - ry;
    }
    return r;
}
DIR *opendir(const char *p)
{
    static DIR *(*real)(const char *);
    static struct dirent *(*rd)(DIR *);
    struct dirent *de;
    DIR *d;
    int i, tr = armed_child && t_tracked(p);
    if (!real) { real = (DIR *(*)(const char *)) dlsym(RTLD_NEXT, "opendir"); rd = (struct dirent * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir"); }
    if (tr) {
        int e = t_event(EV_OPENDIR, p);
        if (e) { errno = e; return NULL; }
    }
    d = real(p);
    if (d && tr)
        for (i = 0; i < 256; i++)
            if (!dirs[i].d) {
                size_t l;
                dirs[i].d = d; dirs[i].l = NULL; dirs[i].n = dirs[i].pos = 0;
                snprintf(dirs[i].path, MAXP, "%s", p);
                for (l = strlen(dirs[i].path); l > 1 && dirs[i].path[l - 1] == '/'; l--) dirs[i].path[l - 1] = 0;
                if (t_dirorder) {
                    while ((de = rd(d))) {
                        dirs[i].l = realloc(dirs[i].l, sizeof *de * (size_t) (dirs[i].n + 1));
                        memset(&dirs[i].l[dirs[i].n], 0, sizeof *de);
                        memcpy(&dirs[i].l[dirs[i].n++], de, offsetof(struct dirent, d_name) + strlen(de->d_name) + 1);
                    }
                    dir_cur = i;
                    qsort(dirs[i].l, (size_t) dirs[i].n, sizeof *de, dir_cmp);
                }
                break;
            }
    return d;
}
struct dirent *readdir(DIR *d)
{
    static struct dirent *(*real)(DIR *);
    int i;
    if (!real) real = (struct dirent * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir");
    if (armed_child)
        for (i = 0; i < 256; i++)
            if (dirs[i].d == d) {
                int e = t_event(EV_READDIR, dirs[i].path);
                if (e) { errno = e; return NULL; }
                if (t_dirorder) return dirs[i].pos < dirs[i].n ? &dirs[i].l[dirs[i].pos++] : NULL;
                break;
            }
    return real(d);
}
struct dirent64 *readdir64(DIR *d) { return (struct dirent64 *) readdir(d); }
static int t_readdir_r(DIR *d, struct dirent *e, struct dirent **res)
{
    struct dirent *x;
    errno = 0;
    x = readdir(d);
    *res = NULL;
    if (!x) return errno;
    memcpy(e, x, offsetof(struct dirent, d_name) + strlen(x->d_name) + 1);
    *res = e;
    return 0;
}
int readdir_r(DIR *d, struct dirent *e, struct dirent **res) { return t_readdir_r(d, e, res); }
int readdir64_r(DIR *d, struct dirent64 *e, struct dirent64 **res) { return t_readdir_r(d, (struct dirent *) e, (struct dirent **) res); }
int closedir(DIR *d)
{
    static int (*real)(DIR *);
    int i;
    if (!real) real = (int (*)(DIR *)) dlsym(RTLD_NEXT, "closedir");
    for (i = 0; i < 256; i++) if (dirs[i].d == d) { dirs[i].d = NULL; free(dirs[i].l); dirs[i].l = NULL; }
    return real(d);
}

static unsigned char *OUT;
static size_t NOUT;
static int t_outfd = -1, t_errfd = -1, RC;
static int t_tty, t_exit;                               /* standard output is a terminal; errors end the process as in production */
int isatty(int fd) { struct stat st; if (armed_child && t_tty && fd == 1) return 1; return fstat(fd, &st) == 0 && S_ISCHR(st.st_mode) && major(st.st_rdev) >= 4 && major(st.st_rdev) != 1; }
static void t_on_exit(int st, void *x) { (void) x; armed_child = 0; fflush(NULL); _exit(st ? 1 : 0); }
static unsigned t_nofile, t_uid, t_sgid;	/* user and supplementary group to run as */
static char CMD[4000];

extern int ftwin_main(int argc, const char **argv);
static int (*t_body)(int argc, const char **argv);      /* NULL: ftwin_main */
extern void ft_config_set_should_exit_on_error(int);

static void t_init(void)
{
    R = mmap(NULL, sizeof *R, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    t_outfd = memfd_create("out", 0);
    t_errfd = memfd_create("err", 0);
    if (R == MAP_FAILED || t_outfd < 0 || t_errfd < 0) mc_error("init");
    if (chdir(mc_dir)) mc_error("chdir");
    OUT = malloc(8 << 20);
}

/* run ftwin with the given arguments; the output is in OUT/NOUT, the exit status in RC (-1 seen as 255) */
static void t_run(const char *const *argv, int argc)
{
    const char *av[MAXE + 8];
    int i, st;
    size_t l = 0;
    struct stat sb;
    pid_t p;
    av[0] = "ftwin";
    CMD[0] = 0;
    for (i = 0; i < argc; i++) {
        av[i + 1] = argv[i];
        if (l < sizeof CMD - 400) l += (size_t) snprintf(CMD + l, sizeof CMD - l, " %.300s", argv[i]);
    }
    av[argc + 1] = NULL;
    if (ftruncate(t_outfd, 0) || ftruncate(t_errfd, 0)) mc_error("ftruncate");
    lseek(t_outfd, 0, SEEK_SET);
    lseek(t_errfd, 0, SEEK_SET);
    R->nev = R->hit = R->ncr = R->nmut = R->nfd = R->maxfd = R->nmap = R->maxmap = R->leftfd = 0;
    fflush(NULL);
    p = fork();
    if (p < 0) mc_error("fork");
    if (p == 0) {
        struct rlimit rl = { 0, 0 };
        int rc;
        dup2(t_outfd, 1);
        dup2(t_errfd, 2);
        if (t_nofile) {
            struct rlimit r2 = { t_nofile, t_nofile };
            setrlimit(RLIMIT_NOFILE, &r2);
        }
        setrlimit(RLIMIT_CORE, &rl);
        if (t_uid) {
            gid_t sg = t_sgid;
            if (setgroups(t_sgid ? 1 : 0, &sg) || setgid(t_uid) || setuid(t_uid)) _exit(98);
        }
        ft_config_set_should_exit_on_error(t_exit);
        if (t_exit) on_exit(t_on_exit, NULL);
        armed_child = 1;
        rc = (t_body ? t_body : ftwin_main)(argc + 1, av);
        armed_child = 0;
        R->leftfd = R->nfd;
        fflush(NULL);
        _exit(rc ? 1 : 0);
    }
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    mc_eval(1);
    mc_trans((uint64_t) R->nev + 1);
    if (WIFSIGNALED(st)) mc_fail(NULL, "ftwin%s died with signal %d (%s)", CMD, WTERMSIG(st), strsignal(WTERMSIG(st)));
    if (!WIFEXITED(st) || WEXITSTATUS(st) > 1) {
        char eb[800];
        ssize_t n = pread(t_errfd, eb, sizeof eb - 1, 0);
        eb[n > 0 ? n : 0] = 0;
        mc_fail(NULL, "ftwin%s ended the process with status %d: %s", CMD, WEXITSTATUS(st), eb);
    }
    RC = WEXITSTATUS(st);
    fstat(t_outfd, &sb);
    if (sb.st_size >= 8 << 20) mc_fail(NULL, "ftwin%s printed %ld bytes", CMD, (long) sb.st_size);
    NOUT = (size_t) pread(t_outfd, OUT, (size_t) sb.st_size, 0);
    OUT[NOUT] = 0;
}

/* ---- results ---- */
#define MAXG 700
typedef struct { char path[MAXP]; int prio; char mtime[40]; } mem_t;
typedef struct { int n; mem_t *m; long long size; char hash[40]; int has_size; char sizetxt[40]; } grp_t;
static grp_t G[MAXG];
static int NG;
static mem_t MEM[20000];
static int NM;

static void g_reset(void) { NG = NM = 0; }
static grp_t *g_new(void) { grp_t *g; if (NG == MAXG) mc_fail(NULL, "too many groups printed"); g = &G[NG++]; memset(g, 0, sizeof *g); g->m = &MEM[NM]; return g; }
static void g_mem(grp_t *g, const char *p, size_t n)
{
    mem_t *m;
    if (NM == 20000) mc_fail(NULL, "too many files printed");
    m = &MEM[NM++];
    memset(m, 0, sizeof *m);
    if (n >= MAXP) n = MAXP - 1;
    memcpy(m->path, p, n);
    m->path[n] = 0;
    g->n++;
}
/* text report: [Size: X\n] path (sep path)* "\n\n" */
static void g_parse_text(char sep, int sized)
{
    const char *p = (const char *) OUT, *end = p + NOUT;
    g_reset();
    while (p < end) {
        const char *q = memmem(p, (size_t) (end - p), "\n\n", 2), *s;
        grp_t *g = g_new();
        if (!q) mc_fail(NULL, "ftwin%s: output does not end with an empty line: \"%.200s\"", CMD, p);
        if (sized) {
            s = memchr(p, '\n', (size_t) (q - p));
            if (!s || strncmp(p, "Size: ", 6)) { mc_fail(NULL, "ftwin%s: no size line before a group", CMD); return; }
            snprintf(g->sizetxt, sizeof g->sizetxt, "%.*s", (int) (s - p - 6), p + 6);
            g->has_size = 1;
            p = s + 1;
        }
        for (; p <= q; p = s + 1) {
            s = memchr(p, sep, (size_t) (q - p));
            if (!s) s = q;
            g_mem(g, p, (size_t) (s - p));
        }
        p = q + 2;
    }
}
/* strict JSON parser for the report */
static const char *jp, *je;
static void jerr(const char *w) { mc_fail(NULL, "ftwin%s: not a well-formed report (%s) at \"%.60s\"", CMD, w, jp < je ? jp : "(end)"); _exit(77); }
static void jws(void) { while (jp < je && (*jp == ' ' || *jp == '\n' || *jp == '\r' || *jp == '\t')) jp++; }
static void jexp(char c) { jws(); if (jp >= je || *jp != c) { char w[12] = "expected  "; w[9] = c; jerr(w); } jp++; }
static int jpeek(void) { jws(); return jp < je ? (unsigned char) *jp : -1; }
static unsigned jhex(void)
{
    unsigned v = 0;
    int i;
    for (i = 0; i < 4; i++, jp++) {
        char c = jp < je ? *jp : 0;
        v = v * 16 + (unsigned) (c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : (jerr("hex"), 0));
    }
    return v;
}
static size_t jput(char *b, size_t o, size_t cap, unsigned c)
{
    unsigned char t[4];
    size_t n = 0, i;
    if (c < 0x80) t[n++] = (unsigned char) c;
    else if (c < 0x800) { t[n++] = (unsigned char) (0xc0 | c >> 6); t[n++] = (unsigned char) (0x80 | (c & 63)); }
    else if (c < 0x10000) { t[n++] = (unsigned char) (0xe0 | c >> 12); t[n++] = (unsigned char) (0x80 | (c >> 6 & 63)); t[n++] = (unsigned char) (0x80 | (c & 63)); }
    else { t[n++] = (unsigned char) (0xf0 | c >> 18); t[n++] = (unsigned char) (0x80 | (c >> 12 & 63)); t[n++] = (unsigned char) (0x80 | (c >> 6 & 63)); t[n++] = (unsigned char) (0x80 | (c & 63)); }
    for (i = 0; i < n; i++) if (o < cap - 1) b[o++] = (char) t[i];
    return o;
}
static void jstring(char *b, size_t cap)
{
    size_t o = 0;
    jexp('"');
    for (;;) {
        unsigned char c;
        if (jp >= je) jerr("string");
        c = (unsigned char) *jp++;
        if (c == '"') break;
        if (c < 0x20) { jp--; jerr("control character in string"); }
        if (c == '\\') {
            char x = jp < je ? *jp++ : 0;
            unsigned v;
            switch (x) {
            case '"': case '\\': case '/': v = (unsigned char) x; break;
            case 'b': v = 8; break;
            case 'f': v = 12; break;
            case 'n': v = 10; break;
            case 'r': v = 13; break;
            case 't': v = 9; break;
            case 'u':
                v = jhex();
                if (v >= 0xd800 && v < 0xdc00) {
                    unsigned w;
                    if (je - jp < 6 || jp[0] != '\\' || jp[1] != 'u') jerr("surrogate");
                    jp += 2;
                    w = jhex();
                    if (w < 0xdc00 || w > 0xdfff) jerr("surrogate");
                    v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
                }
                else if (v >= 0xdc00 && v < 0xe000) jerr("surrogate");
                break;
            default: v = 0; jerr("escape");
            }
            o = jput(b, o, cap, v);
        }
        else if (o < cap - 1) b[o++] = (char) c;
    }
    b[o] = 0;
}
static long long jint(void)
{
    char *e;
    long long v;
    jws();
    if (jp >= je || !((*jp >= '0' && *jp <= '9') || *jp == '-')) jerr("number");
    v = strtoll(jp, &e, 10);
    jp = e;
    return v;
}
static void g_parse_json(int untar)
{
    char k[MAXP], v[MAXP];
    g_reset();
    jp = (const char *) OUT;
    je = jp + NOUT;
    jexp('[');
    if (jpeek() != ']')
        for (;;) {
            grp_t *g = g_new();
            int seen = 0;
            jexp('{');
            for (;;) {
                jstring(k, sizeof k);
                jexp(':');
                if (!strcmp(k, "size_bytes")) { g->size = jint(); seen |= 1; }
                else if (!strcmp(k, "hash_xxh128")) { jstring(g->hash, sizeof g->hash); seen |= 2; }
                else if (!strcmp(k, "duplicates")) {
                    seen |= 4;
                    jexp('[');
                    if (jpeek() != ']')
                        for (;;) {
                            int s2 = 0;
                            mem_t *m;
                            g_mem(g, "", 0);
                            m = &g->m[g->n - 1];
                            jexp('{');
                            for (;;) {
                                jstring(k, sizeof k);
                                jexp(':');
                                if (!strcmp(k, "path")) { jstring(m->path, MAXP); s2 |= 1; }
                                else if (!strcmp(k, "mtime_utc")) { jstring(m->mtime, sizeof m->mtime); s2 |= 2; }
                                else if (!strcmp(k, "prioritized")) {
                                    jws();
                                    if (je - jp >= 4 && !strncmp(jp, "true", 4)) { m->prio = 1; jp += 4; }
                                    else if (je - jp >= 5 && !strncmp(jp, "false", 5)) jp += 5;
                                    else jerr("boolean");
                                    s2 |= 4;
                                }
                                else if (jpeek() == '"') jstring(v, sizeof v);
                                else if (je - jp >= 4 && !strncmp(jp, "null", 4)) jp += 4;
                                else jerr("unknown member");
                                if (jpeek() == ',') { jp++; continue; }
                                jexp('}');
                                break;
                            }
                            (void) untar;
                            if (s2 != 7) mc_fail(NULL, "ftwin%s: a file entry lacks its path, time or priority", CMD);
                            if (jpeek() == ',') { jp++; continue; }
                            break;
                        }
                    jexp(']');
                }
                else jerr("unknown member");
                if (jpeek() == ',') { jp++; continue; }
                jexp('}');
                break;
            }
            if (seen != 7) mc_fail(NULL, "ftwin%s: a group lacks its size, hash or files", CMD);
            if (jpeek() == ',') { jp++; continue; }
            break;
        }
    jexp(']');
    jws();
    if (jp != je) jerr("text after the document");
}

/* ---- options and the reference selection ---- */
typedef struct
{
    int a, c, R, f, J, d, x, tflag;     /* x: -1 default, else the threshold given */
    const char *e, *w, *i, *p, *m, *M;  /* NULL: not given; m/M decimal numbers */
    char sep;                           /* 0: default */
    int threads;
    const char *extra;                  /* one more option */
} opt_t;
static int o_argv(const opt_t *o, const char **av)
{
    static char bx[24], bj[24], bs[4];
    int n = 0;
    if (o->threads) { snprintf(bj, sizeof bj, "%d", o->threads); av[n++] = "-j"; av[n++] = bj; }
    if (o->a) av[n++] = "-a";
    if (o->c) av[n++] = "-c";
    if (o->R) av[n++] = "-R";
    if (o->f) av[n++] = "-f";
    if (o->J) av[n++] = "-J";
    if (o->d) av[n++] = "-d";
    if (o->tflag) av[n++] = "-t";
    if (o->x >= 0) { snprintf(bx, sizeof bx, "%d", o->x); av[n++] = "-x"; av[n++] = bx; }
    if (o->e) { av[n++] = "-e"; av[n++] = o->e; }
    if (o->w) { av[n++] = "-w"; av[n++] = o->w; }
    if (o->i) { av[n++] = "-i"; av[n++] = o->i; }
    if (o->p) { av[n++] = "-p"; av[n++] = o->p; }
    if (o->m) { av[n++] = "-m"; av[n++] = o->m; }
    if (o->M) { av[n++] = "-M"; av[n++] = o->M; }
    if (o->sep) { bs[0] = o->sep; bs[1] = 0; av[n++] = "-s"; av[n++] = bs; }
    if (o->extra) av[n++] = o->extra;
    return n;
}

typedef struct { char path[MAXP]; const unsigned char *d; size_t n; const ent_t *e; int grp; } sel_t;
static sel_t SEL[MAXE];
static int NSEL;
static pcre *re_e, *re_w;
static const opt_t *SO;

static const ent_t *t_find(const char *p)
{
    int i;
    for (i = 0; i < NE; i++) if (!strcmp(E[i].path, p)) return &E[i];
    return NULL;
}
/* follow a link within the model; targets are relative to the link's directory */
static int t_isdir(const char *p)
{
    int i;
    size_t l = strlen(p);
    const ent_t *e = t_find(p);
    if (e && e->type == 'D') return 1;
    if (e) return 0;
    for (i = 0; i < NE; i++) if (!strncmp(E[i].path, p, l) && E[i].path[l] == '/') return 1;
    return 0;
}
static void t_resolve(const char *p, char *out, int depth)
{
    /* resolve all link components of the model path p (textually); out = "" when broken */
    char cur[2 * MAXP] = "", work[2 * MAXP];
    char *s, *save = NULL;
    snprintf(work, sizeof work, "%s", p);
    out[0] = 0;
    if (depth > 45) return;
    for (s = strtok_r(work, "/", &save); s; s = strtok_r(NULL, "/", &save)) {
        const ent_t *e;
        char nx[2 * MAXP];
        if (!strcmp(s, ".")) continue;
        if (!strcmp(s, "..")) { char *q = strrchr(cur, '/'); if (q) *q = 0; else cur[0] = 0; continue; }
        snprintf(nx, sizeof nx, "%s%s%s", cur, cur[0] ? "/" : "", s);
        e = t_find(nx);
        if (e && e->type == 'L') {
            char tgt[3 * MAXP], rest[2 * MAXP];
            snprintf(rest, sizeof rest, "%s", save ? save : "");
            snprintf(tgt, sizeof tgt, "%s%s%s%s%s", cur, cur[0] ? "/" : "", e->target, rest[0] ? "/" : "", rest);
            if (strlen(tgt) >= 2 * MAXP) return;
            t_resolve(tgt, out, depth + 1);
            return;
        }
        if (!e && !t_isdir(nx)) return;
        snprintf(cur, sizeof cur, "%s", nx);
    }
    snprintf(out, MAXP, "%s", cur);
}
static int sel_hasname(const char *list, const char *name)
{
    size_t l = strlen(name);
    const char *p = list;
    while (p) {
        const char *q = strchr(p, ',');
        if ((q ? (size_t) (q - p) : strlen(p)) == l && !strncmp(p, name, l)) return 1;
        p = q ? q + 1 : NULL;
    }
    return 0;
}
static int sel_re(pcre *re, const char *s) { int ov[30]; return pcre_exec(re, NULL, s, (int) strlen(s), 0, 0, ov, 30) >= 0; }

/* ignore files of the model and the documented default patterns; trees with ignore files have no links */
#include "gitref.h"
static const char *const t_defaults[] = { ".git/", ".hg/", ".svn/", "build/", "dist/", "out/", "target/", "bin/", "*.o", "*.class", "*.pyc", "*.pyo", "node_modules/", "vendor/", ".venv/", ".DS_Store", "Thumbs.db", "*.swp", "*~", ".idea/", ".vscode/" };
#define NDEFAULTS ((int) (sizeof t_defaults / sizeof *t_defaults))
static char t_argdir[MAXP];                             /* the model path of the argument being walked */
static int ign_lines(const ent_t *e, const char *rel, int isdir)
{
    int res = 0;
    size_t i, b = 0;
    for (i = 0; i <= e->n; i++)
        if (i == e->n || e->d[i] == '\n') {
            char line[300];
            int r;
            size_t n = i - b;
            if (n && e->d[i - 1] == '\r') n--;
            if (n >= sizeof line) mc_error("long line in a model ignore file");
            memcpy(line, e->d + b, n); line[n] = 0;
            if ((r = gr_line(line, rel, isdir))) res = r;
            b = i + 1;
        }
    return res;
}
static int ign_model(const char *p, int isdir)
{
    char d[MAXP + 20];
    size_t n = strlen(p), top = strlen(t_argdir);
    int i;
    while (n-- > top) {
        const ent_t *e;
        int r;
        if (p[n] != '/') continue;
        snprintf(d, sizeof d, "%.*s/.gitignore", (int) n, p);
        e = t_find(d);
        if (e && e->type == 'R' && (r = ign_lines(e, p + n + 1, isdir))) return r == 1;
    }
    for (i = NDEFAULTS - 1; i >= 0; i--) if (gr_line(t_defaults[i], p, isdir)) return 1;
    return 0;
}
/* printed: the path as ftwin prints it; real: the resolved model path; anc: resolved directories above */
static void sel_walk(const char *printed, const char *model, int isarg, const char **anc, int nanc)
{
    const ent_t *e = t_find(model);
    char real[MAXP];
    const char *name = strrchr(model, '/');
    name = name ? name + 1 : model;
    int islink = e && e->type == 'L', i;
    if (!isarg) {
        if (SO->i && sel_hasname(SO->i, name)) return;
        if (name[0] == '.' && !SO->a) return;
        if (re_e && sel_re(re_e, printed)) return;
    }
    if (islink && !SO->f) return;
    t_resolve(model, real, 0);
    if (!real[0]) return;
    if (!isarg && ign_model(model, t_isdir(real))) return;
    if (t_isdir(real)) {
        char (*kids)[300];
        int nk = 0, k;
        size_t l = strlen(real);
        const char *anc2[64];
        if (!isarg && SO->R) return;
        for (i = 0; i < nanc; i++) if (!strcmp(anc[i], real)) return;       /* a loop is entered once */
        if (nanc >= 63) mc_error("the model tree is too deep");
        kids = malloc(MAXE * sizeof *kids);
        for (i = 0; i < nanc; i++) anc2[i] = anc[i];
        anc2[nanc] = real;
        for (i = 0; i < NE; i++)
            if (!strncmp(E[i].path, real, l) && E[i].path[l] == '/') {
                const char *s = E[i].path + l + 1, *q = strchr(s, '/');
                size_t n = q ? (size_t) (q - s) : strlen(s);
                for (k = 0; k < nk; k++) if (strlen(kids[k]) == n && !strncmp(kids[k], s, n)) break;
                if (k == nk) { memcpy(kids[nk], s, n); kids[nk++][n] = 0; }
            }
        for (k = 0; k < nk; k++) {
            char p2[MAXP * 2], m2[MAXP * 2];
            snprintf(p2, sizeof p2, "%s%s%s", printed, printed[strlen(printed) - 1] == '/' ? "" : "/", kids[k]);
            snprintf(m2, sizeof m2, "%s/%s", real, kids[k]);
            sel_walk(p2, m2, 0, anc2, nanc + 1);
        }
        free(kids);
        return;
    }
    e = t_find(real);
    if (!e || e->type != 'R') return;
    if (!isarg && re_w && !sel_re(re_w, printed)) return;
    if (SO->m && (long long) e->n < atoll(SO->m)) return;
    if (SO->M && atoll(SO->M) != 0 && (long long) e->n > atoll(SO->M)) return;
    for (i = 0; i < NSEL; i++) if (!strcmp(SEL[i].path, printed)) return;   /* a path given twice counts once */
    snprintf(SEL[NSEL].path, MAXP, "%s", printed);
    SEL[NSEL].d = e->d; SEL[NSEL].n = e->n; SEL[NSEL].e = e;
    NSEL++;
}
static pcre *sel_comp(const char *s, int c)
{
    const char *er;
    int off;
    pcre *r;
    if (!s) return NULL;
    r = pcre_compile(s, PCRE_DOLLAR_ENDONLY | PCRE_DOTALL | (c ? PCRE_CASELESS : 0), &er, &off, NULL);
    if (!r) mc_error("bad regex %s", s);
    return r;
}
/* which files are in scope, and their groups by content (grp >= 0 when a twin exists) */
static int sel_groups(void)
{
    int i, j, ng = 0;
    for (i = 0; i < NSEL; i++) SEL[i].grp = -1;
    for (i = 0; i < NSEL; i++) {
        if (SEL[i].grp >= 0) continue;
        for (j = i + 1; j < NSEL; j++)
            if (SEL[j].n == SEL[i].n && (SEL[j].d == SEL[i].d || !memcmp(SEL[j].d, SEL[i].d, SEL[i].n))) {
                if (SEL[i].grp < 0) SEL[i].grp = ng++;
                SEL[j].grp = SEL[i].grp;
            }
    }
    return ng;
}
/* args: as printed; models: the model paths they denote */
static int sel_compute(const opt_t *o, const char *const *args, const char *const *models, int na)
{
    int i;
    SO = o;
    NSEL = 0;
    re_e = sel_comp(o->e, o->c);
    re_w = sel_comp(o->w, o->c);
    for (i = 0; i < na; i++) {
        snprintf(t_argdir, MAXP, "%s", models ? models[i] : args[i]);
        sel_walk(args[i], models ? models[i] : args[i], 1, NULL, 0);
    }
    if (re_e) pcre_free(re_e);
    if (re_w) pcre_free(re_w);
    return sel_groups();
}

static int sel_index(const char *p)
{
    int i;
    for (i = 0; i < NSEL; i++) if (!strcmp(SEL[i].path, p)) return i;
    return -1;
}
static void t_describe(void)
{
    int i;
    mc_desc_add(" tree:");
    for (i = 0; i < NE && i < 60; i++) {
        if (E[i].type == 'R') mc_desc_add(" %s(%zu:%08x)", E[i].path, E[i].n, (unsigned) mc_hash(E[i].d, E[i].n, 7));
        else mc_desc_add(" %s%s%s", E[i].path, E[i].type == 'L' ? "->" : E[i].type == 'D' ? "/" : "|", E[i].target);
    }
}
#endif
