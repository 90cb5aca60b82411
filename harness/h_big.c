/* F01, F02, F04, F05 beyond the small trees: huge (sparse) files, very many files, very deep paths, very many arguments. */
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <apr_general.h>
#include "ftwin.h"
extern void ft_config_set_should_exit_on_error(int);

typedef struct { char *path; off_t size; int kind, sel, seen; } bf_t;      /* same size and kind: same contents */
static bf_t *F; static int NF, CAP;
static char *OUT; static size_t NOUT; static char CMD[600];
static int rm_cb(const char *p, const struct stat *s, int t, struct FTW *f) { (void) s; (void) t; (void) f; return remove(p); }
static void clear(void) { int i; for (i = 0; i < NF; i++) free(F[i].path); NF = 0; nftw("t", rm_cb, 50, FTW_DEPTH | FTW_PHYS); mkdir("t", 0755); }
/* kind 0: zeros; 1: last byte one; 2: byte in the middle one; 3: first byte one */
static int file(const char *p, off_t size, int kind)
{
    int fd = open(p, O_CREAT | O_EXCL | O_WRONLY, 0644);
    if (fd < 0) mc_error("creating %s: %s", p, strerror(errno));
    if (ftruncate(fd, size)) { close(fd); return 0; }
    if (kind && pwrite(fd, "\1", 1, kind == 1 ? size - 1 : kind == 2 ? size / 2 : 0) != 1) { close(fd); return 0; }
    close(fd);
    if (NF == CAP) { CAP = CAP ? CAP * 2 : 1024; F = realloc(F, sizeof *F * (size_t) CAP); }
    F[NF].path = strdup(p); F[NF].size = size; F[NF].kind = kind; F[NF].sel = 1; F[NF].seen = 0; NF++;
    return 1;
}
static int by_path(const void *a, const void *b) { return strcmp(((const bf_t *) a)->path, ((const bf_t *) b)->path); }
static bf_t *find(const char *p)
{
    bf_t k; static char cwd[4096];
    if (!cwd[0] && (!getcwd(cwd, sizeof cwd - 1) || !strcat(cwd, "/"))) mc_error("getcwd");
    if (!strncmp(p, cwd, strlen(cwd))) p += strlen(cwd);
    k.path = (char *) p;
    return bsearch(&k, F, (size_t) NF, sizeof *F, by_path);
}
static void run(const char **av, int n)
{
    int fd = memfd_create("out", 0), st, i; pid_t p; struct stat sb; size_t l = 0;
    CMD[0] = 0;
    for (i = 1; i < n && l < sizeof CMD - 100; i++) l += (size_t) snprintf(CMD + l, sizeof CMD - l, " %.60s", av[i]);
    fflush(NULL);
    p = fork();
    if (p < 0 || fd < 0) mc_error("fork");
    if (p == 0) {
        struct rlimit rl = { 0, 0 }; int e = open("/dev/null", O_WRONLY);
        setrlimit(RLIMIT_CORE, &rl);
        dup2(fd, 1); dup2(e, 2);
        ft_config_set_should_exit_on_error(0);
        i = ftwin_main(n, av);
        fflush(NULL);
        _exit(i ? 1 : 0);
    }
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    mc_eval(1); mc_trans((uint64_t) NF);
    if (WIFSIGNALED(st)) mc_fail(NULL, "ftwin%s died with signal %d", CMD, WTERMSIG(st));
    if (WEXITSTATUS(st)) mc_fail(NULL, "ftwin%s fails on a readable tree", CMD);
    fstat(fd, &sb);
    NOUT = (size_t) sb.st_size;
    OUT = realloc(OUT, NOUT + 1);
    if (pread(fd, OUT, NOUT, 0) != (ssize_t) NOUT) { size_t o = 0; while (o < NOUT) { ssize_t r = pread(fd, OUT + o, NOUT - o, (off_t) o); if (r <= 0) mc_error("pread"); o += (size_t) r; } }
    OUT[NOUT] = 0;
    close(fd);
}
static long cntk(off_t size, int kind) { long n = 0; int i; for (i = 0; i < NF; i++) n += F[i].sel && F[i].size == size && F[i].kind == kind; return n; }
static void member(const char *p, bf_t **first, long *n)
{
    bf_t *b = find(p);
    if (!b) { mc_fail(NULL, "ftwin%s lists %.200s, which does not exist", CMD, p); return; }
    if (!b->sel) mc_fail(NULL, "ftwin%s lists %.200s, which is not in scope", CMD, p);
    if (b->seen++) mc_fail(NULL, "ftwin%s lists %.200s twice", CMD, p);
    if (!*first) *first = b;
    else if ((*first)->size != b->size || (*first)->kind != b->kind) mc_fail(NULL, "ftwin%s reports %.150s (%lld bytes) and %.150s (%lld bytes) as duplicates, but their contents differ", CMD, (*first)->path, (long long) (*first)->size, b->path, (long long) b->size);
    (*n)++;
}
static void group_end(const bf_t *first, long n)
{
    if (n < 2) mc_fail(NULL, "ftwin%s reports a group of %ld files", CMD, n);
    if (!mc_is("F01") && n != cntk(first->size, first->kind)) mc_fail(NULL, "ftwin%s lists %ld of the %ld identical files of %lld bytes like %.200s in one group", CMD, n, cntk(first->size, first->kind), (long long) first->size, first->path);
}
static void judge(int json)
{
    char *p = OUT; bf_t *first; long n, groups = 0; int i;
    qsort(F, (size_t) NF, sizeof *F, by_path);
    for (i = 0; i < NF; i++) F[i].seen = 0;
    if (!json) while (*p) {
        char *e = strstr(p, "\n\n"), *q;
        if (!e) { mc_fail(NULL, "ftwin%s: the report ends within a group", CMD); return; }
        *e = 0; first = NULL; n = 0;
        for (q = strtok(p, "\n"); q; q = strtok(NULL, "\n")) member(q, &first, &n);
        group_end(first, n); groups++;
        p = e + 2;
    }
    else {
        if (*p != '[') mc_fail(NULL, "ftwin%s: the report does not begin like an array", CMD);
        while ((p = strstr(p, "\"size_bytes\":")) != NULL) {
            long long sz = strtoll(p + 13, NULL, 10); char *e;
            first = NULL; n = 0;
            e = strstr(p + 5, "\"size_bytes\":");
            while ((p = strstr(p, "\"path\": \"")) != NULL && (!e || p < e)) { char *z = strchr(p += 9, '"'); if (!z) mc_fail(NULL, "ftwin%s: unfinished string", CMD); *z = 0; member(p, &first, &n); p = z + 1; }
            group_end(first, n); groups++;
            if (first && sz != (long long) first->size) mc_fail(NULL, "ftwin%s: %.150s has %lld bytes, reported %lld", CMD, first->path, (long long) first->size, sz);
            if (!e) break;
            p = e;
        }
    }
    if (!mc_is("F01")) for (i = 0; i < NF; i++) if (F[i].sel && !F[i].seen && (NF > 5000 ? 1 : cntk(F[i].size, F[i].kind) > 1)) {
        if (NF > 5000 && cntk(F[i].size, F[i].kind) < 2) continue;
        mc_fail(NULL, "ftwin%s does not report %.200s (%lld bytes) although an identical file is in scope", CMD, F[i].path, (long long) F[i].size);
    }
    mc_trace(1);
    mc_state(mc_hash(CMD, strlen(CMD), (uint64_t) groups * 131 + (uint64_t) NF));
    mc_outcome((uint64_t) groups * 1000003 + (uint64_t) NF);
}
static int av_opts(const char **av, int json, const char *threads) { int k = 0; av[k++] = "ftwin"; if (json) av[k++] = "-J"; if (threads) { av[k++] = "-j"; av[k++] = threads; } return k; }

static void huge(off_t s, int json)
{
    const char *av[8]; int k, ok; off_t m32 = s & 0xffffffffll, m31 = s & 0x7fffffff;
    if (!mc_sel_weighted(800)) return;
    mc_desc("files of %lld bytes", (long long) s);
    clear();
    ok = file("t/a", s, 0) && file("t/b", s, 0) && file("t/c", s, 1) && file("t/d", s, 2) && file("t/e", s - 1, 0) && file("t/f", s + 1, 0);
    if (m32 != s && m32 > 0 && m32 < 1 << 20) ok = ok && file("t/m", m32, 0);
    if (m31 != m32 && m31 > 0 && m31 < 1 << 20) ok = ok && file("t/n", m31, 0);
    if (!ok) { mc_note("no room for sparse files of %lld bytes", (long long) s); clear(); return; }
    k = av_opts(av, json, "2");
    av[k++] = "t";
    run(av, k); judge(json);
    clear();
}
/* two files that differ at one place only, compared without checksum */
static void huge_pair(off_t s, int kind)
{
    const char *av[8]; int k;
    if (!mc_sel_weighted(800)) return;
    mc_desc("two files of %lld bytes, difference kind %d", (long long) s, kind);
    clear();
    if (!file("t/a", s, 0) || !file("t/b", s, kind)) { clear(); return; }
    k = av_opts(av, 0, "1");
    av[k++] = "t";
    run(av, k); judge(0);
    clear();
}
static void many(int dirs, int per, int kinds, int json, int sizes)
{
    const char *av[8]; int k, i, j, n = 0; char p[64];
    if (!mc_sel_weighted(800)) return;
    mc_desc("%d directories of %d files", dirs, per);
    clear();
    for (i = 0; i < dirs; i++) {
        snprintf(p, sizeof p, "t/d%d", i); mkdir(p, 0755);
        for (j = 0; j < per; j++, n++) { snprintf(p, sizeof p, "t/d%d/f%d", i, j); if (!file(p, sizes ? 1 + n % sizes : 4, n % kinds)) mc_error("no room"); }
    }
    k = av_opts(av, json, "4");
    av[k++] = "t";
    run(av, k);
    judge(json);
    clear();
}
static void deep(int levels, int len, int json)
{
    const char *av[8]; int k, i, o; static char p[8192]; char base[300];
    if (!mc_sel_weighted(300)) return;
    mc_desc("%d levels of names of %d characters", levels, len);
    clear();
    o = sprintf(p, "t");
    for (i = 0; i < levels; i++) {
        memset(base, 'a' + i % 26, (size_t) len); base[len] = 0;
        o += sprintf(p + o, "/%s", base);
        if (mkdir(p, 0755)) mc_error("mkdir: %s", strerror(errno));
        strcpy(p + o, "/f");
        if (!file(p, 3, 0)) mc_error("file");
        strcpy(p + o, "/g");
        if (!file(p, 3, i & 1 ? 1 : 3)) mc_error("file");
        p[o] = 0;
    }
    k = av_opts(av, json, "2");
    av[k++] = "t";
    run(av, k); judge(json);
    clear();
}
static void args(int n, int json)
{
    const char **av = calloc((size_t) n + 8, sizeof *av); int k, i; char p[64]; char **nm = calloc((size_t) n, sizeof *nm);
    if (!mc_sel_weighted(300)) return;
    mc_desc("%d arguments", n);
    clear();
    k = av_opts(av, json, "3");
    for (i = 0; i < n; i++) { snprintf(p, sizeof p, "t/f%d", i); if (!file(p, 5 + i % 7, i % 3)) mc_error("file"); av[k++] = nm[i] = strdup(p); }
    run(av, k); judge(json);
    clear();
}
static void windows(void)
{
    static const off_t S[] = { 0x7fffffffll, 0x80000000ll, 0xffffffffll, 0x100000000ll, 0x100000001ll };
    static const char *const V[] = { NULL, "2147483647", "2147483648", "2G", "4294967295", "4G", "4294967297", "5G", "8589934592" };
    static const off_t N[] = { 0, 0x7fffffffll, 0x80000000ll, 0x80000000ll, 0xffffffffll, 0x100000000ll, 0x100000001ll, 5ll << 30, 1ll << 33 };
    int a, b, i, k; const char *av[12]; char p[16];
    for (a = 0; a < 9; a++) for (b = 0; b < 9; b++) {
        off_t total = 0;
        for (i = 0; i < 5; i++) if ((!a || S[i] >= N[a]) && (!b || S[i] <= N[b])) total += S[i];
        if (!mc_thorough && total > 0x100000001ll) continue;         /* each selected pair is read in full */
        if (!mc_sel_weighted(800)) continue;
        mc_desc("size window %s..%s", V[a] ? V[a] : "", V[b] ? V[b] : "");
        clear();
        file("t/x0", 3, 0); file("t/x1", 3, 0);
        for (i = 0; i < 5; i++) { sprintf(p, "t/a%d", i); if (!file(p, S[i], 0)) break; sprintf(p, "t/b%d", i); if (!file(p, S[i], 0)) break; }
        if (i < 5) { clear(); continue; }
        for (i = 0; i < NF; i++) F[i].sel = (!a || F[i].size >= N[a]) && (!b || F[i].size <= N[b]);
        for (i = k = 0; i < NF; i++) k += F[i].sel;
        if (!k) { clear(); continue; }                               /* nothing in scope: no report */
        k = av_opts(av, 0, NULL);
        if (a) { av[k++] = "-m"; av[k++] = V[a]; }
        if (b) { av[k++] = "-M"; av[k++] = V[b]; }
        av[k++] = "t";
        run(av, k); judge(0);
        clear();
    }
}
static void worker(void)
{
    int j, js = mc_is("F04");
    if (chdir(mc_dir)) mc_error("chdir");
    if (mc_is("F05")) { windows(); return; }
    for (j = js; j < 1 + js; j++) {
        huge(0x100000005ll, j);
        huge(0x80000003ll, j);
        many(70, 1000, 2, j, 0);
        many(20, 1000, 1, j, 9000);
        if (mc_is("F02")) many(2, 300, 3, j, 0);
        deep(15, 240, j); deep(250, 3, j); deep(60, 60, j);
        args(300, j); args(6000, j);
    }
    if (!js) { huge_pair(0x100000003ll, 1); huge_pair(0xfffffffdll, 2); huge_pair(0x80000000ll, 1); huge_pair(0x180000000ll, 3); huge_pair(0x100000000ll, 2); }
    if (mc_thorough) { huge(0x200000001ll, js); many(300, 1000, 3, js, 50); huge(0xffffffffll, js); }
}
int main(int argc, char **argv) { mc_init(argc, argv); return mc_run(worker); }
