#define _GNU_SOURCE
#include "mc.h"
#include <sys/prctl.h>
#include <signal.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#ifdef __clang__
#pragma clang section bss="schbss" data="schdata"     /* see schd.c */
#endif
#define MAXW 64
#define DESC 16384
#define TBL (1u << 22)
#define NSAMP 12

int mc_thorough;
const char *mc_prop = "?";
const char *mc_dir;
const char *mc_datadir = "";

typedef struct
{
    _Atomic uint64_t index, started_ms, limit_s;
    _Atomic int active;
    char desc[DESC];
} slot_t;

typedef struct
{
    _Atomic uint64_t evals, trans, traces, states, outcomes, cases;
    _Atomic int viol, capped, nsamp, error, nnotes, known;
    char vkey[256], vmsg[DESC], vdesc[DESC], cap[256], errmsg[1024];
    uint64_t vindex;
    char samples[NSAMP][1024];
    char notes[8][256];
    _Atomic int known_hits[64];
    slot_t slot[MAXW];
    _Atomic uint64_t st[TBL], oc[TBL];
} shm_t;

static shm_t *S;
static int W = 1, me, njobs;
static uint64_t idx, only = UINT64_MAX;
static unsigned hang_s = 60;
static char out_path[1024], replay_path[1024], base_dir[512], my_dir[600];
static char *known_keys[64];
static int nknown;
static double t0;

static double now(void)
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec / 1e9;
}
static uint64_t now_ms(void)
{
    return (uint64_t) (now() * 1000);
}

static int rm_cb(const char *p, const struct stat *s, int t, struct FTW *f)
{
    (void) s; (void) t; (void) f;
    if (t == FTW_DP || t == FTW_D || t == FTW_DNR) { chmod(p, 0700); rmdir(p); }
    else unlink(p);
    return 0;
}

static void cleanup_dir(const char *d)
{
    if (strncmp(d, "/dev/shm/ftwmc.", 15) && strncmp(d, "/tmp/ftwmc.", 11)) return;
    nftw(d, rm_cb, 64, FTW_DEPTH | FTW_PHYS);
}

static int my_tracee(int argc, char **argv, int i, const char *n)
{
    return i + 1 < argc && !strcmp(argv[i], n);
}

void mc_init(int argc, char **argv)
{
    int i;
    struct statvfs sv;
    t0 = now();
    njobs = (int) sysconf(_SC_NPROCESSORS_ONLN);
    if (njobs < 1) njobs = 1;
    if (njobs > 16) njobs = 16;
    for (i = 1; i < argc; i++) {
        if (my_tracee(argc, argv, i, "--tier")) mc_thorough = !strcmp(argv[++i], "thorough");
        else if (my_tracee(argc, argv, i, "--prop")) mc_prop = argv[++i];
        else if (my_tracee(argc, argv, i, "--jobs")) njobs = atoi(argv[++i]);
        else if (my_tracee(argc, argv, i, "--only")) only = strtoull(argv[++i], NULL, 10);
        else if (my_tracee(argc, argv, i, "--out")) snprintf(out_path, sizeof out_path, "%s", argv[++i]);
        else if (my_tracee(argc, argv, i, "--replay")) snprintf(replay_path, sizeof replay_path, "%s", argv[++i]);
        else if (my_tracee(argc, argv, i, "--data")) mc_datadir = argv[++i];
        else if (my_tracee(argc, argv, i, "--known")) { if (nknown < 64) known_keys[nknown++] = argv[++i]; }
    }
    if (only != UINT64_MAX) njobs = 1;
    if (njobs > MAXW) njobs = MAXW;
    W = njobs;
    S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); exit(2); }
    if (statvfs("/dev/shm", &sv) == 0 && (double) sv.f_bavail * sv.f_frsize > 3e9 && access("/dev/shm", W_OK) == 0)
        snprintf(base_dir, sizeof base_dir, "/dev/shm/ftwmc.XXXXXX");
    else
        snprintf(base_dir, sizeof base_dir, "/tmp/ftwmc.XXXXXX");
    if (!mkdtemp(base_dir)) { perror("mkdtemp"); exit(2); }
    chmod(base_dir, 0755);
    mc_dir = base_dir;
}

int mc_is(const char *p) { return !strcmp(mc_prop, p); }
uint64_t mc_index(void) { return idx - 1; }
void mc_watch(unsigned s) { hang_s = s; }
void mc_seek(uint64_t i) { idx = i; }
int mc_wanted(uint64_t from, uint64_t to) { return only == UINT64_MAX || (only >= from && only < to); }
int mc_replaying(void) { return only != UINT64_MAX; }

int mc_sel_weighted(unsigned t)
{
    uint64_t i = idx++;
    if (only != UINT64_MAX ? i != only : (i % (uint64_t) W) != (uint64_t) me) return 0;
    atomic_fetch_add(&S->cases, 1);
    S->slot[me].desc[0] = 0;
    S->slot[me].index = i;
    S->slot[me].limit_s = !mc_thorough && t > 400 ? 400 : t;    /* quick: leave time for a second try */
    S->slot[me].started_ms = now_ms();
    S->slot[me].active = 1;
    return 1;
}
int mc_sel(void) { return mc_sel_weighted(hang_s); }

void mc_desc(const char *fmt, ...)
{
    va_list a;
    va_start(a, fmt);
    vsnprintf(S->slot[me].desc, DESC, fmt, a);
    va_end(a);
}
void mc_desc_add(const char *fmt, ...)
{
    size_t l = strlen(S->slot[me].desc);
    va_list a;
    va_start(a, fmt);
    if (l < DESC - 1) vsnprintf(S->slot[me].desc + l, DESC - l, fmt, a);
    va_end(a);
}
const char *mc_desc_get(void) { return S->slot[me].desc; }

static void record(const char *key, const char *msg, int w)
{
    int z = 0;
    if (!atomic_compare_exchange_strong(&S->viol, &z, 1)) return;
    snprintf(S->vkey, sizeof S->vkey, "%s", key ? key : "");
    snprintf(S->vmsg, sizeof S->vmsg, "%s", msg);
    snprintf(S->vdesc, sizeof S->vdesc, "%s", S->slot[w].desc);
    S->vindex = S->slot[w].index;
}

void mc_fail(const char *key, const char *fmt, ...)
{
    char buf[DESC];
    va_list a;
    int i;
    va_start(a, fmt);
    vsnprintf(buf, sizeof buf, fmt, a);
    va_end(a);
    for (i = 0; key && i < nknown; i++)
        if (!strcmp(known_keys[i], key)) {
            atomic_fetch_add(&S->known_hits[i], 1);
            return;
        }
    record(key, buf, me);
    _exit(77);
}

void mc_error(const char *fmt, ...)
{
    va_list a;
    va_start(a, fmt);
    vsnprintf(S->errmsg, sizeof S->errmsg, fmt, a);
    va_end(a);
    S->error = 1;
    _exit(78);
}

void mc_eval(uint64_t n) { atomic_fetch_add(&S->evals, n); }
void mc_trans(uint64_t n) { atomic_fetch_add(&S->trans, n); }
void mc_trace(uint64_t n) { atomic_fetch_add(&S->traces, n); }

static int tbl_add(_Atomic uint64_t *t, uint64_t h, _Atomic uint64_t *cnt)
{
    uint64_t i, k, z;
    if (h == 0) h = 1;
    for (i = h & (TBL - 1), k = 0; k < 64; k++, i = (i + 1) & (TBL - 1)) {
        z = atomic_load_explicit(&t[i], memory_order_relaxed);
        if (z == h) return 0;
        if (z == 0) {
            if (atomic_compare_exchange_strong(&t[i], &z, h)) { atomic_fetch_add(cnt, 1); return 1; }
            if (z == h) return 0;
        }
    }
    return 0;                   /* table full: stop counting (the count is a lower bound) */
}
int mc_state(uint64_t h) { return tbl_add(S->st, h, &S->states); }
int mc_outcome(uint64_t h) { return tbl_add(S->oc, h, &S->outcomes); }

uint64_t mc_hash(const void *p, size_t n, uint64_t seed)
{
    const unsigned char *c = p;
    uint64_t h = seed ^ 0x9E3779B97F4A7C15ull;
    size_t i;
    for (i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001B3ull; h ^= h >> 29; }
    h ^= n; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
    return h;
}

void mc_sample(const char *fmt, ...)
{
    int n = atomic_fetch_add(&S->nsamp, 1);
    va_list a;
    if (n >= NSAMP) { S->nsamp = NSAMP; return; }
    va_start(a, fmt);
    vsnprintf(S->samples[n], sizeof S->samples[n], fmt, a);
    va_end(a);
}
void mc_note(const char *fmt, ...)
{
    int n = atomic_fetch_add(&S->nnotes, 1);
    va_list a;
    if (n >= 8) { S->nnotes = 8; return; }
    va_start(a, fmt);
    vsnprintf(S->notes[n], sizeof S->notes[n], fmt, a);
    va_end(a);
}
void mc_cap(const char *what)
{
    snprintf(S->cap, sizeof S->cap, "%s", what);
    S->capped = 1;
}

static void jstr(FILE *f, const char *s)
{
    fputc('"', f);
    for (; *s; s++) {
        unsigned char c = (unsigned char) *s;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c < 32 || c >= 127) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

static pid_t spawn(int w, void (*worker)(void))
{
    pid_t p;
    fflush(NULL);
    p = fork();
    if (p == 0) {
        struct rlimit rl = { 0, 0 };
        setpgid(0, 0);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        setrlimit(RLIMIT_CORE, &rl);
        me = w;
        idx = 0;
        snprintf(my_dir, sizeof my_dir, "%s/w%d", base_dir, w);
        mkdir(my_dir, 0777);
        mc_dir = my_dir;
        worker();
        S->slot[w].active = 0;
        _exit(0);
    }
    if (p > 0) setpgid(p, p);
    return p;
}

/* run the single case i alone with limit s seconds: 0 finished, 1 violation recorded, 2 timed out */
static int rerun(uint64_t i, unsigned s, void (*worker)(void))
{
    pid_t p;
    int st;
    double until = now() + s;
    uint64_t save = only;
    only = i;
    S->slot[0].active = 0;
    p = spawn(0, worker);
    for (;;) {
        if (waitpid(p, &st, WNOHANG) == p) break;
        if (now() > until) {
            kill(-p, SIGKILL);
            waitpid(p, &st, 0);
            only = save;
            return 2;
        }
        usleep(2000);
    }
    only = save;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    return 1;
}

static int report(int status)
{
    FILE *f;
    int i, rc;
    rc = S->error || status == 2 ? 2 : S->viol ? 1 : 0;
    if (out_path[0] && (f = fopen(out_path, "w"))) {
        fprintf(f, "{\"cases\": %llu, \"evaluations\": %llu, \"transitions\": %llu, \"traces\": %llu, \"states\": %llu, \"outcomes\": %llu, ",
                (unsigned long long) S->cases, (unsigned long long) S->evals, (unsigned long long) S->trans,
                (unsigned long long) S->traces, (unsigned long long) S->states, (unsigned long long) S->outcomes);
        fprintf(f, "\"capped\": %s, \"cap\": ", S->capped ? "true" : "false");
        jstr(f, S->cap);
        fprintf(f, ", \"viol\": %s, \"key\": ", rc == 1 ? "true" : "false");
        jstr(f, S->vkey);
        fprintf(f, ", \"msg\": ");
        jstr(f, S->vmsg);
        fprintf(f, ", \"desc\": ");
        jstr(f, S->vdesc);
        fprintf(f, ", \"index\": %llu, \"error\": ", (unsigned long long) S->vindex);
        jstr(f, S->errmsg);
        fprintf(f, ", \"wall\": %.3f, \"samples\": [", now() - t0);
        for (i = 0; i < S->nsamp && i < NSAMP; i++) { if (i) fputs(", ", f); jstr(f, S->samples[i]); }
        fprintf(f, "], \"notes\": [");
        for (i = 0; i < S->nnotes && i < 8; i++) { if (i) fputs(", ", f); jstr(f, S->notes[i]); }
        fprintf(f, "], \"known\": {");
        for (i = 0; i < nknown; i++) { if (i) fputs(", ", f); jstr(f, known_keys[i]); fprintf(f, ": %d", S->known_hits[i]); }
        fprintf(f, "}}\n");
        fclose(f);
    }
    if (rc == 1) fprintf(stderr, "violation: %s\n  case %llu: %s\n", S->vmsg, (unsigned long long) S->vindex, S->vdesc);
    if (rc == 2) fprintf(stderr, "harness error: %s\n", S->errmsg);
    cleanup_dir(base_dir);
    return rc;
}

int mc_run(void (*worker)(void))
{
    pid_t pid[MAXW];
    int w, left = W, st, status = 0;
    double t_begin = now();
    for (w = 0; w < W; w++) pid[w] = spawn(w, worker);
    while (left > 0) {
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            for (w = 0; w < W && pid[w] != p; w++) ;
            if (w == W) continue;
            pid[w] = 0;
            left--;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 78) break;
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 77)) {
                char msg[200];
                if (!S->slot[w].active) {
                    snprintf(S->errmsg, sizeof S->errmsg, "worker died outside a case (status 0x%x)", st);
                    S->error = 1;
                    break;
                }
                if (WIFSIGNALED(st))
                    snprintf(msg, sizeof msg, "the code under test died with signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
                else
                    snprintf(msg, sizeof msg, "the code under test ended the process with status %d (memory error or exit)", WEXITSTATUS(st));
                if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
                    /* killed from outside (memory): try once alone before blaming the code */
                    int r = rerun(S->slot[w].index, 300, worker);
                    if (r == 0) { snprintf(S->errmsg, sizeof S->errmsg, "worker killed from outside"); S->error = 1; break; }
                }
                record("", msg, w);
            }
            break;
        }
        for (w = 0; w < W; w++) {
            if (!pid[w] || !S->slot[w].active) continue;
            uint64_t s = S->slot[w].started_ms, l = S->slot[w].limit_s, lim;
            if (now_ms() > s + l * 1000) {
                char msg[200];
                uint64_t bad = S->slot[w].index;
                int r;
                /* stop everything, replay the case alone with a larger limit */
                for (int v = 0; v < W; v++) if (pid[v]) { kill(-pid[v], SIGKILL); kill(pid[v], SIGKILL); waitpid(pid[v], &st, 0); pid[v] = 0; }
                left = 0;
                lim = l * 3;
                if (!mc_thorough && (double) lim > 840 - (now() - t_begin)) lim = now() - t_begin < 640 ? (uint64_t) (840 - (now() - t_begin)) : 200;
                r = rerun(bad, (unsigned) lim, worker);
                if (r == 2) {
                    snprintf(msg, sizeof msg, "the code under test does not terminate (no end after %llu s, alone on the machine)", (unsigned long long) lim);
                    S->viol = 0;
                    record("", msg, 0);
                }
                else if (r == 1) {
                    if (!S->viol) record("", "the case fails when executed alone", 0);
                }
                else {
                    snprintf(S->errmsg, sizeof S->errmsg, "case %llu exceeded %llu s but ends alone: machine too slow", (unsigned long long) bad, (unsigned long long) l);
                    S->error = 1;
                }
                break;
            }
        }
        usleep(1000);
    }
    for (w = 0; w < W; w++)
        if (pid[w]) { kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); }
    return report(status);
}
