/* Controlled scheduler: see schd.h.
 *
 * Threads are real; a token decides which one runs.  Mutexes, condition variables, read-write locks, joins and thread ends
 * are modelled here (the real primitives are only used for objects made before the scenario starts, which are never
 * contended because no scheduling point lies inside their critical sections).  The sources under test are compiled with
 * -fsanitize=thread and linked with the callbacks below instead of the sanitizer's runtime: a vector-clock happens-before
 * analysis finds the program locations of unordered conflicting accesses, and those become scheduling points as well. */
#define _GNU_SOURCE
#include "mc.h"
#include "schd.h"
#include <apr_pools.h>
#include <apr_hash.h>
#include <apr_file_io.h>
#include <apr_mmap.h>
#include <apr_tables.h>
#include <apr_strings.h>
#include <apr_proc_mutex.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#undef memcmp
#include <link.h>
#include <malloc.h>
#include <ucontext.h>
#include "xxhash.h"
#pragma clang section bss="schbss" data="schdata"     /* not part of the state of the program */

#define RA __builtin_return_address(0)
#define MAXT 6
#define MAXTHR 700        /* lean scenarios: many threads, one schedule per policy, no analysis of accesses */
#define MAXCP 30000
#define MAXDEV 60
typedef struct { uint8_t n, chosen, cur_ok; uint8_t alt[MAXT * 2]; } cp_t;
#define ACT_SPUR 32
#define ACT_SIG 64
#define NPC 4096
typedef struct {
    int ncp, status; uint64_t steps, outcome;       /* status: 0 running, 1 finished, 2 violation, 3 harness error */
    char msg[2048];
    _Atomic int npc; uintptr_t pc[NPC];
    cp_t cp[MAXCP];
} shr_t;
static shr_t *R;
static uintptr_t racy[NPC * 4];                     /* frozen set of racy locations */
static int nracy;
static uint8_t prefix[MAXCP]; static int nprefix;
static int step_cap = 60000;
#define NCACHE (1u << 23)
static _Atomic uint64_t *CA;                        /* shared by all workers */
static uint64_t scen_id, scen_salt; static int use_cache, base_pre, base_spur, base_sig;

static int active, nthr;
enum { RUN, B_MUTEX, B_COND, B_JOIN, B_RW_R, B_RW_W, DONE };
typedef struct { int st; void *obj; int target, woken, timed; char *sp, *base; _Atomic int tok; pthread_t pt; uint32_t vc[MAXT]; } thr_t;
static thr_t T[MAXTHR];
static int lean;                    /* 0 enumerate; else the policy of the one schedule: 1 go on until blocked, 2 next thread at every point, 3 highest, 4 lowest */
static int cur;
static __thread int me_ = -1;
int sch_me(void) { return me_; }

/* ---- real functions ---- */
static int (*r_lock)(pthread_mutex_t *), (*r_trylock)(pthread_mutex_t *), (*r_unlock)(pthread_mutex_t *), (*r_minit)(pthread_mutex_t *, const pthread_mutexattr_t *), (*r_mdestroy)(pthread_mutex_t *);
static int (*r_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *), (*r_join)(pthread_t, void **);
static ssize_t (*r_write)(int, const void *, size_t), (*r_pwrite)(int, const void *, size_t, off_t);
static off_t (*r_lseek)(int, off_t, int);
static void *(*r_mmap)(void *, size_t, int, int, int, off_t);
static int (*r_munmap)(void *, size_t);
static void real_init(void)
{
    static int done;
    if (done) return;
    done = 1;
#define G(v, n) *(void **) &v = dlsym(RTLD_NEXT, n)
    G(r_lock, "pthread_mutex_lock"); G(r_trylock, "pthread_mutex_trylock"); G(r_unlock, "pthread_mutex_unlock"); G(r_minit, "pthread_mutex_init"); G(r_mdestroy, "pthread_mutex_destroy");
    G(r_create, "pthread_create"); G(r_join, "pthread_join");
    G(r_write, "write"); G(r_pwrite, "pwrite64"); G(r_lseek, "lseek64"); G(r_mmap, "mmap64"); G(r_munmap, "munmap");
}

static void die(int st, const char *fmt, va_list a)
{
    R->status = st;
    vsnprintf(R->msg, sizeof R->msg, fmt, a);
    _exit(st == 2 ? 77 : 78);
}
void sch_fail(const char *fmt, ...) { va_list a; va_start(a, fmt); die(2, fmt, a); __builtin_unreachable(); }
static void herr(const char *fmt, ...) { va_list a; va_start(a, fmt); die(3, fmt, a); }
void sch_outcome(uint64_t h) { R->outcome = R->outcome * 31 + h; }

/* ---- modelled objects ---- */
typedef struct { void *a; int kind, owner, cnt, rec, nread; uint32_t vc[MAXT]; } obj_t;     /* kind: 1 controlled, 2 internal */
#define NOBJ 4096
static obj_t OBJ[NOBJ]; static obj_t *used[NOBJ]; static int nused;
static obj_t *obj(void *a, int make)
{
    uintptr_t h = (uintptr_t) a; unsigned i, k;
    h ^= h >> 15; h *= 0x9E3779B97F4A7C15ull; h >>= 40;
    for (k = 0, i = h % NOBJ; k < NOBJ; k++, i = (i + 1) % NOBJ) {
        if (OBJ[i].a == a) return &OBJ[i];
        if (!OBJ[i].a) { if (!make) return NULL; memset(&OBJ[i], 0, sizeof OBJ[i]); OBJ[i].a = a; OBJ[i].kind = make; OBJ[i].owner = -1; used[nused++] = &OBJ[i]; return &OBJ[i]; }
    }
    herr("too many synchronisation objects"); return NULL;
}
static void vc_join(uint32_t *d, const uint32_t *s) { int i; for (i = 0; i < MAXT; i++) if (s[i] > d[i]) d[i] = s[i]; }
static uint64_t mix(uint64_t a, uint64_t b) { a ^= b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2); a *= 0xBF58476D1CE4E5B9ull; return a ^ a >> 29; }
static void acq(obj_t *o) { if (me_ >= 0 && !lean) vc_join(T[me_].vc, o->vc); }
static void rel(obj_t *o) { if (me_ >= 0 && !lean) { vc_join(o->vc, T[me_].vc); T[me_].vc[me_]++; } }

/* ---- switching ---- */
static void tok_wait(int t) { while (!atomic_load(&T[t].tok)) syscall(SYS_futex, &T[t].tok, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0); atomic_store(&T[t].tok, 0); }
static void tok_give(int t) { cur = t; atomic_store(&T[t].tok, 1); syscall(SYS_futex, &T[t].tok, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0); }
static int enabled(int t)
{
    obj_t *o;
    switch (T[t].st) {
    case RUN: return 1;
    case B_MUTEX: o = obj(T[t].obj, 1); return o->owner < 0;
    case B_RW_W: o = obj(T[t].obj, 1); return o->owner < 0 && o->nread == 0;
    case B_RW_R: o = obj(T[t].obj, 1); return o->owner < 0;
    case B_COND: return T[t].woken;                 /* the mutex is taken again after waking */
    case B_JOIN: return T[T[t].target].st == DONE;
    default: return 0;
    }
}
static void where(char *b, size_t n)
{
    static const char *N[] = { "running", "blocked on a mutex", "blocked on a condition variable", "blocked joining a thread", "blocked on a read lock", "blocked on a write lock", "ended" };
    int t; b[0] = 0;
    for (t = 0; t < nthr && t < 12; t++) snprintf(b + strlen(b), n - strlen(b), "%sthread %d %s", t ? ", " : "", t, N[T[t].st]);
}
/* visited states with the number of preemptions used when they were first explored */
static int cache_visit(uint64_t key, int pre)        /* 1: explored before with as much budget left */
{
    uint64_t i, k, z;
    if (key == 0) key = 1;
    key &= ~(uint64_t) 15;
    for (i = (key >> 20) % NCACHE, k = 0; k < 200; k++, i = (i + 1) % NCACHE) {
        z = atomic_load(&CA[i]);
        if ((z & ~(uint64_t) 15) == key) {
            while ((int) (z & 15) > pre) if (atomic_compare_exchange_weak(&CA[i], &z, key | (uint64_t) pre)) return 0;
            return 1;
        }
        if (z == 0) { if (atomic_compare_exchange_strong(&CA[i], &z, key | (uint64_t) pre)) return 0; if ((z & ~(uint64_t) 15) == key) { i--; continue; } }
    }
    return 0;
}
/* The state of the program: its data, heap, stacks and registers, the synchronisation objects, file offsets and the
 * contents of mapped files.  Executions start from identical processes with identical addresses, so equal states have equal
 * hashes, and everything reachable from a state visited before has been or will be explored. */
extern char __data_start, _end, __start_schbss, __stop_schbss, __start_schdata, __stop_schdata;
static struct { char *a; size_t n; dev_t d; ino_t i; off_t off; int fd; } MP[64];
static struct { void *o; int t, wr; const char *what; } BUSY[64];
static struct { char *a, *e; } seg[64]; static int nseg;
static char *heap0; static char fbuf[1 << 20];
static uint64_t xx(const void *p, size_t n, uint64_t h) { return XXH3_64bits_withSeed(p, n, h); }
static uint64_t state_hash(uint64_t h)
{
    int i, t; uint64_t z[6], x;
    for (i = 0, x = 0; i < nseg; i++) x = xx(seg[i].a, (size_t) (seg[i].e - seg[i].a), x);
    h = mix(h, x);
    h = mix(h, xx(heap0, (size_t) ((char *) sbrk(0) - heap0), 0));
    for (t = 0, x = 0; t < nthr; t++) {
        z[0] = (uint64_t) (T[t].st * 16 + T[t].woken * 4 + T[t].timed); z[1] = (uintptr_t) T[t].obj; z[2] = (uint64_t) T[t].target; z[3] = (uintptr_t) T[t].sp;
        if (T[t].st != B_MUTEX && T[t].st != B_COND && T[t].st != B_RW_R && T[t].st != B_RW_W) z[1] = 0;
        if (T[t].st != B_JOIN) z[2] = 0;
        if (T[t].st == DONE) z[3] = 0;
        x = xx(z, 32, x);
        if (T[t].st != DONE && T[t].sp) x = xx(T[t].sp, (size_t) (T[t].base - T[t].sp), x);
    }
    h = mix(h, x);
    for (i = 0, x = 0; i < nused; i++) {
        z[0] = (uintptr_t) used[i]->a; z[1] = (uint64_t) used[i]->owner; z[2] = (uint64_t) used[i]->cnt; z[3] = (uint64_t) used[i]->nread;
        if (used[i]->kind == 1 && (used[i]->owner >= 0 || used[i]->nread)) x += xx(z, 32, 0);
    }
    for (i = 0; i < 64; i++) if (BUSY[i].what) { z[0] = (uintptr_t) BUSY[i].o; z[1] = (uint64_t) BUSY[i].t; z[2] = (uint64_t) BUSY[i].wr; x += xx(z, 24, 1); }
    for (i = 0; i < 40; i++) { z[1] = (uint64_t) syscall(SYS_lseek, i, 0L, SEEK_CUR); if (z[1] != (uint64_t) -1) { z[0] = (uint64_t) i; x += xx(z, 16, 2); } }
    for (i = 0; i < 64; i++) if (MP[i].a) {
        off_t o = 0; ssize_t k;
        while ((k = syscall(SYS_pread64, MP[i].fd, fbuf, sizeof fbuf, o)) > 0) { x += xx(fbuf, (size_t) k, (uint64_t) (i + 3)); o += k; }
    }
    return mix(h, x);
}
static int seg_cb(struct dl_phdr_info *in, size_t sz, void *d)
{
    int i; char *a, *e; (void) sz; (void) d;
    if (strstr(in->dlpi_name, "vdso")) return 0;
    for (i = 0; i < in->dlpi_phnum; i++) {
        const ElfW(Phdr) *p = &in->dlpi_phdr[i];
        if (p->p_type != PT_LOAD || !(p->p_flags & PF_W)) continue;
        a = (char *) in->dlpi_addr + p->p_vaddr; e = a + p->p_memsz;
        if (in->dlpi_name[0] && !strstr(in->dlpi_name, "libapr-1") && !strstr(in->dlpi_name, "libapru")) continue;
        if (!in->dlpi_name[0]) {        /* the program itself, without this scheduler */
            char *x[5]; int k;
            x[0] = &__start_schbss; x[1] = &__stop_schbss; x[2] = &__start_schdata; x[3] = &__stop_schdata;
            if (x[0] > x[2]) { char *y = x[0]; x[0] = x[2]; x[2] = y; y = x[1]; x[1] = x[3]; x[3] = y; }
            a = &__data_start; x[4] = &_end;
            if (x[1] > x[4]) x[4] = x[1];
            if (x[3] > x[4]) x[4] = x[3];
            for (k = 0; k <= 4; k += 2) { if (a < x[k]) { seg[nseg].a = a; seg[nseg++].e = x[k]; } a = k < 4 ? x[k + 1] : a; }
            continue;
        }
        if (nseg < 60) { seg[nseg].a = a; seg[nseg++].e = e; }
    }
    return 0;
}
static void state_visit(int kind)
{
    uint64_t h;
    if (R->ncp < nprefix) return;
    h = state_hash(mix((uint64_t) me_ * 8 + (uint64_t) kind, scen_salt));
    mc_state(h);
    if (!use_cache) return;
    if (cache_visit(mix(mix(h, (uint64_t) base_spur), (uint64_t) base_sig), base_pre)) { R->status = 4; _exit(0); }
}
static int decide(const uint8_t *alt, int n, int dflt, int cur_ok)
{
    cp_t *c; int i, a = dflt;
    if (n <= 1) return n ? alt[0] : dflt;
    if (R->ncp >= MAXCP) herr("too many choice points");
    state_visit(cur_ok);
    c = &R->cp[R->ncp];
    c->n = (uint8_t) n; c->cur_ok = (uint8_t) cur_ok; memcpy(c->alt, alt, (size_t) n);
    if (R->ncp < nprefix) {
        a = prefix[R->ncp];
        for (i = 0; i < n && alt[i] != a; i++);
        if (i == n) herr("the execution is not reproducible: choice %d not possible at point %d", a, R->ncp);
    }
    c->chosen = (uint8_t) a;
    R->ncp++;
    return a;
}
/* choose who goes on; the calling thread keeps or loses the token (it has set its own state) */
void reschedule(int must_leave);
/* run f(a) with clean registers and a clean stack; its stack starts at *base */
void *call_clean(void *(*f)(void *), void *a, char **base);
__asm__(".text\n.type call_clean,@function\ncall_clean:\n push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n sub $8,%rsp\n mov %rsp,(%rdx)\n mov %rdi,%r8\n"
        " lea -65536(%rsp),%rdi\n mov $8192,%ecx\n xor %eax,%eax\n rep stosq\n mov %rsi,%rdi\n xor %ebx,%ebx\n xor %ebp,%ebp\n xor %r12d,%r12d\n xor %r13d,%r13d\n xor %r14d,%r14d\n xor %r15d,%r15d\n xor %esi,%esi\n xor %edx,%edx\n xor %ecx,%ecx\n xor %r9d,%r9d\n xor %r10d,%r10d\n xor %r11d,%r11d\n call *%r8\n"
        " add $8,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n.size call_clean,.-call_clean\n");
/* what the scheduler left below the stack pointer would show up in later frames as noise */
__asm__(".text\n.type stack_wipe,@function\nstack_wipe:\n lea -8192(%rsp),%rdi\n mov $1020,%ecx\n xor %eax,%eax\n rep stosq\n ret\n.size stack_wipe,.-stack_wipe\n");
int pick_sig(const uint8_t *alt, int n);
__asm__(".text\n.type reschedule,@function\nreschedule:\n push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n sub $8,%rsp\n movq $0,(%rsp)\n mov %rsp,%rsi\n call resched_c\n"
        " call stack_wipe\n add $8,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n.size reschedule,.-reschedule\n"
        ".type pick_sig,@function\npick_sig:\n push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n sub $8,%rsp\n movq $0,(%rsp)\n mov %rsp,%rdx\n call pick_sig_c\n"
        " add $8,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n.size pick_sig,.-pick_sig\n");
__attribute__((used)) int pick_sig_c(const uint8_t *alt, int n, char *sp) { T[me_].sp = sp; return decide(alt, n, alt[0], 2); }
static void lean_switch(int must_leave)
{
    int me = me_, k, t, a = -1; char b[512];
    if (lean == 1 && !must_leave && enabled(me)) return;
    if (lean <= 2) for (k = 1; k <= nthr && a < 0; k++) { t = (me + k) % nthr; if ((t != me || !must_leave) && enabled(t)) a = t; }
    else for (k = 0; k < nthr && a < 0; k++) { t = lean == 3 ? nthr - 1 - k : k; if ((t != me || !must_leave) && enabled(t)) a = t; }
    if (a < 0 && enabled(me)) a = me;
    if (a < 0) for (t = 0; t < nthr; t++) if (T[t].st == B_COND && T[t].timed) { T[t].woken = 1; a = t; break; }
    if (a < 0) { where(b, sizeof b); sch_fail("deadlock: %s", b); }
    if (a == me) return;
    tok_give(a);
    if (T[me].st == DONE) return;
    tok_wait(me);
}
__attribute__((used)) void resched_c(int must_leave, char *sp)
{
    uint8_t alt[MAXT * 2]; int n = 0, t, k, a, me = me_, cur_ok, dflt;
    char b[512];
    if (++R->steps > (uint64_t) step_cap) { where(b, sizeof b); sch_fail("the execution does not end: %d steps, %s", step_cap, b); }
    T[me].sp = sp;
    if (lean) { lean_switch(must_leave); return; }
    cur_ok = !must_leave && enabled(me);
    if (cur_ok) alt[n++] = (uint8_t) me;
    for (k = 1; k <= nthr; k++) { t = (me + k) % nthr; if (t != me && enabled(t)) alt[n++] = (uint8_t) t; }
    if (must_leave && enabled(me) && n == 0) alt[n++] = (uint8_t) me;       /* a yield with nobody else to run */
    if (n == 0) {
        for (t = 0; t < nthr; t++) if (T[t].st == B_COND && T[t].timed) { T[t].woken = 1; alt[n++] = (uint8_t) t; break; }
    }
    if (n == 0) { where(b, sizeof b); sch_fail("deadlock: %s", b); }
    for (t = 0; t < nthr; t++) if (T[t].st == B_COND && !T[t].woken) alt[n++] = (uint8_t) (ACT_SPUR + t);
    dflt = alt[0];
    a = decide(alt, n, dflt, cur_ok);
    if (a >= ACT_SPUR) { a -= ACT_SPUR; T[a].woken = 2; }
    if (a == me) return;
    tok_give(a);
    if (T[me].st == DONE) return;
    tok_wait(me);
}
static int on(void) { return active && me_ >= 0 && nthr > 1; }
void sch_point(void) { if (on()) reschedule(0); }

/* ---- mutexes ---- */
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *at)
{
    obj_t *o; int ty = 0;
    real_init();
    o = obj(m, active ? 1 : 2);
    o->kind = active ? 1 : 2; o->owner = -1; o->cnt = 0;
    if (at && pthread_mutexattr_gettype(at, &ty) == 0) o->rec = ty == PTHREAD_MUTEX_RECURSIVE; else o->rec = 0;
    return r_minit(m, at);
}
int pthread_mutex_destroy(pthread_mutex_t *m)
{
    obj_t *o = obj(m, 0);
    real_init();
    if (active && o && o->kind == 1) { if (o->owner >= 0) return EBUSY; o->cnt = 0; return 0; }
    return r_mdestroy(m);
}
static void mtx_take(obj_t *o, void *m)
{
    while (o->owner >= 0) {
        if (o->owner == me_ && o->rec) break;
        T[me_].st = B_MUTEX; T[me_].obj = m;
        reschedule(0);
        T[me_].st = RUN;
    }
    o->owner = me_; o->cnt++;
    acq(o);
}
int pthread_mutex_lock(pthread_mutex_t *m)
{
    obj_t *o; int r;
    real_init();
    if (!active || me_ < 0) return r_lock(m);
    o = obj(m, 1);
    if (o->kind == 2) { r = r_lock(m); acq(o); return r; }
    if (nthr > 1 && !(o->owner == me_ && o->rec)) reschedule(0);
    if (nthr == 1 && o->owner == me_ && !o->rec) sch_fail("deadlock: a thread locks a mutex it already holds");
    mtx_take(o, m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
    obj_t *o;
    real_init();
    if (!active || me_ < 0) return r_trylock(m);
    o = obj(m, 1);
    if (o->kind == 2) { int r = r_trylock(m); acq(o); return r; }
    if (nthr > 1) reschedule(0);
    if (o->owner >= 0 && !(o->owner == me_ && o->rec)) return EBUSY;
    o->owner = me_; o->cnt++; acq(o);
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { (void) ts; return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    obj_t *o;
    real_init();
    if (!active || me_ < 0) return r_unlock(m);
    o = obj(m, 1);
    if (o->kind == 2) { rel(o); return r_unlock(m); }
    rel(o);
    if (o->owner < 0) return 0;
    if (--o->cnt <= 0) { o->owner = -1; o->cnt = 0; }
    return 0;
}
/* ---- condition variables ---- */
static void acc(uintptr_t a, size_t n, int wr, uintptr_t pc);
static int is_racy(uintptr_t pc);
/* waiting and signalling under the same mutex are ordered by it; otherwise their order is a choice of the schedule */
static void cond_touch(void *c, void *ra)
{
    if (nthr <= 1) return;
    if (is_racy((uintptr_t) ra)) reschedule(0);
    acc((uintptr_t) c, 8, 1, (uintptr_t) ra);
}
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, int timed, void *ra)
{
    obj_t *o, *om; int r = 0;
    if (!active || me_ < 0) { herr("condition variable used outside a scenario"); }
    o = obj(c, 1); om = obj(m, 1);
    cond_touch(c, ra);
    rel(om);
    om->owner = -1; om->cnt = 0;
    T[me_].st = B_COND; T[me_].obj = c; T[me_].woken = 0; T[me_].timed = timed;
    reschedule(1);
    if (timed && T[me_].woken == 2) r = ETIMEDOUT;
    T[me_].st = RUN; T[me_].woken = 0; T[me_].timed = 0;
    acq(o);
    mtx_take(om, m);
    return r;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void) a; memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *c) { (void) c; return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, 0, RA); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { (void) t; return cond_wait(c, m, 1, RA); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { (void) t; (void) k; return cond_wait(c, m, 1, RA); }
static int cond_wake(pthread_cond_t *c, int all, void *ra)
{
    obj_t *o; int t, k, n = 0, first = -1, last = -1; uint8_t alt[MAXT];
    if (!active || me_ < 0) return 0;
    o = obj(c, 1);
    cond_touch(c, ra);
    rel(o);
    for (k = 1; k <= nthr; k++) { t = (me_ + k) % nthr; if (T[t].st == B_COND && T[t].obj == c && !T[t].woken) { if (first < 0) first = t; last = t; if (all) T[t].woken = 1; else if (!lean) alt[n++] = (uint8_t) (ACT_SIG + t); } }
    if (lean && !all && first >= 0) T[lean == 3 ? last : first].woken = 1;
    if (n) { int a = pick_sig(alt, n) - ACT_SIG; T[a].woken = 1; }
    return 0;
}
int pthread_cond_signal(pthread_cond_t *c) { return cond_wake(c, 0, RA); }
int pthread_cond_broadcast(pthread_cond_t *c) { return cond_wake(c, 1, RA); }
/* ---- read-write locks ---- */
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *a) { obj_t *o = obj(l, 1); (void) a; memset(l, 0, sizeof *l); o->owner = -1; o->nread = 0; return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *l) { (void) l; return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l)
{
    obj_t *o = obj(l, 1);
    if (!active || me_ < 0) { o->nread++; return 0; }
    if (nthr > 1) reschedule(0);
    while (o->owner >= 0) { T[me_].st = B_RW_R; T[me_].obj = l; reschedule(0); T[me_].st = RUN; }
    o->nread++; acq(o);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l)
{
    obj_t *o = obj(l, 1);
    if (!active || me_ < 0) { o->owner = 0; return 0; }
    if (nthr > 1) reschedule(0);
    while (o->owner >= 0 || o->nread) { T[me_].st = B_RW_W; T[me_].obj = l; reschedule(0); T[me_].st = RUN; }
    o->owner = me_; acq(o);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { obj_t *o = obj(l, 1); if (on()) reschedule(0); if (o->owner >= 0) return EBUSY; o->nread++; acq(o); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { obj_t *o = obj(l, 1); if (on()) reschedule(0); if (o->owner >= 0 || o->nread) return EBUSY; o->owner = me_ < 0 ? 0 : me_; acq(o); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l) { obj_t *o = obj(l, 1); rel(o); if (o->owner >= 0) o->owner = -1; else if (o->nread) o->nread--; return 0; }
/* ---- process locks (one semaphore or shared mutex each: they exclude threads as well) ---- */
apr_status_t apr_proc_mutex_lock(apr_proc_mutex_t *m)
{
    static apr_status_t (*f)(apr_proc_mutex_t *); obj_t *o;
    if (!f) *(void **) &f = dlsym(RTLD_NEXT, "apr_proc_mutex_lock");
    if (!active || me_ < 0) return f(m);
    o = obj(m, 1);
    if (nthr > 1) reschedule(0); else if (o->owner == me_) sch_fail("deadlock: a thread takes a lock it already holds");
    mtx_take(o, m);
    return APR_SUCCESS;
}
apr_status_t apr_proc_mutex_trylock(apr_proc_mutex_t *m)
{
    static apr_status_t (*f)(apr_proc_mutex_t *); obj_t *o;
    if (!f) *(void **) &f = dlsym(RTLD_NEXT, "apr_proc_mutex_trylock");
    if (!active || me_ < 0) return f(m);
    o = obj(m, 1);
    if (nthr > 1) reschedule(0);
    if (o->owner >= 0) return APR_EBUSY;
    o->owner = me_; o->cnt = 1; acq(o);
    return APR_SUCCESS;
}
apr_status_t apr_proc_mutex_unlock(apr_proc_mutex_t *m)
{
    static apr_status_t (*f)(apr_proc_mutex_t *); obj_t *o;
    if (!f) *(void **) &f = dlsym(RTLD_NEXT, "apr_proc_mutex_unlock");
    if (!active || me_ < 0) return f(m);
    o = obj(m, 1);
    rel(o); o->owner = -1; o->cnt = 0;
    return APR_SUCCESS;
}
/* ---- threads ---- */
int sch_alive(void) { int t, n = 0; for (t = 1; t < nthr; t++) n += T[t].st != DONE; return n; }
typedef struct { int t; void *(*f)(void *); void *a; } start_t;
static start_t ST[MAXTHR];
static void thr_done(void *x)
{
    int t = (int) (intptr_t) x;
    T[t].st = DONE;
    reschedule(1);
    me_ = -1;
}
static void *thr_main(void *x)
{
    start_t s = *(start_t *) x; void *r;
    me_ = s.t;
    tok_wait(s.t);
    pthread_cleanup_push(thr_done, (void *) (intptr_t) s.t);
    r = call_clean(s.f, s.a, &T[s.t].base);
    pthread_cleanup_pop(1);
    return r;
}
int pthread_create(pthread_t *pt, const pthread_attr_t *at, void *(*f)(void *), void *a)
{
    start_t *s; int t, r;
    real_init();
    if (!active || me_ < 0) return r_create(pt, at, f, a);
    if (nthr >= (lean ? MAXTHR : MAXT)) herr("too many threads");
    t = nthr;
    s = &ST[t];
    s->t = t; s->f = f; s->a = a;
    memset(&T[t], 0, sizeof T[t]);
    T[t].st = RUN;
    if (!lean) { if (nthr == 1) T[me_].vc[me_]++; vc_join(T[t].vc, T[me_].vc); T[t].vc[t]++; T[me_].vc[me_]++; }
    r = r_create(pt, at, thr_main, s);
    if (r) return r;
    T[t].pt = *pt;
    nthr++;
    reschedule(0);
    return 0;
}
int pthread_join(pthread_t pt, void **ret)
{
    int t, r;
    real_init();
    if (!active || me_ < 0) return r_join(pt, ret);
    for (t = 1; t < nthr; t++) if (pthread_equal(T[t].pt, pt)) break;
    if (t == nthr) return ESRCH;
    while (T[t].st != DONE) { T[me_].st = B_JOIN; T[me_].target = t; reschedule(0); T[me_].st = RUN; }
    if (!lean) vc_join(T[me_].vc, T[t].vc);
    r = r_join(pt, ret);
    T[t].pt = 0;
    return r;
}
static int yield(void) { if (!on()) return 0; reschedule(1); return 1; }
int sched_yield(void) { yield(); return 0; }
int usleep(useconds_t u) { if (!yield() && !active) { struct timespec t = { u / 1000000, (long) (u % 1000000) * 1000 }; return nanosleep(&t, NULL); } return 0; }
unsigned sleep(unsigned u) { if (!yield() && !active) { struct timespec t = { u, 0 }; nanosleep(&t, NULL); } return 0; }
void apr_sleep(apr_interval_time_t t) { if (!yield() && !active) usleep((useconds_t) t); }
void apr_thread_yield(void) { yield(); }

/* ---- happens-before analysis ---- */
typedef struct { uint32_t clk; uint32_t mask; uintptr_t pc; } ep_t;
typedef struct { uintptr_t g; ep_t r[MAXT], w[MAXT]; } gran_t;
#define NGR (1u << 16)
static gran_t *GR;
static unsigned ngr;
static void note_pc(uintptr_t pc)
{
    int i, n = R->npc;
    for (i = 0; i < nracy; i++) if (racy[i] == pc) return;
    for (i = 0; i < n; i++) if (R->pc[i] == pc) return;
    if (n < NPC) { R->pc[n] = pc; R->npc = n + 1; }
}
static int is_racy(uintptr_t pc)
{
    int lo = 0, hi = nracy - 1, m;
    while (lo <= hi) { m = (lo + hi) / 2; if (racy[m] == pc) return 1; if (racy[m] < pc) lo = m + 1; else hi = m - 1; }
    return 0;
}
static void acc(uintptr_t a, size_t n, int wr, uintptr_t pc)
{
    uintptr_t g, e = a + n; int t, me = me_;
    if (lean) return;
    for (g = a & ~(uintptr_t) 7; g < e; g += 8) {
        unsigned i, k; uint8_t m = 0xff; gran_t *q;
        uint64_t h = g >> 12; h ^= h >> 13; h *= 0x9E3779B97F4A7C15ull; h >>= 44; h = h * 512 + (g >> 3 & 511);      /* neighbours stay neighbours */
        if (g < a) m &= (uint8_t) (0xff << (a - g));
        if (g + 8 > e) m &= (uint8_t) (0xff >> (g + 8 - e));
        for (k = 0, i = (unsigned) h % NGR; k < NGR; k++, i = (i + 1) % NGR) if (GR[i].g == g || !GR[i].g) break;
        q = &GR[i];
        if (!q->g) { if (++ngr > NGR * 3 / 4) herr("race table full"); q->g = g; }
        for (t = 0; t < nthr; t++) {
            if (t == me) continue;
            if (q->w[t].clk > T[me].vc[t] && (q->w[t].mask & m)) { note_pc(pc); note_pc(q->w[t].pc); }
            if (wr && q->r[t].clk > T[me].vc[t] && (q->r[t].mask & m)) { note_pc(pc); note_pc(q->r[t].pc); }
        }
        { ep_t *x = wr ? &q->w[me] : &q->r[me]; if (x->clk == T[me].vc[me]) x->mask |= m; else x->mask = m; x->clk = T[me].vc[me]; x->pc = pc; }
    }
}
static int own_stack(const void *a);
static void access_(void *a, size_t n, int wr, void *ra)
{
    if (!on() || !n) return;
    if (n >= 2048 && own_stack(a)) return;             /* large local buffers */
    if (is_racy((uintptr_t) ra)) reschedule(0);
    acc((uintptr_t) a, n, wr, (uintptr_t) ra);
}
#define ACCF(sz) void __tsan_read##sz(void *a) { access_(a, sz, 0, RA); } void __tsan_write##sz(void *a) { access_(a, sz, 1, RA); } \
    void __tsan_unaligned_read##sz(void *a) { access_(a, sz, 0, RA); } void __tsan_unaligned_write##sz(void *a) { access_(a, sz, 1, RA); } \
    void __tsan_read_write##sz(void *a) { access_(a, sz, 1, RA); } void __tsan_unaligned_read_write##sz(void *a) { access_(a, sz, 1, RA); } \
    void __tsan_volatile_read##sz(void *a) { access_(a, sz, 0, RA); } void __tsan_volatile_write##sz(void *a) { access_(a, sz, 1, RA); }
ACCF(1) ACCF(2) ACCF(4) ACCF(8) ACCF(16)
void __tsan_read_range(void *a, size_t n) { access_(a, n, 0, RA); }
void __tsan_write_range(void *a, size_t n) { access_(a, n, 1, RA); }
void __tsan_func_entry(void *p) { (void) p; }
void __tsan_func_exit(void) { }
void __tsan_init(void) { }
void __tsan_vptr_update(void **p, void *v) { (void) p; (void) v; }
void __tsan_vptr_read(void **p) { (void) p; }
void __tsan_ignore_thread_begin(void) { }
void __tsan_ignore_thread_end(void) { }
static void *rng(void *d, const void *s, size_t n, uintptr_t ra, int move)
{
    if (on() && n) {
        uintptr_t w = ra + 1;                        /* source and destination are told apart */
        acc((uintptr_t) s, n, 0, ra); acc((uintptr_t) d, n, 1, w);
        if ((is_racy(ra) || is_racy(w))) {
            reschedule(0);
            if (n > 8 && !(move && (char *) d < (const char *) s + n && (const char *) s < (char *) d + n)) {
                size_t h = (n / 2 + 7) & ~(size_t) 7;
                memcpy(d, s, h);
                reschedule(0);
                acc((uintptr_t) s, n, 0, ra); acc((uintptr_t) d, n, 1, w);
                memcpy((char *) d + h, (const char *) s + h, n - h);
                return d;
            }
        }
    }
    return move ? memmove(d, s, n) : memcpy(d, s, n);
}
void *__tsan_memcpy(void *d, const void *s, size_t n) { return rng(d, s, n, (uintptr_t) RA, 0); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return rng(d, s, n, (uintptr_t) RA, 1); }
void *__tsan_memset(void *d, int c, size_t n) { access_(d, n, 1, RA); return memset(d, c, n); }
int mc_memcmp(const void *a, const void *b, size_t n) { access_((void *) a, n, 0, RA); access_((void *) b, n, 0, RA); return memcmp(a, b, n); }
/* atomic operations: each is a scheduling point and orders what precedes and follows it */
static void at_(void *a) { if (on()) { obj_t *o = obj(a, 1); reschedule(0); acq(o); rel(o); } }
#define ATOM(bits, ty) \
ty __tsan_atomic##bits##_load(const volatile ty *a, int mo) { (void) mo; at_((void *) a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##bits##_store(volatile ty *a, ty v, int mo) { (void) mo; at_((void *) a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
ty __tsan_atomic##bits##_exchange(volatile ty *a, ty v, int mo) { (void) mo; at_((void *) a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
ty __tsan_atomic##bits##_fetch_add(volatile ty *a, ty v, int mo) { (void) mo; at_((void *) a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
ty __tsan_atomic##bits##_fetch_sub(volatile ty *a, ty v, int mo) { (void) mo; at_((void *) a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
ty __tsan_atomic##bits##_fetch_and(volatile ty *a, ty v, int mo) { (void) mo; at_((void *) a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
ty __tsan_atomic##bits##_fetch_or(volatile ty *a, ty v, int mo) { (void) mo; at_((void *) a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
ty __tsan_atomic##bits##_fetch_xor(volatile ty *a, ty v, int mo) { (void) mo; at_((void *) a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
ty __tsan_atomic##bits##_fetch_nand(volatile ty *a, ty v, int mo) { (void) mo; at_((void *) a); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *a, ty *c, ty v, int mo, int fmo) { (void) mo; (void) fmo; at_((void *) a); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *a, ty *c, ty v, int mo, int fmo) { (void) mo; (void) fmo; at_((void *) a); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *a, ty c, ty v, int mo, int fmo) { (void) mo; (void) fmo; at_((void *) a); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void) mo; }
void __tsan_atomic_signal_fence(int mo) { (void) mo; }
apr_uint32_t apr_atomic_read32(volatile apr_uint32_t *m) { at_((void *) m); return *m; }
void apr_atomic_set32(volatile apr_uint32_t *m, apr_uint32_t v) { at_((void *) m); *m = v; }
apr_uint32_t apr_atomic_add32(volatile apr_uint32_t *m, apr_uint32_t v) { at_((void *) m); return __atomic_fetch_add(m, v, __ATOMIC_SEQ_CST); }
void apr_atomic_sub32(volatile apr_uint32_t *m, apr_uint32_t v) { at_((void *) m); __atomic_fetch_sub(m, v, __ATOMIC_SEQ_CST); }
apr_uint32_t apr_atomic_inc32(volatile apr_uint32_t *m) { at_((void *) m); return __atomic_fetch_add(m, 1, __ATOMIC_SEQ_CST); }
int apr_atomic_dec32(volatile apr_uint32_t *m) { at_((void *) m); return (int) __atomic_sub_fetch(m, 1, __ATOMIC_SEQ_CST); }
apr_uint32_t apr_atomic_cas32(volatile apr_uint32_t *m, apr_uint32_t w, apr_uint32_t c) { at_((void *) m); __atomic_compare_exchange_n(m, &c, w, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
apr_uint32_t apr_atomic_xchg32(volatile apr_uint32_t *m, apr_uint32_t v) { at_((void *) m); return __atomic_exchange_n(m, v, __ATOMIC_SEQ_CST); }

/* ---- library objects that only one thread may use at a time: overlapping use is shown by interleaving at their entry ---- */
#define NBUSY 64
static int busy_enter(void *o, int wr, const char *what, void *ra)
{
    int i, s = -1;
    if (!on() || !o) return -1;
    acc((uintptr_t) o, 8, wr, (uintptr_t) ra);
    for (i = 0; i < NBUSY; i++) {
        if (!BUSY[i].what) { if (s < 0) s = i; continue; }
        if (BUSY[i].o == o && BUSY[i].t != me_ && (wr || BUSY[i].wr))
            sch_fail("threads %d and %d use the same %s at the same time without any lock (%s)", BUSY[i].t, me_, what, BUSY[i].what);
    }
    if (!is_racy((uintptr_t) ra) || s < 0) return -1;
    BUSY[s].o = o; BUSY[s].t = me_; BUSY[s].wr = wr; BUSY[s].what = what;
    reschedule(0);
    return s;
}
static void busy_leave(int s) { if (s >= 0) BUSY[s].what = NULL; }
#define WRAP(ret, name, params, args, objx, wr, what) \
ret name params { static ret (*f) params; int s; ret v; if (!f) *(void **) &f = dlsym(RTLD_NEXT, #name); \
    s = busy_enter((void *) (objx), wr, what, RA); v = f args; busy_leave(s); return v; }
WRAP(void *, apr_palloc, (apr_pool_t *p, apr_size_t n), (p, n), p, 1, "memory pool")
#undef apr_pcalloc
WRAP(void *, apr_pcalloc, (apr_pool_t *p, apr_size_t n), (p, n), p, 1, "memory pool")
WRAP(char *, apr_pstrdup, (apr_pool_t *p, const char *s_), (p, s_), p, 1, "memory pool")
WRAP(char *, apr_pstrmemdup, (apr_pool_t *p, const char *s_, apr_size_t n), (p, s_, n), p, 1, "memory pool")
WRAP(char *, apr_pstrndup, (apr_pool_t *p, const char *s_, apr_size_t n), (p, s_, n), p, 1, "memory pool")
WRAP(void *, apr_pmemdup, (apr_pool_t *p, const void *s_, apr_size_t n), (p, s_, n), p, 1, "memory pool")
WRAP(apr_status_t, apr_file_open, (apr_file_t **n, const char *f_, apr_int32_t fl, apr_fileperms_t pr, apr_pool_t *p), (n, f_, fl, pr, p), p, 1, "memory pool")
WRAP(apr_status_t, apr_mmap_create, (apr_mmap_t **n, apr_file_t *f_, apr_off_t o, apr_size_t l, apr_int32_t fl, apr_pool_t *p), (n, f_, o, l, fl, p), p, 1, "memory pool")
WRAP(apr_status_t, apr_dir_open, (apr_dir_t **n, const char *f_, apr_pool_t *p), (n, f_, p), p, 1, "memory pool")
WRAP(apr_status_t, apr_file_mktemp, (apr_file_t **n, char *f_, apr_int32_t fl, apr_pool_t *p), (n, f_, fl, p), p, 1, "memory pool")
WRAP(apr_status_t, apr_filepath_merge, (char **n, const char *a, const char *b, apr_int32_t fl, apr_pool_t *p), (n, a, b, fl, p), p, 1, "memory pool")
WRAP(apr_hash_t *, apr_hash_make, (apr_pool_t *p), (p), p, 1, "memory pool")
WRAP(apr_array_header_t *, apr_array_make, (apr_pool_t *p, int n, int sz), (p, n, sz), p, 1, "memory pool")
WRAP(void *, apr_array_push, (apr_array_header_t *a), (a), a, 1, "array")
WRAP(void *, apr_hash_get, (apr_hash_t *h, const void *k, apr_ssize_t n), (h, k, n), h, 0, "hash table")
WRAP(unsigned, apr_hash_count, (apr_hash_t *h), (h), h, 0, "hash table")
void apr_hash_set(apr_hash_t *h, const void *k, apr_ssize_t n, const void *v)
{
    static void (*f)(apr_hash_t *, const void *, apr_ssize_t, const void *); int s;
    if (!f) *(void **) &f = dlsym(RTLD_NEXT, "apr_hash_set");
    s = busy_enter(h, 1, "hash table", RA); f(h, k, n, v); busy_leave(s);
}
void apr_hash_clear(apr_hash_t *h)
{
    static void (*f)(apr_hash_t *); int s;
    if (!f) *(void **) &f = dlsym(RTLD_NEXT, "apr_hash_clear");
    s = busy_enter(h, 1, "hash table", RA); f(h); busy_leave(s);
}
char *apr_psprintf(apr_pool_t *p, const char *fmt, ...)
{
    va_list a; int s; char *v;
    va_start(a, fmt);
    s = busy_enter(p, 1, "memory pool", RA); v = apr_pvsprintf(p, fmt, a); busy_leave(s);
    va_end(a);
    return v;
}

char *apr_pstrcat(apr_pool_t *p, ...)
{
    va_list a, b; int s; size_t n = 1; const char *x; char *v;
    va_start(a, p); va_copy(b, a);
    s = busy_enter(p, 1, "memory pool", RA);
    while ((x = va_arg(a, const char *))) n += strlen(x);
    v = apr_palloc(p, n); v[0] = 0;
    while ((x = va_arg(b, const char *))) strcat(v, x);
    busy_leave(s);
    va_end(a); va_end(b);
    return v;
}

/* ---- files and their mappings ---- */
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t off)
{
    void *p; int i; struct stat st;
    real_init();
    p = (void *) syscall(SYS_mmap, a, n, pr, fl, fd, off);
    if (active && fd >= 0 && p != MAP_FAILED && (fl & MAP_SHARED) && fstat(fd, &st) == 0 && S_ISREG(st.st_mode))
        for (i = 0; i < 64; i++) if (!MP[i].a) { MP[i].a = p; MP[i].n = n; MP[i].d = st.st_dev; MP[i].i = st.st_ino; MP[i].off = off; MP[i].fd = fcntl(fd, F_DUPFD_CLOEXEC, 600); break; }
    return p;
}
void *mmap64(void *a, size_t n, int pr, int fl, int fd, off_t off) { return mmap(a, n, pr, fl, fd, off); }
int munmap(void *a, size_t n)
{
    int i;
    for (i = 0; i < 64; i++) if (MP[i].a == a) MP[i].a = NULL;
    return (int) syscall(SYS_munmap, a, n);
}
static int fd_acc(int fd, off_t at, size_t n, uintptr_t pc)     /* returns 1 if the write is racy */
{
    struct stat st; int i, r = 0;
    if (!on() || fstat(fd, &st) || !S_ISREG(st.st_mode)) return 0;
    acc((uintptr_t) 0x1000 + (uintptr_t) st.st_ino * 64 + (uintptr_t) st.st_dev * 7919 * 64, 8, 1, pc + 2);
    for (i = 0; i < 64; i++) if (MP[i].a && MP[i].d == st.st_dev && MP[i].i == st.st_ino && at >= MP[i].off && (size_t) (at - MP[i].off) < MP[i].n) {
        size_t m = n, o = (size_t) (at - MP[i].off);
        if (o + m > MP[i].n) m = MP[i].n - o;
        acc((uintptr_t) MP[i].a + o, m, 1, pc);
        r = is_racy(pc);
    }
    return r || is_racy(pc + 2);
}
static ssize_t wr(int fd, const void *b, size_t n, off_t at, int pos, void *ra)
{
    uintptr_t pc = (uintptr_t) ra; ssize_t k, j;
    off_t o = pos ? at : (on() ? syscall(SYS_lseek, fd, 0L, SEEK_CUR) : 0);
    if (fd_acc(fd, o, n, pc)) {
        size_t h = n > 16 ? (n / 2 + 7) & ~(size_t) 7 : n;
        reschedule(0);
        k = pos ? syscall(SYS_pwrite64, fd, b, h, at) : syscall(SYS_write, fd, b, h);
        if (h == n || k != (ssize_t) h) return k;
        reschedule(0);
        fd_acc(fd, o, n, pc);
        j = pos ? syscall(SYS_pwrite64, fd, (const char *) b + h, n - h, at + (off_t) h) : syscall(SYS_write, fd, (const char *) b + h, n - h);
        return j < 0 ? k : k + j;
    }
    return pos ? syscall(SYS_pwrite64, fd, b, n, at) : syscall(SYS_write, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) { return wr(fd, b, n, 0, 0, RA); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t at) { return wr(fd, b, n, at, 1, RA); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t at) { return wr(fd, b, n, at, 1, RA); }
static int own_stack(const void *a) { char here; return me_ >= 0 && (const char *) a > &here - 256 && (const char *) a < T[me_].base; }
static ssize_t rd(int fd, void *b, size_t n, off_t at, int pos, void *ra)
{
    ssize_t k; uintptr_t pc = (uintptr_t) ra + 3;
    if (on() && !own_stack(b) && is_racy(pc)) reschedule(0);
    k = pos ? syscall(SYS_pread64, fd, b, n, at) : syscall(SYS_read, fd, b, n);
    if (on() && k > 0 && !own_stack(b)) acc((uintptr_t) b, (size_t) k, 1, pc);
    return k;
}
ssize_t read(int fd, void *b, size_t n) { return rd(fd, b, n, 0, 0, RA); }
ssize_t pread(int fd, void *b, size_t n, off_t at) { return rd(fd, b, n, at, 1, RA); }
ssize_t pread64(int fd, void *b, size_t n, off_t at) { return rd(fd, b, n, at, 1, RA); }
static off_t seek_(int fd, off_t o, int w, void *ra)
{
    struct stat st;
    if (on() && fstat(fd, &st) == 0 && S_ISREG(st.st_mode)) {
        uintptr_t pc = (uintptr_t) ra;
        acc((uintptr_t) 0x1000 + (uintptr_t) st.st_ino * 64 + (uintptr_t) st.st_dev * 7919 * 64, 8, 1, pc);
        if (is_racy(pc)) reschedule(0);
    }
    return syscall(SYS_lseek, fd, o, w);
}
/* the vendored hash is not instrumented: its reads of the caller's memory and its use of the caller's state are seen here */
typedef struct { uint64_t lo, hi; } h128_;
h128_ __real_XXH3_128bits(const void *, size_t);
int __real_XXH3_128bits_update(void *, const void *, size_t), __real_XXH3_128bits_reset(void *);
h128_ __real_XXH3_128bits_digest(const void *);
static void hin(const void *b, size_t n, void *ra) { if (n && !own_stack(b)) access_((void *) b, n, 0, ra); }
h128_ __wrap_XXH3_128bits(const void *b, size_t n) { hin(b, n, RA); return __real_XXH3_128bits(b, n); }
int __wrap_XXH3_128bits_update(void *st, const void *b, size_t n) { hin(b, n, RA); access_(st, 64, 1, RA); return __real_XXH3_128bits_update(st, b, n); }
int __wrap_XXH3_128bits_reset(void *st) { access_(st, 64, 1, RA); return __real_XXH3_128bits_reset(st); }
h128_ __wrap_XXH3_128bits_digest(const void *st) { access_((void *) st, 64, 0, RA); return __real_XXH3_128bits_digest(st); }
off_t lseek(int fd, off_t o, int w) { return seek_(fd, o, w, RA); }
off_t lseek64(int fd, off_t o, int w) { return seek_(fd, o, w, RA); }

/* ---- enumeration ---- */
static const scen_t *SC;
static uint64_t nexec, npruned; static int root_cp;
#define MSTACK (1u << 20)
static char *mstack;
static void *main_f(void *x) { (void) x; SC->fn(SC->par); return NULL; }
static void main_thr(void)
{
    call_clean(main_f, NULL, &T[0].base);
    active = 0;
    R->status = 1;
    _exit(0);
}
static void child(void)
{
    static ucontext_t uc;
    getcontext(&uc); uc.uc_stack.ss_sp = mstack; uc.uc_stack.ss_size = MSTACK; uc.uc_link = NULL;
    struct sigaction sa; (void) sa;
    alarm(lean ? 120 : 20);
    me_ = 0; nthr = 1; cur = 0;
    memset(T, 0, sizeof T);
    T[0].st = RUN; T[0].vc[0] = 1;
    GR = r_mmap ? (gran_t *) syscall(SYS_mmap, NULL, sizeof(gran_t) * NGR, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0L) : NULL;
    active = 1;
    makecontext(&uc, main_thr, 0);
    setcontext(&uc);
    _exit(79);
}
typedef struct { int ok, pruned; char msg[2300]; } res_t;
static void run_one(res_t *res)
{
    pid_t p; int st;
    R->ncp = 0; R->status = 0; R->steps = 0; R->outcome = 0; R->msg[0] = 0;
    fflush(NULL);
    p = fork();
    if (p == 0) child();
    if (p < 0) mc_error("fork failed");
    while (waitpid(p, &st, 0) < 0) if (errno != EINTR) mc_error("waitpid failed");
    nexec++;
    res->ok = 1; res->pruned = 0;
    if (R->status == 4) { res->pruned = 1; npruned++; return; }
    if (R->status == 3) mc_error("%s: %s", SC->name, R->msg);
    if (R->status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
    res->ok = 0;
    if (R->status == 2) snprintf(res->msg, sizeof res->msg, "%s", R->msg);
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) snprintf(res->msg, sizeof res->msg, "the execution hangs outside any synchronisation operation");
    else if (WIFSIGNALED(st)) snprintf(res->msg, sizeof res->msg, "the program crashes (signal %d)", WTERMSIG(st));
    else snprintf(res->msg, sizeof res->msg, "the program ends with status %d", WEXITSTATUS(st));
}
typedef struct { int at, act; } dev_t_;
static void describe(const dev_t_ *d, int nd)
{
    int i;
    mc_desc("%s", SC->name);
    for (i = 0; i < SC->npar; i++) mc_desc_add("%s%d", i ? "," : " (", SC->par[i]);
    if (SC->npar) mc_desc_add(")");
    mc_desc_add(nd ? ": the first runnable thread goes on until it blocks, except at choice" : lean == 1 ? ": each thread goes on until it blocks" : lean == 2 ? ": the next thread goes on at every point" : lean == 3 ? ": the youngest runnable thread goes on at every point" : lean == 4 ? ": the oldest runnable thread goes on at every point" : ": default schedule");
    for (i = 0; i < nd; i++) mc_desc_add(" %d %s %d", d[i].at, d[i].act >= ACT_SIG ? "signal wakes thread" : d[i].act >= ACT_SPUR ? "spurious wake-up of thread" : "switch to thread", d[i].act & 31);
}
static void add_cost(const cp_t *c, int act, int *pre, int *spur, int *sig)
{
    if (act >= ACT_SIG) { if (act != c->alt[0]) ++*sig; }
    else if (act >= ACT_SPUR) { ++*spur; if (c->cur_ok == 1) ++*pre; }
    else if (c->cur_ok == 1 && act != c->alt[0]) ++*pre;
}
static int learn_from(void)                /* take over newly found racy locations; returns how many */
{
    int i, j, n = R->npc;
    for (i = 0; i < n; i++) {
        uintptr_t x = R->pc[i];
        if (nracy >= NPC) mc_error("too many racy locations");
        for (j = nracy; j > 0 && racy[j - 1] > x; j--) racy[j] = racy[j - 1];
        racy[j] = x; nracy++;
    }
    R->npc = 0;
    return n;
}
static int late;
/* Budget of the quick tier.  The tree as it is stays far below it; code whose accesses are no longer ordered by locks has many more
   scheduling points, and then an answer within bounds that are stated as not exhausted is worth more than none. */
static int eff_pre, strikes, out_of_time; static double scen_until, t_start; static uint64_t base_idx;
static double tnow(void) { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return (double) t.tv_sec + (double) t.tv_nsec / 1e9; }
static int over(void) { if (!out_of_time && !mc_thorough && !mc_replaying() && tnow() > scen_until) out_of_time = 1; return out_of_time; }
#define RECBUF (256u << 20)
static char *recbuf; static size_t rectop; static int the_pid;
static void *ralloc(size_t n) { void *p = recbuf + rectop; rectop += (n + 15) & ~(size_t) 15; if (rectop > RECBUF) mc_error("too deep"); return p; }
/* explore everything that deviates from the run in R->cp at or after `from` */
static void rec(int from, dev_t_ *dv, int nd, int pre, int spur, int sig)
{
    int n = R->ncp, i, k; cp_t *c;
    uint8_t *chosen; res_t res; size_t top; uint64_t cnt = 1;
    if (nd >= MAXDEV) { mc_cap("number of deviations"); return; }
    /* keep this run's choices */
    top = rectop; c = ralloc(sizeof(cp_t) * (size_t) (n - from + 1)); chosen = ralloc((size_t) n + 1);
    memcpy(c, R->cp + from, sizeof(cp_t) * (size_t) (n - from));
    for (i = 0; i < n; i++) chosen[i] = R->cp[i].chosen;
    for (i = from; i < n; i++) for (k = 0; k < c[i - from].n; k++) {
        int a = c[i - from].alt[k], p2 = pre, s2 = spur, g2 = sig, mine = 1;
        if (a == chosen[i]) continue;
        add_cost(&c[i - from], a, &p2, &s2, &g2);
        if (p2 > eff_pre || s2 > SC->spur || g2 > SC->sig) continue;
        if (over()) { rectop = top; return; }
        dv[nd].at = i; dv[nd].act = a;
        if (nd == 0) {
            uint64_t b = base_idx + (cnt << 20);
            mc_seek(b + cnt); cnt++;
            if (!mc_wanted(b, b + (1 << 20))) continue;
        }
        if (nd <= 1) mine = mc_sel();
        if (nd == 1 && !mine) continue;
        memcpy(prefix, chosen, (size_t) i); prefix[i] = (uint8_t) a; nprefix = i + 1;
        use_cache = nd >= 1; base_pre = p2; base_spur = s2; base_sig = g2;
        run_one(&res);
        use_cache = 0;
        if (mine || nd > 1) {
            describe(dv, nd + 1);
            mc_eval(1); mc_trans(R->steps); if (!res.pruned) mc_trace(1);
            if (!res.ok) mc_fail(NULL, "%s", res.msg);
            if (!res.pruned) mc_outcome(R->outcome);
        }
        if (R->npc) { late += R->npc; R->npc = 0; }
        if (!res.ok) continue;
        rec(i + 1, dv, nd + 1, p2, s2, g2);
    }
    rectop = top;
}
void sch_init(void)            /* before the workers are started */
{
    fcntl(0, F_DUPFD_CLOEXEC, 1000);      /* a grown descriptor table is inherited: growing one with threads running waits for the kernel */
    CA = (_Atomic uint64_t *) syscall(SYS_mmap, NULL, sizeof(uint64_t) * NCACHE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0L);
    mstack = (char *) syscall(SYS_mmap, NULL, MSTACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0L);
    recbuf = (char *) syscall(SYS_mmap, NULL, RECBUF, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0L);
    mallopt(M_ARENA_MAX, 1); mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 1 << 30); mallopt(M_TOP_PAD, 1 << 16);
    free(malloc(100));
    heap0 = (char *) ((uintptr_t) sbrk(0) & ~(uintptr_t) 4095);
    { FILE *f = fopen("/proc/self/maps", "r"); char l[400]; void *a, *b; if (f) { while (fgets(l, sizeof l, f)) if (strstr(l, "[heap]") && sscanf(l, "%p-%p", &a, &b) == 2) heap0 = a; fclose(f); } }
    dl_iterate_phdr(seg_cb, NULL);
    the_pid = (int) syscall(SYS_getpid);
}
pid_t getpid(void) { return active ? the_pid : (pid_t) syscall(SYS_getpid); }
static void explore_to(const scen_t *s, int bound, double secs, int pass)      /* everything with at most `bound` preemptions */
{
    res_t res; dev_t_ dv[MAXDEV + 1]; int round, n, i, k, mine;
    SC = s; nracy = 0; R->npc = 0; late = 0; eff_pre = bound; out_of_time = 0; scen_until = tnow() + secs;
    base_idx = (scen_id << 32) + ((uint64_t) pass << 31);
    if (!mc_wanted(base_idx, base_idx + (1ull << 31))) return;
    mc_seek(base_idx + scen_id);
    scen_salt = scen_id * 2 + (uint64_t) pass;
    /* find the racy locations: default schedule and all schedules with one deviation, until nothing new turns up */
    for (round = 0; round < 8; round++) {
        cp_t *c; uint8_t *ch;
        nprefix = 0;
        run_one(&res);
        if (learn_from()) continue;
        if (!res.ok) break;
        n = R->ncp;
        rectop = 0; c = ralloc(sizeof(cp_t) * (size_t) (n + 1)); ch = ralloc((size_t) n + 1);
        memcpy(c, R->cp, sizeof(cp_t) * (size_t) n);
        for (i = 0; i < n; i++) ch[i] = c[i].chosen;
        for (i = 0; i < n && !over(); i++) for (k = 0; k < c[i].n; k++) {
            int p = 0, sp = 0, sg = 0;
            if (c[i].alt[k] == ch[i]) continue;
            add_cost(&c[i], c[i].alt[k], &p, &sp, &sg);
            if (p > bound || sp > s->spur || sg > s->sig) continue;
            memcpy(prefix, ch, (size_t) i); prefix[i] = c[i].alt[k]; nprefix = i + 1;
            run_one(&res);
        }
        rectop = 0;
        if (!learn_from()) break;
    }
    if (round == 8) mc_cap("racy locations still found after 8 rounds");
    nprefix = 0;
    mine = mc_sel();
    run_one(&res);
    describe(dv, 0);
    if (mine) { mc_eval(1); mc_trans(R->steps); mc_trace(1); if (!res.ok) mc_fail(NULL, "%s", res.msg); mc_outcome(R->outcome); mc_sample("%s: %d choice points, %d racy locations", s->name, R->ncp, nracy); }
    if (!res.ok) return;
    root_cp = R->ncp;
    rec(0, dv, 0, 0, 0, 0);
    if (getenv("SCHED_LOG")) { FILE *f = fopen(getenv("SCHED_LOG"), "a"); if (f) { fprintf(f, "%ld %s", (long) time(NULL), s->name); for (i = 0; i < s->npar; i++) fprintf(f, " %d", s->par[i]); fprintf(f, ": pre %d, %d points, %d racy, %llu runs %llu pruned, %.1f s%s\n", bound, root_cp, nracy, (unsigned long long) nexec, (unsigned long long) npruned, tnow() - scen_until + secs, out_of_time ? " CUT" : ""); fclose(f); } }
    nexec = npruned = 0;
    if (late && mine) mc_note("%s: %d racy locations found only at depth 2 or more", s->name, late);
}
#define SCEN_S 60
#define ALL_S 420
void sch_explore(const scen_t *s)
{
    res_t res; dev_t_ dv[1]; double spent; int bound = s->preempt;
    real_init();
    if (!R) { R = (shr_t *) syscall(SYS_mmap, NULL, sizeof *R, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0L); }
    if (t_start == 0) t_start = tnow();
    scen_id++;
    if (!mc_wanted(scen_id << 32, (scen_id + 1) << 32)) return;
    lean = s->lean; step_cap = lean ? 3000000 : 60000;
    if (lean) {
        mc_seek((scen_id << 32) + scen_id);
        SC = s; nracy = 0; R->npc = 0; nprefix = 0; scen_salt = scen_id * 2;
        if (!mc_sel()) return;
        run_one(&res);
        describe(dv, 0);
        mc_eval(1); mc_trans(R->steps); mc_trace(1); mc_state(mix(scen_id, (uint64_t) lean)); if (!res.ok) mc_fail(NULL, "%s", res.msg); mc_outcome(R->outcome);
        return;
    }
    if (mc_thorough || mc_replaying()) {
        explore_to(s, bound, 0, 0);
        if (mc_replaying()) explore_to(s, bound > 1 ? 1 : bound, 0, 1);
        return;
    }
    spent = tnow() - t_start;
    if (spent > ALL_S + 120) { explore_to(s, 0, 0, 0); }
    else if (spent > ALL_S) { explore_to(s, bound > 1 ? 1 : bound, 3, 1); }
    else {
        explore_to(s, bound, strikes > 3 ? 15 : SCEN_S / (1 + strikes), 0);
        if (out_of_time && bound > 1) { mc_cap("time for one scenario"); strikes++; explore_to(s, 1, SCEN_S / (1 + strikes), 1); }
    }
    if (out_of_time) { mc_cap("time for one scenario"); strikes++; }
}
