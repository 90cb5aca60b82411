/* T01, T02, D05, C02 (marking threads), F03 (worker schedules): all schedules of small multi-threaded programs over the real code. */
#include "mc.h"
#include "schd.h"
#include <apr_general.h>
#include <apr_pools.h>
#include <pthread.h>
#include <unistd.h>
#include <fcntl.h>
#include "napr_threadpool.h"
#include "napr_db.h"
#include "napr_cache.h"

/* ---- T01, T02 ---- */
#define MAXTASK 16
static int strict;   /* T01: wait is complete */
static int started[MAXTASK], finished[MAXTASK], added[MAXTASK], nadded, running_now, down, inner, failing, nest;
static napr_threadpool_t *TP;
static apr_status_t task(void *ctx, void *data)
{
    int i = (int) ((intptr_t) data - 1);
    if (ctx != &down) sch_fail("a task gets another context than the one given to the pool");
    if (i < 0 || i >= MAXTASK || !added[i]) sch_fail("a task runs with data never handed to the pool");
    if (down) sch_fail("task %d runs after shutdown returned", i);
    if (started[i]++) sch_fail("task %d is executed twice", i);
    running_now++;
    if (inner) sch_point();
    if (nest >> i & 1) { added[i + 8] = 1; if (napr_threadpool_add(TP, (void *) (intptr_t) (i + 9)) != APR_SUCCESS) sch_fail("adding a task from a task failed"); }
    running_now--;
    finished[i]++;
    return failing >> i & 1 ? APR_EGENERAL : APR_SUCCESS;
}
static void t_add(int n)
{
    while (n--) { int i = nadded++; added[i] = 1; if (napr_threadpool_add(TP, (void *) (intptr_t) (i + 1)) != APR_SUCCESS) sch_fail("adding a task failed"); }
}
static void t_wait(void)
{
    int i;
    if (napr_threadpool_wait(TP) != APR_SUCCESS) sch_fail("waiting failed");
    for (i = 0; strict && i < nadded; i++) {
        if (!started[i]) sch_fail("wait returns although task %d was not executed", i);
        if (!finished[i]) sch_fail("wait returns although task %d is still running", i);
    }
}
static void t_down(int all)
{
    int i;
    if (napr_threadpool_shutdown(TP) != APR_SUCCESS) sch_fail("shutdown failed");
    down = 1;
    if (running_now) sch_fail("a task is still running when shutdown returns");
    if (sch_alive()) sch_fail("a worker has not ended when shutdown returns");
    for (i = 0; i < nadded; i++) { if (strict && all && finished[i] != 1) sch_fail("task %d was executed %d times", i, finished[i]); sch_outcome((uint64_t) finished[i] + 1); }
}
static apr_pool_t *POOL;
static void t_start(int workers, int in)
{
    apr_pool_create(&POOL, NULL);
    inner = in;
    if (napr_threadpool_init(&TP, &down, (unsigned long) workers, task, POOL) != APR_SUCCESS) sch_fail("creating the pool failed");
}
/* par: workers, tasks, tasks of a second round (-1 none), waits in a row after each round, preemption inside tasks */
static void sc_t01(const int *p)
{
    int k;
    t_start(p[0], p[4]);
    t_add(p[1]);
    for (k = 0; k < p[3]; k++) t_wait();
    if (p[2] >= 0) { t_add(p[2]); for (k = 0; k < p[3]; k++) t_wait(); }
    t_down(1);
}
/* workers, tasks, wait first?, preemption inside tasks */
static void sc_t02(const int *p)
{
    t_start(p[0], p[3]);
    t_add(p[1]);
    if (p[2]) t_wait();
    t_down(p[2]);
}
/* workers, tasks, failing tasks (mask), tasks that add another one (mask) */
static void sc_misc(const int *p)
{
    int i;
    t_start(p[0], 0);
    failing = p[2]; nest = p[3];
    t_add(p[1]);
    t_wait();
    t_wait();
    for (i = 0; i < nadded; i++) if (strict && nest >> i & 1 && finished[i + 8] != 1) sch_fail("a task added by task %d was not executed", i);
    t_add(1);
    t_wait();
    t_down(1);
}
static void *waiter(void *x)
{
    int i = (int) (intptr_t) x;
    added[i] = 1;
    if (napr_threadpool_add(TP, (void *) (intptr_t) (i + 1)) != APR_SUCCESS) sch_fail("adding a task failed");
    if (napr_threadpool_wait(TP) != APR_SUCCESS) sch_fail("waiting failed");
    if (strict && finished[i] != 1) sch_fail("wait returns although task %d was %s", i, started[i] ? "still running" : "not executed");
    return NULL;
}
/* workers, rounds: two threads add and wait at the same time */
static void sc_wait2(const int *p)
{
    pthread_t a; int i;
    t_start(p[0], 0);
    nadded = 2 * p[1];
    for (i = 0; i < p[1]; i++) {
        pthread_create(&a, NULL, waiter, (void *) (intptr_t) (2 * i));
        waiter((void *) (intptr_t) (2 * i + 1));
        pthread_join(a, NULL);
    }
    t_down(1);
}
static int prod_n;
static void *producer(void *x) { int i, b = (int) (intptr_t) x; for (i = 0; i < prod_n; i++) { added[b + i] = 1; if (napr_threadpool_add(TP, (void *) (intptr_t) (b + i + 1)) != APR_SUCCESS) sch_fail("adding a task failed"); } return NULL; }
/* workers, tasks per producer: two threads add at the same time, then wait */
static void sc_prod(const int *p)
{
    pthread_t a;
    t_start(p[0], 0);
    prod_n = p[1]; nadded = 2 * p[1];
    pthread_create(&a, NULL, producer, (void *) 0);
    producer((void *) (intptr_t) p[1]);
    pthread_join(a, NULL);
    t_wait();
    t_down(1);
}
static int *many_runs, many_n, many_added;
static apr_status_t many_task(void *ctx, void *data)
{
    int i = (int) ((intptr_t) data - 1);
    if (ctx != &down) sch_fail("a task gets another context than the one given to the pool");
    if (i < 0 || i >= many_added) sch_fail("a task runs with data never handed to the pool");
    if (down) sch_fail("task %d runs after shutdown returned", i);
    if (many_runs[i]++) sch_fail("task %d is executed twice", i);
    return APR_SUCCESS;
}
/* workers, tasks, tasks per round */
static void sc_many(const int *p)
{
    int i, j;
    apr_pool_create(&POOL, NULL);
    many_n = p[1]; many_runs = calloc((size_t) many_n, sizeof *many_runs);
    if (napr_threadpool_init(&TP, &down, (unsigned long) p[0], many_task, POOL) != APR_SUCCESS) sch_fail("creating the pool failed");
    for (i = 0; i < many_n; i = j) {
        for (j = i; j < many_n && j < i + p[2]; j++) { many_added = j + 1; if (napr_threadpool_add(TP, (void *) (intptr_t) (j + 1)) != APR_SUCCESS) sch_fail("adding a task failed"); }
        if (napr_threadpool_wait(TP) != APR_SUCCESS) sch_fail("waiting failed");
        for (int k = 0; strict && k < j; k++) if (many_runs[k] != 1) sch_fail("wait returns although task %d was not executed", k);
    }
    if (napr_threadpool_shutdown(TP) != APR_SUCCESS) sch_fail("shutdown failed");
    down = 1;
    if (sch_alive()) sch_fail("a worker has not ended when shutdown returns");
    sch_outcome(1);
}
/* workers, tasks, wait first? : every size of pool and queue must do */
static void sc_wide(const int *p)
{
    int i;
    apr_pool_create(&POOL, NULL);
    many_n = p[1]; many_runs = calloc((size_t) many_n + 1, sizeof *many_runs);
    if (napr_threadpool_init(&TP, &down, (unsigned long) p[0], many_task, POOL) != APR_SUCCESS) sch_fail("creating the pool failed");
    if (sch_alive() != p[0]) sch_fail("the pool has %d workers instead of %d", sch_alive(), p[0]);
    if (p[2] > 1 && napr_threadpool_wait(TP) != APR_SUCCESS) sch_fail("waiting failed");
    for (i = 0; i < many_n; i++) { many_added = i + 1; if (napr_threadpool_add(TP, (void *) (intptr_t) (i + 1)) != APR_SUCCESS) sch_fail("adding a task failed"); }
    if (p[2]) {
        if (napr_threadpool_wait(TP) != APR_SUCCESS) sch_fail("waiting failed");
        for (i = 0; strict && i < many_n; i++) if (many_runs[i] != 1) sch_fail("wait returns although task %d was not executed", i);
    }
    if (napr_threadpool_shutdown(TP) != APR_SUCCESS) sch_fail("shutdown failed");
    down = 1;
    if (sch_alive()) sch_fail("a worker has not ended when shutdown returns");
    sch_outcome(1);
}
/* ---- D05 ----
 * Each thread runs a program of letters: U update transaction (stamp + 1 on every key), A updates and aborts, E an empty
 * write transaction that commits, R reader (looks three times: get, cursor, get), B reader that ends with abort.
 * After stamp s exactly the keys key_in(i, s) exist, all with stamp s. */
static napr_db_env_t *ENV;
static int NKEY, VSIZE, committed, starting, in_write, total_u;
static int key_in(int i, int s) { return i < NKEY - 2 || (i == NKEY - 2 ? s % 2 == 0 : s % 3 != 0); }
static const char *PROG[5];
static napr_db_val_t dk(char *b, int i) { napr_db_val_t k; k.size = (apr_size_t) sprintf(b, "key%02d", i); k.data = b; return k; }
static void dv(char *b, int i, int s) { int j; sprintf(b, "%08d", s); for (j = 8; j < VSIZE; j++) b[j] = (char) ('a' + (i * 7 + s * 3 + j) % 26); }
static void look_val(const napr_db_val_t *v, int i, int s, const char *who)
{
    char b[2500];
    dv(b, i, s);
    if (v->size != (apr_size_t) VSIZE) sch_fail("%s: a value of key %d has size %ld", who, i, (long) v->size);
    if (memcmp(v->data, b, (size_t) VSIZE)) sch_fail("%s sees key %d with value %.8s... where %.8s... belongs to its snapshot", who, i, (const char *) v->data, b);
}
static int look_get(napr_db_txn_t *t, int s, const char *who)      /* s < 0: find out */
{
    char kb[16]; int i; napr_db_val_t k, v; apr_status_t r;
    if (s < 0) {
        k = dk(kb, 0);
        if ((r = napr_db_get(t, &k, &v)) != APR_SUCCESS) sch_fail("%s: lookup of key 0 gives %d", who, (int) r);
        { char nb[9] = ""; if (v.size < 8) sch_fail("%s: a value is too short", who); memcpy(nb, v.data, 8); s = atoi(nb); }
    }
    for (i = 0; i < NKEY; i++) {
        k = dk(kb, i); memset(&v, 0, sizeof v);
        r = napr_db_get(t, &k, &v);
        if (r == APR_SUCCESS && !key_in(i, s)) sch_fail("%s sees key %d, which its snapshot (%d) does not have", who, i, s);
        if (r != APR_SUCCESS && key_in(i, s)) sch_fail("%s does not find key %d of its snapshot (%d): %d", who, i, s, (int) r);
        if (r == APR_SUCCESS) look_val(&v, i, s, who);
    }
    return s;
}
static void look_cursor(napr_db_txn_t *t, int s, const char *who)
{
    napr_db_cursor_t *c; napr_db_val_t k, v; apr_status_t r; int i, first = 1;
    if (napr_db_cursor_open(t, &c) != APR_SUCCESS) sch_fail("%s: cursor", who);
    for (i = 0; i < NKEY; i++) {
        char kb[16];
        if (!key_in(i, s)) continue;
        r = napr_db_cursor_get(c, &k, &v, first ? NAPR_DB_FIRST : NAPR_DB_NEXT);
        first = 0;
        if (r != APR_SUCCESS) sch_fail("%s: the scan of snapshot %d ends before key %d: %d", who, s, i, (int) r);
        sprintf(kb, "key%02d", i);
        if (k.size != 5 || memcmp(k.data, kb, 5)) sch_fail("%s: the scan of snapshot %d gives %.5s instead of key %d", who, s, (const char *) k.data, i);
        look_val(&v, i, s, who);
    }
    if (napr_db_cursor_get(c, &k, &v, NAPR_DB_NEXT) == APR_SUCCESS) sch_fail("%s: the scan of snapshot %d gives more keys than it has", who, s);
    napr_db_cursor_close(c);
}
static void write_keys(napr_db_txn_t *t, int from, int to)
{
    char kb[16], vb[2500]; int i; napr_db_val_t k, v; apr_status_t r;
    for (i = 0; i < NKEY; i++) {
        k = dk(kb, i);
        if (key_in(i, to)) { dv(vb, i, to); v.size = (apr_size_t) VSIZE; v.data = vb; if ((r = napr_db_put(t, &k, &v)) != APR_SUCCESS) sch_fail("put gives %d", (int) r); }
        else if (from >= 0 && key_in(i, from)) { if ((r = napr_db_del(t, &k, NULL)) != APR_SUCCESS) sch_fail("delete gives %d", (int) r); }
    }
}
static void do_update(int abort_)
{
    napr_db_txn_t *t; int s; apr_status_t r;
    if ((r = napr_db_txn_begin(ENV, 0, &t)) != APR_SUCCESS) sch_fail("beginning a write transaction gives %d", (int) r);
    if (in_write++) sch_fail("two write transactions are active at the same time");
    s = look_get(t, -1, "a writer");
    if (s != committed) sch_fail("a writer starts from state %d although %d was committed", s, committed);
    if (abort_ == 2) { in_write--; if (napr_db_txn_commit(t) != APR_SUCCESS) sch_fail("committing nothing fails"); return; }
    write_keys(t, s, s + 1);
    look_get(t, s + 1, "a writer");
    in_write--;
    if (abort_) { if ((r = napr_db_txn_abort(t)) != APR_SUCCESS) sch_fail("abort gives %d", (int) r); return; }
    if (s + 1 > starting) starting = s + 1;
    if ((r = napr_db_txn_commit(t)) != APR_SUCCESS) sch_fail("commit gives %d", (int) r);
    /* a writer that was waiting may already have committed on top */
    if (s + 1 > committed) committed = s + 1;
}
static void do_read(int abort_)
{
    napr_db_txn_t *t; int s, lo = committed, hi; apr_status_t r;
    if ((r = napr_db_txn_begin(ENV, NAPR_DB_RDONLY, &t)) != APR_SUCCESS) sch_fail("beginning a read transaction gives %d", (int) r);
    hi = starting;
    sch_point();
    s = look_get(t, -1, "a reader");
    if (s < lo) sch_fail("a reader sees state %d although %d was committed before it began", s, lo);
    if (s > hi) sch_fail("a reader sees state %d, which was committed after it began (%d)", s, hi);
    sch_point();
    look_cursor(t, s, "a reader");
    sch_point();
    look_get(t, s, "a reader");
    if (abort_) napr_db_txn_abort(t); else if (napr_db_txn_commit(t) != APR_SUCCESS) sch_fail("ending a reader fails");
    sch_outcome((uint64_t) s + 100);
}
static void run_prog(const char *p)
{
    for (; *p; p++) switch (*p) {
        case 'U': do_update(0); break;
        case 'A': do_update(1); break;
        case 'E': do_update(2); break;
        case 'R': do_read(0); break;
        case 'B': do_read(1); break;
    }
}
static void *db_thr(void *x) { run_prog(x); return NULL; }
static void db_open(int flags)
{
    if (napr_db_env_create(&ENV, POOL) != APR_SUCCESS || napr_db_env_set_mapsize(ENV, 512 * 1024) != APR_SUCCESS || napr_db_env_open(ENV, "sched.db", (unsigned) flags) != APR_SUCCESS) sch_fail("opening the database fails");
}
static const char *const *PROGS;
/* keys, value size, updates before, intraprocess lock, threads */
static void sc_db(const int *p)
{
    int i, fl = NAPR_DB_CREATE | (p[3] ? NAPR_DB_INTRAPROCESS_LOCK : 0); napr_db_txn_t *t; pthread_t th[5];
    NKEY = p[0]; VSIZE = p[1];
    unlink("sched.db"); unlink("sched.db-lock"); unlink("sched.db.lock");
    apr_pool_create(&POOL, NULL);
    db_open(fl);
    if (napr_db_txn_begin(ENV, 0, &t) != APR_SUCCESS) sch_fail("begin");
    write_keys(t, -1, 0);
    if (napr_db_txn_commit(t) != APR_SUCCESS) sch_fail("commit");
    for (i = 0; i < p[2]; i++) do_update(0);
    total_u = committed;
    for (i = 0; i < p[4]; i++) { const char *q; for (q = PROG[i]; *q; q++) total_u += *q == 'U'; }
    for (i = 1; i < p[4]; i++) pthread_create(&th[i], NULL, db_thr, (void *) PROG[i]);
    run_prog(PROG[0]);
    for (i = 1; i < p[4]; i++) pthread_join(th[i], NULL);
    do_read(0);
    if (committed != total_u) sch_fail("%d updates were committed but the counter is %d", total_u, committed);
    do_update(0); do_update(0); do_read(0);
    if (napr_db_env_close(ENV) != APR_SUCCESS) sch_fail("close");
    db_open(fl & ~NAPR_DB_CREATE);
    do_read(0);
}
/* keys, value size, intraprocess lock, readers, writers, updates before: all of them at once, a transaction each */
static void sc_dbwide(const int *p)
{
    int i, n = p[3] + p[4], fl = NAPR_DB_CREATE | (p[2] ? NAPR_DB_INTRAPROCESS_LOCK : 0); napr_db_txn_t *t; static pthread_t th[400];
    NKEY = p[0]; VSIZE = p[1];
    unlink("sched.db"); unlink("sched.db-lock"); unlink("sched.db.lock");
    apr_pool_create(&POOL, NULL);
    db_open(fl);
    if (napr_db_txn_begin(ENV, 0, &t) != APR_SUCCESS) sch_fail("begin");
    write_keys(t, -1, 0);
    if (napr_db_txn_commit(t) != APR_SUCCESS) sch_fail("commit");
    for (i = 0; i < p[5]; i++) do_update(0);
    /* writers are spread among the readers */
    for (i = 0; i < n; i++) pthread_create(&th[i], NULL, db_thr, (void *) ((i + 1) * p[4] / n > i * p[4] / n ? "U" : i % 2 ? "R" : "B"));
    for (i = 0; i < n; i++) pthread_join(th[i], NULL);
    do_read(0);
    if (committed != p[4] + p[5]) sch_fail("%d updates were committed but the counter is %d", p[4] + p[5], committed);
    do_update(0); do_update(0); do_read(0);
    if (napr_db_env_close(ENV) != APR_SUCCESS) sch_fail("close");
    db_open(fl & ~NAPR_DB_CREATE);
    do_read(0);
}
/* ---- C02: marking threads ---- */
#define MP_MAX 2500
static int MP_N = 12;
static napr_cache_t *CA_; static int MARKED[MP_MAX];
static void mpath(char *b, int i) { sprintf(b, "/dir/sub%d/file-%04d", i % 3, i * 37); }
static napr_cache_entry_t ment(int i) { napr_cache_entry_t e; memset(&e, 0, sizeof e); e.mtime = 1000 + i; e.ctime = 77 * i; e.size = i * 1000003L; e.hash.low64 = 0x9E3779B97F4A7C15ull * (uint64_t) (i + 1); e.hash.high64 = (uint64_t) i << 50; return e; }
static void *mark_thr(void *x)
{
    const char *p = x; char b[64];
    for (; *p; p++) { mpath(b, *p - '0'); if (napr_cache_mark_visited(CA_, b) != APR_SUCCESS) sch_fail("marking fails"); memset(b, '?', sizeof b - 1); }
    return NULL;
}
static void csweep_check(void)
{
    int i; char b[64]; const napr_cache_entry_t *e; apr_status_t r;
    if ((r = napr_cache_sweep(CA_)) != APR_SUCCESS) sch_fail("sweep gives %d", (int) r);
    if (napr_cache_begin_read(CA_, POOL) != APR_SUCCESS) sch_fail("begin_read");
    for (i = 0; i < MP_N; i++) {
        napr_cache_entry_t w = ment(i);
        mpath(b, i); e = NULL;
        r = napr_cache_lookup_in_txn(CA_, b, &e);
        if (MARKED[i] && r != APR_SUCCESS) sch_fail("entry %d was marked by a thread but the sweep removed it", i);
        if (!MARKED[i] && r == APR_SUCCESS) sch_fail("entry %d was not marked but survives the sweep", i);
        if (r == APR_SUCCESS && memcmp(e, &w, sizeof w)) sch_fail("entry %d has other contents after the sweep", i);
    }
    napr_cache_end_read(CA_);
    for (i = 0; i < MP_N; i++) sch_outcome((uint64_t) MARKED[i]);
}
/* threads; PROG: what each marks (digits) */
static void sc_mark(const int *p)
{
    int i; pthread_t th[5]; char b[64];
    unlink("c.db"); unlink("c.db.lock"); unlink("c.db-lock");
    apr_pool_create(&POOL, NULL);
    if (napr_cache_open(&CA_, "c.db", POOL) != APR_SUCCESS) sch_fail("opening the cache fails");
    if (napr_cache_begin_write(CA_, POOL) != APR_SUCCESS) sch_fail("begin_write");
    for (i = 0; i < MP_N; i++) { napr_cache_entry_t e = ment(i); mpath(b, i); if (napr_cache_upsert_in_txn(CA_, b, &e) != APR_SUCCESS) sch_fail("upsert"); }
    if (napr_cache_commit_write(CA_) != APR_SUCCESS) sch_fail("commit_write");
    for (i = 0; i < p[0]; i++) { const char *q; for (q = PROG[i]; *q; q++) MARKED[*q - '0'] = 1; }
    for (i = 1; i < p[0]; i++) pthread_create(&th[i], NULL, mark_thr, (void *) PROG[i]);
    mark_thr((void *) PROG[0]);
    for (i = 1; i < p[0]; i++) pthread_join(th[i], NULL);
    csweep_check();
    if (napr_cache_close(CA_) != APR_SUCCESS) sch_fail("close");
}
static int mk_each;
static void *mark_wide(void *x)
{
    int i = (int) (intptr_t) x, k; char b[64];
    for (k = 0; k < mk_each; k++) { mpath(b, (i * mk_each + k) * 2 % MP_N); if (napr_cache_mark_visited(CA_, b) != APR_SUCCESS) sch_fail("marking fails"); memset(b, '?', sizeof b - 1); }
    return NULL;
}
/* threads, marks of each, entries: many threads mark entries with even numbers */
static void sc_markwide(const int *p)
{
    int i, k; static pthread_t th[700]; char b[64];
    MP_N = p[2]; mk_each = p[1];
    unlink("c.db"); unlink("c.db.lock"); unlink("c.db-lock");
    apr_pool_create(&POOL, NULL);
    if (napr_cache_open(&CA_, "c.db", POOL) != APR_SUCCESS) sch_fail("opening the cache fails");
    if (napr_cache_begin_write(CA_, POOL) != APR_SUCCESS) sch_fail("begin_write");
    for (i = 0; i < MP_N; i++) { napr_cache_entry_t e = ment(i); mpath(b, i); if (napr_cache_upsert_in_txn(CA_, b, &e) != APR_SUCCESS) sch_fail("upsert"); }
    if (napr_cache_commit_write(CA_) != APR_SUCCESS) sch_fail("commit_write");
    for (i = 0; i < p[0]; i++) for (k = 0; k < p[1]; k++) MARKED[(i * p[1] + k) * 2 % MP_N] = 1;
    for (i = 0; i < p[0]; i++) pthread_create(&th[i], NULL, mark_wide, (void *) (intptr_t) i);
    for (i = 0; i < p[0]; i++) pthread_join(th[i], NULL);
    csweep_check();
    if (napr_cache_close(CA_) != APR_SUCCESS) sch_fail("close");
}
/* ---- F03, F12: the whole program on a small tree ---- */
#include <puzzle.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include "ftwin.h"
void ft_config_set_should_terminate_apr(int);
/* pictures: the letter before the dot of the name is the picture, equal ones are at distance 0, others at 1 */
int puzzle_fill_cvec_from_file(PuzzleContext *c, PuzzleCvec *v, const char *p)
{
    const char *d = strrchr(p, '.');
    (void) c; sch_point();
    if (!d || d[-1] == 'x') return -1;
    v->sizeof_vec = (size_t) (unsigned char) d[-1]; v->vec = NULL;
    return 0;
}
double puzzle_vector_normalized_distance(PuzzleContext *c, const PuzzleCvec *a, const PuzzleCvec *b, int fix) { (void) c; (void) fix; return a->sizeof_vec == b->sizeof_vec ? 0.0 : 1.0; }
static int cmpstr(const void *a, const void *b) { return strcmp(*(char *const *) a, *(char *const *) b); }
/* groups of a text report in canonical form: members sorted and joined by commas, groups sorted and ended by semicolons */
static void canon(char *t, char *out)
{
    char *g[32], gb[32][512]; int ng = 0, i, j;
    while (*t && ng < 32) {
        char *m[32], *e = strstr(t, "\n\n"); int nm = 0;
        if (!e) sch_fail("the output does not end with a complete group: %s", t);
        *e = 0;
        for (m[nm] = strtok(t, "\n"); m[nm] && nm < 31; m[nm] = strtok(NULL, "\n")) nm++;
        qsort(m, (size_t) nm, sizeof *m, cmpstr);
        gb[ng][0] = 0;
        for (j = 0; j < nm; j++) { strcat(gb[ng], j ? "," : ""); strcat(gb[ng], m[j] + strspn(m[j], "./")); }
        g[ng] = gb[ng]; ng++;
        t = e + 2;
    }
    qsort(g, (size_t) ng, sizeof *g, cmpstr);
    for (*out = 0, i = 0; i < ng; i++) { strcat(out, g[i]); strcat(out, ";"); }
}
static void f_write(const char *n, int size, int fill)
{
    char b[8192]; int fd;
    if ((fd = open(n, O_RDONLY)) >= 0) { close(fd); return; }
    memset(b, 'a' + fill, sizeof b);
    if ((fd = open(n, O_CREAT | O_WRONLY, 0600)) < 0 || write(fd, b, (size_t) size) != size) sch_fail("cannot write the tree");
    close(fd);
}
/* PROG[0]: one letter per file, its contents; PROG[1]: one digit per file, its size; par: threads, json, image */
static void sc_main(const int *p)
{
    const char *argv[40], *c = PROG[0], *z = PROG[1], *q; char names[16][40], dir[64], jt[16], out[8192], can[4096], want[4096] = "", num[8][300]; int n = (int) strlen(c), i, j, k = 0, fd, ng = 0; ssize_t got; char *g[32];
    snprintf(dir, sizeof dir, "t%s-%s-%d", c, z, p[2] + (p[1] & 2));
    if (mkdir(dir, 0700) == 0 || access(dir, F_OK) == 0) { }
    if (chdir(dir)) sch_fail("chdir");
    for (i = 0; i < n; i++) { snprintf(names[i], sizeof names[i], p[2] ? "n%d%c.png" : "n%d%c.dat", i, c[i]); f_write(names[i], p[2] ? 10 : (z[i] - '0') * (p[1] & 2 ? 40 : 1000), c[i] - 'a'); }
    argv[k++] = "ftwin";
    if (p[2]) argv[k++] = "-I"; else { sprintf(jt, "%d", p[0]); argv[k++] = "-j"; argv[k++] = jt; if (p[1] & 1) argv[k++] = "-J"; if (p[1] & 2) { argv[k++] = "-x"; argv[k++] = "0"; } }
    for (i = 0; i < n; i++) argv[k++] = names[i];
    argv[k] = NULL;
    /* expected */
    for (i = 0; i < n; i++) {
        int first = 1, m = 0; char b[300];
        if (p[2] && c[i] == 'x') continue;
        for (j = 0; j < i; j++) if (c[j] == c[i] && z[j] == z[i]) first = 0;
        if (!first) continue;
        for (*b = 0, j = i; j < n; j++) if (c[j] == c[i] && z[j] == z[i]) { if (m++) strcat(b, ","); strcat(b, names[j]); }
        if (m > 1) { strcpy(num[ng], b); g[ng] = num[ng]; ng++; }
    }
    qsort(g, (size_t) ng, sizeof *g, cmpstr);
    for (i = 0; i < ng; i++) { strcat(want, g[i]); strcat(want, ";"); }
    fd = memfd_create("out", 0);
    fflush(stdout); dup2(fd, 1);
    ft_config_set_should_terminate_apr(0);
    i = ftwin_main(k, argv);
    fflush(stdout);
    if (i != 0) sch_fail("ftwin fails on a readable tree");
    if (sch_alive()) sch_fail("a worker has not ended when the program ends");
    got = pread(1, out, sizeof out - 1, 0);
    out[got < 0 ? 0 : got] = 0;
    if (p[1] & 1) {   /* JSON: the names between quotes that end in .dat, groups end with ']' */
        char txt[8192], *o = txt; int in = 0;
        for (q = out; *q; q++) {
            if (strncmp(q, "\"path\":", 7) == 0) { const char *e; q += 7; q = strchr(q, '"') + 1; e = strchr(q, '"'); { const char *sl = e; while (sl > q && sl[-1] != '/') sl--; memcpy(o, sl, (size_t) (e - sl)); o += e - sl; *o++ = '\n'; } q = e; in = 1; }
            else if (*q == ']' && in) { *o++ = '\n'; in = 0; }
        }
        *o = 0;
        canon(txt, can);
    }
    else if (p[2]) {   /* pairs: union of equal pictures, each pair once */
        char txt[8192]; strcpy(txt, out);
        canon(txt, can);
        /* canonical reports of image mode: for each picture, the similar ones that follow in the heap; rebuild the pairs */
        { char *t = out, seen[16][16]; int a, b; memset(seen, 0, sizeof seen);
          while (*t) { char *m, *e = strstr(t, "\n\n"); int head = -1; *e = 0;
            for (m = strtok(t, "\n"); m; m = strtok(NULL, "\n")) { int id = m[strspn(m, "./")] == 'n' ? m[strspn(m, "./") + 1] - '0' : -1; if (id < 0 || id >= n) sch_fail("unknown name in the output: %s", m); if (head < 0) head = id; else { a = head < id ? head : id; b = head < id ? id : head; if (seen[a][b]++) sch_fail("pair %d %d is reported twice", a, b); } }
            t = e + 2; }
          for (a = 0; a < n; a++) for (b = a + 1; b < n; b++) if (seen[a][b] != (c[a] == c[b] && c[a] != 'x')) sch_fail("pictures %s and %s are %ssimilar but are %sreported", names[a], names[b], c[a] == c[b] ? "" : "not ", seen[a][b] ? "" : "not "); }
        strcpy(can, want);
    }
    else canon(out, can);
    if (strcmp(can, want)) sch_fail("expected the groups [%s], reported [%s]", want, can);
    for (i = 0; want[i]; i++) sch_outcome((uint64_t) want[i]);
    if (chdir("..")) sch_fail("chdir");
}
static void add(const char *n, void (*f)(const int *), int np, const int *p, int pre, int spur, int sig)
{
    scen_t s; int i;
    memset(&s, 0, sizeof s);
    s.name = n; s.fn = f; s.npar = np; s.preempt = pre; s.spur = spur; s.sig = sig;
    for (i = 0; i < np; i++) s.par[i] = p[i];
    sch_explore(&s);
}
#define P(...) (const int[]) { __VA_ARGS__ }
static void wide(const char *n, void (*f)(const int *), int np, const int *p)
{
    scen_t s; int i;
    memset(&s, 0, sizeof s);
    s.name = n; s.fn = f; s.npar = np;
    for (i = 0; i < np; i++) s.par[i] = p[i];
    for (s.lean = 1; s.lean <= 4; s.lean++) sch_explore(&s);
}
static void pool_sizes(void)
{
    static const int W[] = { 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 400, 511, 512, 513, 600 }, N[] = { 0, 1, 300 }, Q[] = { 255, 256, 257, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 70000 };
    unsigned i, j; int k;
    for (i = 0; i < sizeof W / sizeof *W; i++) for (j = 0; j < sizeof N / sizeof *N; j++) for (k = 0; k < 3; k++) wide("pool of many workers: workers, tasks, waits", sc_wide, 3, P(W[i], N[j], k));
    for (i = 0; i < sizeof Q / sizeof *Q; i++) for (j = 1; j <= 4; j += 3) for (k = 0; k < 2; k++) wide("pool with many tasks: workers, tasks, waits", sc_wide, 3, P((int) j, Q[i], k));
}
static void t01(void)
{
    int t = mc_thorough;
    int w, n, m, k;
    for (w = 1; w <= (t ? 3 : 2); w++) for (n = 0; n <= (t ? 4 : 3); n++) for (m = -1; m <= 2; m++) for (k = 1; k <= 2; k++)
        add("pool of workers, tasks, then tasks again, waits in a row, preemption in tasks", sc_t01, 5, P(w, n, m, k, 0), t ? 3 : 2, 1, 1);
    add("pool", sc_t01, 5, P(2, 2, -1, 1, 1), t ? 4 : 3, 1, 1);
    add("pool", sc_t01, 5, P(3, 2, -1, 1, 0), t ? 3 : 2, 1, 1);
    add("pool", sc_t01, 5, P(3, 4, 1, 1, 1), t ? 3 : 2, 0, 1);
    for (w = 1; w <= 2; w++) for (n = 1; n <= 2; n++) add("pool, two producers: workers, tasks each", sc_prod, 2, P(w, n), t ? 3 : 2, w == 1, 1);
    for (w = 1; w <= 2; w++) for (n = 1; n <= 2; n++) for (m = 1; m < 1 << n; m++) for (k = 0; k < 2; k++) add("pool: workers, tasks, failing tasks, tasks adding tasks", sc_misc, 4, P(w, n, k ? 0 : m, k ? m : 0), 2, w == 1, 1);
    for (w = 1; w <= 2; w++) add("pool, two waiting threads: workers, rounds", sc_wait2, 2, P(w, 1), t ? 3 : 2, 0, 1);
    add("pool, two waiting threads: workers, rounds", sc_wait2, 2, P(1, 2), t ? 3 : 2, 0, 1);
    for (w = 1; w <= 4; w++) for (n = 0; n < 3; n++) add("pool, many tasks: workers, tasks, tasks per round", sc_many, 3, P(w, n == 0 ? 300 : n == 1 ? 1100 : 24, n == 0 ? 300 : n == 1 ? 1100 : w > 2 ? 8 : 3), 0, 0, 0);
    pool_sizes();
}
static void t02(void)
{
    int t = mc_thorough, w, n, k;
    for (w = 1; w <= 3; w++) for (n = 0; n <= (w == 3 ? 2 : 3); n++) for (k = 0; k < 2; k++) add("pool shut down: workers, tasks, waited for", sc_t02, 4, P(w, n, k, 0), t ? 4 : w == 3 ? 2 : 3, 1, 1);
    for (w = 1; w <= 3; w++) for (n = 1; n <= 2; n++) add("pool shut down while tasks run: workers, tasks", sc_t02, 4, P(w, n, 0, 1), t ? 4 : w == 3 ? 2 : 3, 1, 1);
    for (w = 1; w <= 2; w++) for (n = 0; n <= 2; n++) add("pool used twice, waited for twice", sc_t01, 5, P(w, n, 1, 2, 0), t ? 4 : 2, 1, 1);
    add("pool used twice", sc_t01, 5, P(3, 1, 1, 2, 0), t ? 3 : 1, 1, 1);
    for (w = 1; w <= 2; w++) for (k = 0; k < 2; k++) add("pool: workers, tasks, failing tasks, tasks adding tasks", sc_misc, 4, P(w, 2, k ? 0 : 1, k), 2, w == 1, 1);
    for (w = 1; w <= 2; w++) add("pool, two waiting threads: workers, rounds", sc_wait2, 2, P(w, 1), t ? 3 : 2, 0, 1);
    for (w = 1; w <= 4; w++) add("pool, many tasks: workers, tasks, tasks per round", sc_many, 3, P(w, 300, 300), 0, 0, 0);
    pool_sizes();
}
static void addp(const char *n, void (*f)(const int *), int np, const int *p, int pre, int spur, int sig, const char *a, const char *b, const char *c, const char *d)
{
    static char nm[200];
    PROG[0] = a; PROG[1] = b; PROG[2] = c ? c : ""; PROG[3] = d ? d : "";
    snprintf(nm, sizeof nm, "%s [%s|%s|%s|%s]", n, a, b, PROG[2], PROG[3]);
    add(nm, f, np, p, pre, spur, sig);
}
static void d05(void)
{
    static const struct { const char *a, *b, *c; int bound; } PT[] = {
        { "U", "R", 0, 3 }, { "UU", "R", 0, 3 }, { "UUU", "R", 0, 2 }, { "U", "RR", 0, 2 }, { "UU", "RR", 0, 2 }, { "UUUU", "B", 0, 2 },
        { "U", "U", 0, 3 }, { "UU", "UU", 0, 2 }, { "UA", "UR", 0, 2 }, { "A", "U", 0, 3 }, { "AU", "R", 0, 2 }, { "UR", "RU", 0, 2 }, { "E", "U", 0, 2 }, { "UE", "RA", 0, 2 },
        { "UU", "R", "R", 2 }, { "U", "U", "R", 2 }, { "U", "U", "U", 2 }, { "UU", "B", "R", 1 }, { "UAU", "R", "U", 1 } };
    static const int KV[][2] = { { 4, 8 }, { 5, 1500 }, { 9, 1900 } };
    unsigned i, k; int pre, lk;
    for (i = 0; i < sizeof PT / sizeof *PT; i++) for (k = 0; k < 3; k++) for (pre = 0; pre <= 3; pre += 3) for (lk = 0; lk < 2; lk++) {
        int n = PT[i].c ? 3 : 2;
        if (!mc_thorough && (k == 2 ? (pre == 0 || lk == 0) : lk == (k == 1))) continue;
        addp("transactions of threads: keys, value size, updates before, lock kind, threads", sc_db, 5, P(KV[k][0], KV[k][1], pre, lk, n), PT[i].bound + mc_thorough, 0, 1, PT[i].a, PT[i].b, PT[i].c, NULL);
    }
    {
        static const int NR[] = { 1, 2, 5, 8, 20, 63, 64, 65, 100, 125, 126 }, NW[] = { 0, 1, 3, 20 };
        for (i = 0; i < sizeof NR / sizeof *NR; i++) for (k = 0; k < 4; k++) for (lk = 0; lk < 2; lk++) wide("many threads, a transaction each: keys, value size, lock kind, readers, writers, updates before", sc_dbwide, 6, P(lk ? 5 : 4, lk ? 1500 : 8, lk, NR[i], NW[k], 0));
        for (i = 1; i < sizeof NR / sizeof *NR; i += 3) for (k = 0; k < 14; k += 2) wide("many threads, a transaction each: keys, value size, lock kind, readers, writers, updates before", sc_dbwide, 6, P(5, 1500, 1, NR[i], 20, 236 + (int) k));
    }
}
static void c02(void)
{
    int t = mc_thorough;
    addp("marking threads", sc_mark, 1, P(2), 3 + t, 0, 0, "0", "1", NULL, NULL);
    addp("marking threads", sc_mark, 1, P(2), 3 + t, 0, 0, "01", "23", NULL, NULL);
    addp("marking threads", sc_mark, 1, P(2), 3 + t, 0, 0, "0123", "4567", NULL, NULL);
    addp("marking threads", sc_mark, 1, P(2), 3 + t, 0, 0, "012", "210", NULL, NULL);
    addp("marking threads", sc_mark, 1, P(3), 3, 0, 0, "0", "1", "2", NULL);
    addp("marking threads", sc_mark, 1, P(3), 2 + t, 0, 0, "05", "16", "27", NULL);
    addp("marking threads", sc_mark, 1, P(4), 2 + t, 0, 0, "0", "1", "2", "3");
    addp("marking threads", sc_mark, 1, P(4), 1 + t, 0, 0, "04", "15", "26", "37");
    {
        static const int NT[] = { 5, 17, 64, 129, 256, 257, 600 };
        unsigned i; int e;
        for (i = 0; i < sizeof NT / sizeof *NT; i++) for (e = 1; e <= 3; e += 2) wide("many marking threads: threads, marks of each, entries", sc_markwide, 3, P(NT[i], e, 900));
    }
}
static void f03(void)
{
    static const char *T[][2] = { { "aab", "111" }, { "aaa", "111" }, { "aabb", "1111" }, { "abab", "1212" }, { "abcab", "11111" }, { "aabbaa", "111222" } };
    unsigned i; int th, js, t = mc_thorough;
    for (i = 0; i < sizeof T / sizeof *T; i++) for (th = 1; th <= 3; th++) for (js = 0; js < 4; js++)
        if (js < 2 || i < 4) addp("program on files: threads, json (1) and block reading (2)", sc_main, 3, P(th, js, 0), th == 3 ? 1 + t : i < 3 ? 2 + t : 1 + t, 0, 0, T[i][0], T[i][1], NULL, NULL);
    {
        static const int NT[] = { 4, 5, 6, 8, 16, 17, 64, 128, 255, 256 };
        unsigned j;
        for (i = 0; i < sizeof T / sizeof *T; i++) for (j = 0; j < sizeof NT / sizeof *NT; j++) for (js = 0; js < 4; js++) { PROG[0] = T[i][0]; PROG[1] = T[i][1]; wide("program on files, many threads: threads, json (1) and block reading (2)", sc_main, 3, P(NT[j], js, 0)); }
    }
}
static void f12(void)
{
    static const char *T[] = { "aa", "aba", "axa", "aabb" };
    unsigned i;
    for (i = 0; i < sizeof T / sizeof *T; i++) addp("program on pictures", sc_main, 3, P(4, 0, 1), 1 + mc_thorough, 0, 0, T[i], "1111111", NULL, NULL);
}
static void worker(void)
{
    if (chdir(mc_dir)) mc_error("chdir");
    mc_watch(1500);
    strict = mc_is("T01");
    if (mc_is("T01")) t01();
    else if (mc_is("T02")) t02();
    else if (mc_is("D05")) d05();
    else if (mc_is("C02")) c02();
    else if (mc_is("F03")) f03();
    else if (mc_is("F12")) f12();
}
int main(int argc, char **argv) { mc_init(argc, argv); apr_initialize(); freopen("/dev/null", "w", stderr); sch_init(); return mc_run(worker); }
