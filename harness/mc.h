/* mc.h - runtime shared by all bounded model-checking harnesses.
 *
 * A harness enumerates its cases deterministically; every worker process walks the whole enumeration and executes
 * the cases whose number is its own modulo the number of workers.  Counters, the set of distinct states/outcomes and
 * the first violation live in shared memory, so a crash or a hang of the code under test is attributed to its case. */
#ifndef MC_H
#define MC_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

extern int mc_thorough;             /* tier */
extern const char *mc_prop;         /* property being decided */
extern const char *mc_dir;          /* private scratch directory of this worker */
extern const char *mc_datadir;      /* extra argument --data */

void mc_init(int argc, char **argv);
int mc_run(void (*worker)(void));   /* returns the exit status of the harness */
int mc_is(const char *prop);        /* property selected? */

int mc_sel(void);                   /* next case: 1 if this worker executes it */
int mc_sel_weighted(unsigned timeout_s); /* same, with a larger hang limit */
uint64_t mc_index(void);            /* number of the current case */
void mc_desc(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   /* describe the current case (for replay) */
void mc_desc_add(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
const char *mc_desc_get(void);
/* Report a violation.  key identifies the failing input/history; when it is listed as a known finding the call counts
 * it and returns, otherwise it does not return. */
void mc_fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
#define MC_CHECK(c, ...) do { if (!(c)) mc_fail(NULL, __VA_ARGS__); } while (0)

void mc_eval(uint64_t n);           /* executions */
void mc_trans(uint64_t n);          /* transitions (steps executed in the implementation) */
void mc_trace(uint64_t n);          /* complete traces compared with the reference model */
int mc_state(uint64_t h);           /* distinct state; returns 1 if new */
int mc_outcome(uint64_t h);         /* distinct non-trivial outcome; returns 1 if new */
void mc_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void mc_seek(uint64_t i);           /* number of the next case */
int mc_wanted(uint64_t from, uint64_t to); /* 0 when only one case is to be run and it is not in [from, to) */
int mc_replaying(void);             /* only one case is to be run */
void mc_cap(const char *what);      /* a cap was hit: the run is not exhaustive */
void mc_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void mc_error(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));  /* harness error, not a violation */

uint64_t mc_hash(const void *p, size_t n, uint64_t seed);
void mc_watch(unsigned seconds);    /* hang limit of a case */
#endif
