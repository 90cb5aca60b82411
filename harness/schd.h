/* schd.h - controlled scheduler for the real code: one thread runs at a time, every synchronisation operation and every
 * racy memory access is a scheduling point, and all schedules within the bounds are enumerated. */
#ifndef SCHED_H
#define SCHED_H
#include <stdint.h>
typedef struct {
    const char *name;
    void (*fn)(const int *par);       /* runs in a forked child as controlled thread 0 */
    int par[8];
    int npar;
    int preempt, spur, sig;           /* bounds */
    int lean;                         /* many threads: one schedule, by policy 1..4, and no analysis of accesses */
} scen_t;
void sch_explore(const scen_t *s);                    /* enumerate; called by every worker in the same order */
void sch_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));   /* violation, from a scenario */
void sch_outcome(uint64_t h);                         /* outcome of the execution */
void sch_point(void);                                 /* scheduling point of the harness itself */
int sch_me(void);
void sch_init(void);                                  /* before mc_run */
int sch_alive(void);                                  /* threads other than the first that have not ended */
#endif
