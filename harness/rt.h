// Runtime of the black-box drivers: interposed system calls and mutexes, page-protection shadow, fault injection,
// mapping placement, cooperative scheduling at synchronisation points and at single instructions, ndJson log.
#ifndef RT_H
#define RT_H
#ifdef __cplusplus
#define _Thread_local __thread
#endif
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
typedef uint64_t u64;
#define NREG (NARENA * NCLASS)
#define SLAB_BYTES ((u64)CLASS_REGION * 2 * NCLASS * NARENA)
#define MAXTHR 12

enum { C_MAP = 1, C_FIX = 2, C_UNMAP = 4, C_PROT = 8, C_REMAP = 16, C_PURGE = 32, C_RND = 64 };

void rt_init(void);
void lg(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void rt_flush(void);
void rt_die(const char *why);                       // log, flush, exit 0
void coord(const void *p, int *s, int *pg, int *b);  // s: slab region index, -1 window, -2 elsewhere
void *uncoord(int s, int pg, int b);
// page-range queries on the shadow
int range_prot(u64 a, u64 b);                       // min over pages: -1 unmapped, 0 none, 1 ro, 2 rw
int range_prot_max(u64 a, u64 b);
int run_none(u64 addr, int dir);                    // reserved inaccessible pages of one mapping next to addr
void fault_set(unsigned mask, int skip, int cnt, int err);
int fault_hits(void);
void place_mode(int m);
void place_at(int pg, u64 usable_bytes);
void rnd_mode(int m);

// scheduler
extern _Thread_local int tid;                       // 0: main / unmanaged
extern _Thread_local int obs;                       // >0: harness is observing, do not preempt
extern int sched_on, tracing_sys, quiet_log;
void sched_start(int n, void (*exec)(int t, char *cmd));
void sched_queue(int t, const char *cmd);
void sched_outside(int, int);
int sched_run(int t, int sync_budget, int instr_budget); // 0 idle/finished, 1 paused, 2 blocked
void sched_drain(void);
int sched_busy(int t);
u64 sched_steps(int t);
void op_begin_step(void);
void op_end_step(void);

// probe children
extern int in_probe;
struct probe_res { int out; int sig; char msg[120]; u64 val; int set; };
extern struct probe_res *pres;
int seal_state(void);                               // -1 not sealed build, 0 accessible, 1 sealed
extern u64 n_getrandom, n_rndbytes, n_sys;
#endif
