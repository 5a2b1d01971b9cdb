#ifndef TSLVERIF_SCHED_H
#define TSLVERIF_SCHED_H
/* Kinds of points: a Go function or a lock, a Go statement, the entry and exit of a C function, a basic block of C. */
#define P_FUNC 1
#define P_STMT 2
#define P_CFUNC 4
#define P_CBLOCK 8
/* An access of C code to memory that is not on its stack. */
#define P_MEM 16
void vs_setup(int threads, int first, int mask);
void vs_preempt(long at, int target);
void vs_begin(int me);
void vs_end(int me);
void vs_go(void);
void vs_point(int kind);
int vs_controlled(void);
void vs_block(unsigned long on);
void vs_wake(unsigned long on);
long vs_points(void);
long vs_steps(void);
long vs_switches(void);
int vs_stalled(void);
void vs_yield(void);
void vs_mayblock(void);
int vs_mayblocked(void);
void vs_spawned(void);
void vs_mem(const void *p, unsigned long n, int write, const void *pc);
int vs_race(unsigned long *out);
#endif
