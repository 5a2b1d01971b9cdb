// A cooperative scheduler for OS threads: one controlled thread runs at a time, and may hand over at the
// points the instrumented code announces. The run is decided by the first thread and a list of preemptions.
#define _GNU_SOURCE
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include "vsched.h"
#undef pthread_mutex_lock

#define NOI __attribute__((no_instrument_function, no_sanitize_coverage))
#define MAXT 4
#define MAXP 8

static pthread_mutex_t L = PTHREAD_MUTEX_INITIALIZER;
static struct {
	sem_t sem;
	int done, started;
	unsigned long wait;
} th[MAXT];
static int n, cur, active, mask, np;
static struct { long at; int target; } pre[MAXP];
static long choice, steps, switches, streak;
// The running thread is about to do what may wait outside of the control of the scheduler; there are
// goroutines that are not controlled.
static int mayblock, spawned;
// A thread that waits outside of the control of the scheduler.
#define NATIVE 1
#define STREAK 300000
static int sems;
static __thread int me = -1;
static __thread int inside;
static __thread unsigned long stack_lo, stack_hi;
// The access a thread is about to make.
static struct { unsigned long lo, hi, pc; int write; } pend[MAXT];
static unsigned long race[4];

NOI static int enabled(int t) { return th[t].started && !th[t].done && !th[t].wait; }

NOI static void waitsem(int t) {
	while (sem_wait(&th[t].sem) != 0 && errno == EINTR) {}
}

NOI void vs_setup(int threads, int first, int m) {
	if (!sems) {
		for (int i = 0; i < MAXT; i++) sem_init(&th[i].sem, 0, 0);
		sems = 1;
	}
	n = threads; cur = first; mask = m; np = 0; choice = steps = switches = streak = 0; active = 0; mayblock = 0; race[0] = 0;
	for (int i = 0; i < MAXT; i++) { th[i].done = th[i].started = 0; th[i].wait = 0; pend[i].hi = 0; while (sem_trywait(&th[i].sem) == 0) {} }
}

NOI void vs_preempt(long at, int target) {
	if (np < MAXP) { pre[np].at = at; pre[np].target = target; np++; }
}

// Called by thread t: waits for its turn.
NOI void vs_begin(int t) {
	me = t;
	if (!stack_hi) {
		pthread_attr_t a;
		void *lo;
		size_t size;
		if (pthread_getattr_np(pthread_self(), &a) == 0) {
			pthread_attr_getstack(&a, &lo, &size);
			stack_lo = (unsigned long)lo;
			stack_hi = stack_lo + size;
			pthread_attr_destroy(&a);
		}
	}
	__atomic_store_n(&th[t].started, 1, __ATOMIC_SEQ_CST);
	waitsem(t);
}

// Starts the first thread when all are there.
NOI void vs_go(void) {
	for (int i = 0; i < n; i++)
		while (!__atomic_load_n(&th[i].started, __ATOMIC_SEQ_CST)) usleep(10);
	active = 1;
	sem_post(&th[cur].sem);
}

// With L held: another enabled thread, or -1.
NOI static int other(void) {
	for (int i = 1; i < n; i++) {
		int t = (me + i) % n;
		if (enabled(t)) return t;
	}
	return -1;
}

// With L held: something outside of the control of the scheduler may still happen.
NOI static int native(void) {
	for (int i = 0; i < n; i++)
		if (!th[i].done && th[i].wait == NATIVE) return 1;
	return spawned;
}

NOI static void deadlock(void) {
	static const char msg[] = "deadlock: every thread waits for another\n";
	if (write(2, msg, sizeof msg - 1)) {}
	abort();
}

NOI void vs_end(int t) {
	pthread_mutex_lock(&L);
	th[t].done = 1;
	if (cur == t) {
		int o = other(), left = 0;
		for (int i = 0; i < n; i++) left += !th[i].done;
		if (o >= 0) { cur = o; switches++; streak = 0; sem_post(&th[o].sem); }
		else if (left && native()) cur = -1;
		else if (left) deadlock();
		else active = 0;
	} else if (cur < 0) {
		int left = 0;
		for (int i = 0; i < n; i++) left += !th[i].done;
		if (!left) active = 0;
	}
	pthread_mutex_unlock(&L);
	me = -1;
}

NOI void vs_point(int kind) {
	if (me < 0 || inside || !active) return;
	inside = 1;
	pthread_mutex_lock(&L);
	steps++;
	mayblock = 0;
	if (cur < 0) cur = me, th[me].wait = 0;
	if (cur != me) {
		// The thread was waiting for something outside of the control of the scheduler.
		th[me].wait = 0;
		pthread_mutex_unlock(&L);
		waitsem(me);
		inside = 0;
		return;
	}
	if (++streak > STREAK && other() >= 0) {
		// It may wait for another thread in a loop.
		streak = 0;
		int t = other();
		cur = t;
		switches++;
		sem_post(&th[t].sem);
		pthread_mutex_unlock(&L);
		waitsem(me);
		inside = 0;
		return;
	}
	if ((kind & mask) && other() >= 0) {
		long c = choice++;
		for (int i = 0; i < np; i++) {
			int t = pre[i].target < MAXT ? pre[i].target : other();
			if (pre[i].at == c && t != me && enabled(t)) {
				cur = t;
				switches++;
				streak = 0;
				sem_post(&th[t].sem);
				pthread_mutex_unlock(&L);
				waitsem(me);
				inside = 0;
				return;
			}
		}
	}
	pthread_mutex_unlock(&L);
	inside = 0;
}

// An access to memory by the running thread. Two threads race when one is about to access what the other
// accesses, one of them writes, and nothing keeps them apart: the other got here while this one waits.
NOI void vs_mem(const void *p, unsigned long n, int write, const void *pc) {
	unsigned long lo = (unsigned long)p, hi = lo + n;
	if (me < 0 || inside || !active || !n || lo < stack_hi && hi > stack_lo) return;
	for (int i = 0; i < MAXT; i++) {
		if (i == me || !pend[i].hi || pend[i].lo >= hi || lo >= pend[i].hi || !(write || pend[i].write)) continue;
		if (!race[0]) {
			race[0] = 1 + write + 2 * pend[i].write;
			race[1] = (unsigned long)pc;
			race[2] = pend[i].pc;
		}
	}
	pend[me].lo = lo;
	pend[me].write = write;
	pend[me].pc = (unsigned long)pc;
	pend[me].hi = hi;
	vs_point(P_MEM);
	pend[me].hi = 0;
}

NOI int vs_race(unsigned long *out) {
	memcpy(out, race, sizeof race);
	return race[0] != 0;
}

NOI int vs_controlled(void) { return me >= 0 && active; }

// The thread waits until vs_wake on the same thing.
NOI void vs_block(unsigned long on) {
	inside = 1;
	pthread_mutex_lock(&L);
	// A goroutine that is not controlled may have called vs_wake already, the caller looks again then.
	th[me].wait = spawned ? 0 : on;
	int o = other();
	if (o < 0 && native()) {
		// Wait for it here, the caller looks again.
		th[me].wait = 0;
		pthread_mutex_unlock(&L);
		usleep(200);
		inside = 0;
		return;
	}
	if (o < 0) deadlock();
	cur = o;
	switches++;
	streak = 0;
	sem_post(&th[o].sem);
	pthread_mutex_unlock(&L);
	waitsem(me);
	inside = 0;
}

// The running thread waits for another one in a loop, or says that others may go on.
NOI void vs_yield(void) {
	if (me < 0 || inside || !active) return;
	inside = 1;
	pthread_mutex_lock(&L);
	int o = cur == me ? other() : -1;
	if (o >= 0) {
		cur = o;
		switches++;
		streak = 0;
		sem_post(&th[o].sem);
		pthread_mutex_unlock(&L);
		waitsem(me);
	} else
		pthread_mutex_unlock(&L);
	inside = 0;
}

NOI void vs_mayblock(void) { if (me >= 0 && active && cur == me) __atomic_store_n(&mayblock, 1, __ATOMIC_SEQ_CST); }
NOI int vs_mayblocked(void) { return __atomic_load_n(&mayblock, __ATOMIC_SEQ_CST); }
NOI void vs_spawned(void) { spawned = 1; }

NOI void vs_wake(unsigned long on) {
	if (!active) return;
	pthread_mutex_lock(&L);
	for (int i = 0; i < n; i++)
		if (th[i].wait == on) th[i].wait = 0;
	pthread_mutex_unlock(&L);
}

NOI long vs_points(void) { return choice; }
NOI long vs_steps(void) { return __atomic_load_n(&steps, __ATOMIC_RELAXED); }
NOI long vs_switches(void) { return switches; }

// The running thread made no step for long: it waits for something the scheduler does not control, another
// thread goes on. Returns 0 when there is none.
NOI int vs_stalled(void) {
	int r = 1;
	pthread_mutex_lock(&L);
	if (active && cur >= 0 && !th[cur].done) {
		mayblock = 0;
		int t = -1;
		for (int i = 1; i < n; i++) {
			int k = (cur + i) % n;
			if (enabled(k)) { t = k; break; }
		}
		if (t < 0) r = 0;
		else {
			th[cur].wait = NATIVE;
			cur = t;
			switches++;
			sem_post(&th[t].sem);
		}
	}
	pthread_mutex_unlock(&L);
	return r;
}

// Called by the instrumented C code.
NOI void __sanitizer_cov_trace_pc(void) { vs_point(P_CBLOCK); }
NOI void __cyg_profile_func_enter(void *f, void *c) { vs_point(P_CFUNC); }
NOI void __cyg_profile_func_exit(void *f, void *c) { vs_point(P_CFUNC); }

#ifdef VS_TSAN
// Called by C code built with -fsanitize=thread: the accesses to memory, and the atomic operations.
#define PC __builtin_return_address(0)
NOI void __tsan_init(void) {}
NOI void __tsan_func_entry(void *pc) {}
NOI void __tsan_func_exit(void) {}
NOI void __tsan_acquire(void *p) {}
NOI void __tsan_release(void *p) {}
NOI void __tsan_read_range(void *p, unsigned long n) { vs_mem(p, n, 0, PC); }
NOI void __tsan_write_range(void *p, unsigned long n) { vs_mem(p, n, 1, PC); }
NOI void __tsan_vptr_update(void **p, void *v) { vs_mem(p, 8, 1, PC); }
NOI void __tsan_vptr_read(void **p) { vs_mem(p, 8, 0, PC); }
#define ACCESS(n) \
	NOI void __tsan_read##n(void *p) { vs_mem(p, n, 0, PC); } \
	NOI void __tsan_write##n(void *p) { vs_mem(p, n, 1, PC); } \
	NOI void __tsan_unaligned_read##n(void *p) { vs_mem(p, n, 0, PC); } \
	NOI void __tsan_unaligned_write##n(void *p) { vs_mem(p, n, 1, PC); } \
	NOI void __tsan_volatile_read##n(void *p) { vs_mem(p, n, 0, PC); } \
	NOI void __tsan_volatile_write##n(void *p) { vs_mem(p, n, 1, PC); } \
	NOI void __tsan_unaligned_volatile_read##n(void *p) { vs_mem(p, n, 0, PC); } \
	NOI void __tsan_unaligned_volatile_write##n(void *p) { vs_mem(p, n, 1, PC); } \
	NOI void __tsan_read##n##_pc(void *p, void *pc) { vs_mem(p, n, 0, pc); } \
	NOI void __tsan_write##n##_pc(void *p, void *pc) { vs_mem(p, n, 1, pc); }
ACCESS(1)
ACCESS(2)
ACCESS(4)
ACCESS(8)
ACCESS(16)
#define ATOMIC(b, T) \
	NOI T __tsan_atomic##b##_load(const volatile T *p, int o) { vs_point(P_MEM); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
	NOI void __tsan_atomic##b##_store(volatile T *p, T v, int o) { vs_point(P_MEM); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
	NOI T __tsan_atomic##b##_exchange(volatile T *p, T v, int o) { vs_point(P_MEM); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
	NOI T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int o) { vs_point(P_MEM); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
	NOI T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int o) { vs_point(P_MEM); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
	NOI T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int o) { vs_point(P_MEM); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
	NOI T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int o) { vs_point(P_MEM); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
	NOI T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int o) { vs_point(P_MEM); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
	NOI T __tsan_atomic##b##_fetch_nand(volatile T *p, T v, int o) { vs_point(P_MEM); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
	NOI int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int o, int f) { vs_point(P_MEM); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	NOI int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int o, int f) { vs_point(P_MEM); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	NOI T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, int o, int f) { vs_point(P_MEM); __atomic_compare_exchange_n(p, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)
NOI void __tsan_atomic_thread_fence(int o) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
NOI void __tsan_atomic_signal_fence(int o) {}
#endif
