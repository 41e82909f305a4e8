// Schedule/crash explorer for fullock.
//
// The library sources of /repo (compiled with -fsanitize=thread for its instrumentation
// only, the runtime is below) run in real processes and threads. Exactly one of them runs
// at a time; every access to the shared memory(and every atomic operation, clock reading,
// yield and, optionally, system call) is a point at which another one may be chosen to
// run, the clock may advance or the process may be killed. What is recorded is only the
// history of calls and results(events), which is checked against the TLA+ specification.
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <dirent.h>
#include <time.h>
#include <unistd.h>
#include <sys/epoll.h>
#include <sys/inotify.h>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <deque>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include "ctl.h"
#include "fullock.h"
#include "rwlockrcsv.h"
using std::string;
using std::vector;

char fullock_commit_hash[] = "verif";

static Ctl*		C;
static pid_t	ctlpid;
static __thread uint32_t	tls_pa = 0, tls_ps = 0;		// address and site of the access
static __thread uint8_t	tls_pw = 0, tls_pcas = 0;
static __thread int		tls_ptr = 0;
static __thread int	tls_actor	= 0;		// 0: not scheduled
static __thread bool tls_in		= false;	// in the runtime
static __thread const void*	tls_spinaddr = NULL;
static __thread int			tls_spincnt = 0;
static int		myproc	= 0;
static int		fork_child = 0;				// actor of the child which is being forked
static int		ncpu_pin= -1;

//---------------------------------------------------------
// real functions
//---------------------------------------------------------
extern "C" {
int __real_clock_gettime(clockid_t, struct timespec*);
int __real_sched_yield(void);
int __real_nanosleep(const struct timespec*, struct timespec*);
int __real_usleep(useconds_t);
int __real_open(const char*, int, ...);
int __real_close(int);
int __real_fcntl(int, int, ...);
int __real_ftruncate(int, off_t);
ssize_t __real_pwrite(int, const void*, size_t, off_t);
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_dup3(int, int, int);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_epoll_create1(int);
int __real_inotify_init1(int);
int __real_inotify_add_watch(int, const char*, uint32_t);
int __real_epoll_ctl(int, int, int, struct epoll_event*);
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
}

//---------------------------------------------------------
// futex
//---------------------------------------------------------
static void fwake(volatile uint32_t* w)
{
	__atomic_store_n(w, 1, __ATOMIC_SEQ_CST);
	syscall(SYS_futex, w, FUTEX_WAKE, 1, NULL, NULL, 0);
}
static bool fwait(volatile uint32_t* w, int ms)
{
	struct timespec ts = {ms / 1000, (ms % 1000) * 1000000L};
	while(0 == __atomic_exchange_n(w, 0, __ATOMIC_SEQ_CST)){
		if(-1 == syscall(SYS_futex, w, FUTEX_WAIT, 0, &ts, NULL, 0) && ETIMEDOUT == errno){
			return 0 != __atomic_exchange_n(w, 0, __ATOMIC_SEQ_CST);
		}
	}
	return true;
}

//---------------------------------------------------------
// scheduler
//---------------------------------------------------------
static uint64_t rnd(void)
{
	uint64_t x = C->rng;
	x ^= x >> 12; x ^= x << 25; x ^= x >> 27;
	C->rng = x;
	return x * 2685821657736338717ULL;
}
static inline bool runnable(int i){ return S_READY == C->a[i].state && C->a[i].sleep_until <= C->now; }

static void progress(void)
{
	C->evstep = C->step;
	C->idle = false;
	for(int i = 1; i <= C->na; i++) C->a[i].rounds = 0;
}
static void logev(int k, int a, int x, int64_t v)
{
	progress();
	if(C->nev < MAXEV - 2){
		Event& e = C->ev[C->nev];
		e.k = k; e.a = a; e.x = x; e.v = v;
		C->nev++;
	}
}
static int64_t usnow(void){ return (C->now - C->cfg.base_ns) / 1000; }

static int nextrr(int me)
{
	for(int i = 1; i <= C->na; i++){
		int	n = ((me - 1 + i) % C->na + C->na) % C->na + 1;
		if(runnable(n)) return n;
	}
	return 0;
}
// choose the next actor(0: there is no runnable one)
static int pick(int me, bool yield)
{
	int	cand[MAXA], nc = 0;
	for(int i = 1; i <= C->na; i++) if(runnable(i)) cand[nc++] = i;
	if(0 == nc) return 0;
	if(1 == nc) return cand[0];
	if(0 == C->x.mode) return nextrr(me ? me : C->na);
	if(1 == C->x.mode){
		while(true){
			int c = cand[rnd() % nc];
			if(!yield || c != me) return c;
		}
	}
	if(yield && me) C->a[me].prio = --C->lowprio;
	int best = cand[0];
	for(int i = 1; i < nc; i++) if(C->a[cand[i]].prio > C->a[best].prio) best = cand[i];
	return best;
}
static const int64_t	MAXTMO = 1000000000;
static bool next_deadline(int64_t& t)
{
	t = 0;
	for(int i = 1; i <= C->na; i++){
		Actor& a = C->a[i];
		if(S_READY != a.state) continue;
		int64_t	c = 0;
		if(a.sleep_until > C->now){
			c = a.sleep_until;
		}else if(a.inop && a.calldl > C->now){
			c = (C->now < a.calldl - 1000) ? a.calldl - 1000 : a.calldl;
		}
		if(c && (0 == t || c < t)) t = c;
	}
	return 0 != t;
}
static void do_tick(int64_t t)
{
	C->now = t;
	logev(E_TICK, 0, 0, usnow());
}
static void try_tick(void)
{
	for(int i = 1; i <= C->na; i++){
		Actor& a = C->a[i];
		if(S_READY == a.state && a.inop && a.calldl && !a.tread) return;
	}
	int64_t t;
	if(next_deadline(t)){
		do_tick(t);
	}
}
// nothing moves any more; returns the next actor or 0(finished)
static int quiesce(void)
{
	bool	pend = false, sleeper = false, bar = false;
	for(int i = 1; i <= C->na; i++){
		Actor& a = C->a[i];
		if(S_READY == a.state && a.inop) pend = true;
		if(S_READY == a.state && a.sleep_until > C->now) sleeper = true;
		if(S_BAR == a.state) bar = true;
	}
	int64_t	t;
	if(sleeper){
		if(next_deadline(t)) do_tick(t);
		return pick(0, false);
	}
	if(pend) logev(E_Q, 0, 0, usnow());
	progress();
	if(bar){
		int	mn = INT_MAX;
		for(int i = 1; i <= C->na; i++) if(S_BAR == C->a[i].state && C->a[i].barlabel < mn) mn = C->a[i].barlabel;
		int	first = 0;
		for(int i = 1; i <= C->na; i++) if(S_BAR == C->a[i].state && C->a[i].barlabel == mn){ C->a[i].state = S_READY; if(!first) first = i; }
		return (0 == C->x.mode) ? first : pick(0, false);
	}
	if(next_deadline(t)){
		do_tick(t);
		return pick(0, false);
	}
	logev(E_END, 0, 0, usnow());
	C->request = R_END;
	return 0;
}
static void handoff(int to)
{
	C->cur = to;
	fwake(to ? &C->a[to].fw : &C->ctlfw);
}
static void waitturn(int me)
{
	while(!fwait(&C->a[me].fw, 20000)){
		if(-1 == kill(ctlpid, 0)) _exit(99);
	}
}
static void switchto(int me, int to)
{
	if(to == me) return;
	handoff(to);
	waitturn(me);
}
static void do_crash(int me, int proc, int reap)
{
	C->reqarg = proc;
	C->reqreap= reap;
	C->request= R_CRASH;
	handoff(0);
	waitturn(me);
}
static void point(bool yield)
{
	int	me = tls_actor;
	if(me <= 0 || !C->running || C->cfg.realtime) return;
	Actor& A = C->a[me];
	A.opts++;
	C->step++;
	uint32_t	pa = tls_pa;
	int			pw = tls_pw, pcas = tls_pcas;
	if(pa){
		// spinning is recorded once
		int		k = C->ntr, lo = k > 8 ? k - 8 : 0;
		while(--k >= lo && C->tr[k].a == me && !(C->tr[k].addr == pa && C->tr[k].site == tls_ps)) ;
		if(0xFFFFFFF0u != pa && k >= lo && C->tr[k].a == me){
			C->tr[k].step = C->step; C->tr[k].w = pw;
			tls_ptr = k + 1;
		}else if(C->ntr < TRMAX){
			Acc&	t = C->tr[C->ntr++];
			t.addr = pa; t.site = tls_ps; t.a = me; t.w = pw; t.step = C->step;
			tls_ptr = C->ntr;
		}else tls_ptr = 0;
	}
	tls_pcas = 0;
	tls_pa = 0; tls_ps = 0; tls_pw = 0;
	if(C->step > C->cfg.maxsteps){
		if(C->step == C->cfg.maxsteps + 1){
			logev(E_BAD, me, 2, A.ip);
			C->request = R_END;
			handoff(0);
			waitturn(me);
		}
		return;
	}
	for(int i = 0; i < C->x.ncrash; i++){
		if(C->x.crash[i].a == me && C->x.crash[i].op == A.ip && C->x.crash[i].n == A.opts && A.inop) do_crash(me, A.proc, C->x.crash[i].reap);
	}
	if(C->dlon){
		if(me == C->dlvictim){
			C->dlon = 0;
		}else if(me == C->dltarget){
			if(C->dlseen || (yield && !C->x.ncrash) || C->step - C->dlstart > 1500){
				C->dlon = 0;
				if(runnable(C->dlvictim)){ switchto(me, C->dlvictim); return; }
			}else if(pa && pa == (C->dladdr & ~1u) && (!(C->dladdr & 1) || (pw && !pcas))){
				C->dlseen = 1;
			}
		}
	}
	if(!C->idle){
		int	nr = 0;
		for(int i = 1; i <= C->na; i++) if(runnable(i)) nr++;
		if(C->step - C->evstep > 150 * (nr ? nr : 1)){
			C->idle	= true;
			C->qleft= 30 + rnd() % 170;
			for(int i = 1; i <= C->na; i++) C->a[i].rounds = 0;
		}
	}
	while(C->preidx < C->x.npre && C->x.pre[C->preidx].step <= C->step){
		uint32_t	dl = C->x.pre[C->preidx].addr;
		int			to = C->x.pre[C->preidx++].to;
		if(-2 == to){
			// the time of the waiting actor is over
			for(int k = 0; k < 4 && A.inop && A.calldl > C->now; k++) try_tick();
		}else if(-1 == to){
			try_tick();
		}else if(0 < to && to <= C->na && to != me && runnable(to)){
			if(dl || C->idle){ C->dlseen = 0; C->dladdr = dl; C->dltarget = to; C->dlvictim = me; C->dlstart = C->step; C->dlon = 1; }
			switchto(me, to);
			return;
		}
	}
	if(C->idle){
		if(C->dlon && me == C->dltarget) return;
		if(--C->qleft > 0) return;
		C->qleft = 30 + rnd() % 170;
		A.rounds++;
		int	mn = INT_MAX;
		for(int i = 1; i <= C->na; i++) if(runnable(i) && C->a[i].rounds < mn) mn = C->a[i].rounds;
		int	to;
		if(mn >= (C->midcrash ? 60 : 10) * C->x.qmul * C->cfg.q){
			to = quiesce();
		}else{
			to = nextrr(me);
		}
		switchto(me, to);
		return;
	}
	if(C->dlon && me == C->dltarget && (!yield || C->x.ncrash)) return;
	if(0 == C->x.mode){
		if(yield) switchto(me, pick(me, true));
	}else if(1 == C->x.mode){
		if(C->x.tickp && rnd() % 10000 < (uint64_t)C->x.tickp) try_tick();
		if(yield || rnd() % 1000 < (uint64_t)C->x.p) switchto(me, pick(me, yield));
	}else{
		if(C->x.tickp && rnd() % 10000 < (uint64_t)C->x.tickp) try_tick();
		if(C->chidx < C->nchange && C->changep[C->chidx] <= C->step){
			C->chidx++;
			A.prio = --C->lowprio;
		}
		switchto(me, pick(me, yield));
	}
}
// the actor can not run(its state or sleep_until was changed)
static void blockme(int me)
{
	int	to = pick(me, true);
	if(0 == to) to = quiesce();
	if(to != me){
		handoff(to);
		waitturn(me);
	}
}

//---------------------------------------------------------
// thread sanitizer interface(instrumentation of the library)
//---------------------------------------------------------
struct Range { uintptr_t lo, len; };
static Range	ranges[8];
static int		nranges = 0;

static inline bool inshm(const void* p)
{
	for(int i = 0; i < nranges; i++) if((uintptr_t)p - ranges[i].lo < ranges[i].len) return true;
	return false;
}
static inline uint32_t shmaddr(const void* p)
{
	for(int i = 0; i < nranges; i++) if((uintptr_t)p - ranges[i].lo < ranges[i].len) return ((uint32_t)((uintptr_t)p - ranges[i].lo) & ~3u) + 4;
	return 0x80000000u | ((uint32_t)(uintptr_t)p & 0x7ffffffcu);
}
static inline void acc_(const void* p, int w, void* site)
{
	if(tls_actor > 0 && inshm(p)){ tls_pa = shmaddr(p); tls_ps = (uint32_t)(uintptr_t)site; tls_pw = w; point(false); }
}
static inline void acca_(const void* p, int w, void* site)
{
	if(tls_actor > 0){ tls_ptr = 0; tls_pa = shmaddr(p); tls_ps = (uint32_t)(uintptr_t)site; tls_pw = w; point(false); }
}
#define acc(p, w)	acc_(p, w, __builtin_return_address(0))
#define acca(p)		acca_(p, 1, __builtin_return_address(0))
#define accc(p)		{ tls_pcas = 1; acca(p); }
static inline void casres(const void* p, bool ok)
{
	if(tls_actor <= 0) return;
	if(ok){
		if(C->dlon && tls_actor == C->dltarget && shmaddr(p) == (C->dladdr & ~1u)) C->dlseen = 1;
	}else if(tls_ptr > 0 && tls_ptr <= C->ntr){
		C->tr[tls_ptr - 1].w = 0;				// has not written
	}
	if(ok || p != tls_spinaddr){
		tls_spinaddr= ok ? NULL : p;
		tls_spincnt	= ok ? 0 : 1;
	}else if(++tls_spincnt >= 3){
		tls_spincnt = 0;
		point(true);
	}
}
#define RW(n)	\
	void __tsan_read##n(void* p){ acc(p, 0); }	\
	void __tsan_write##n(void* p){ acc(p, 1); }	\
	void __tsan_unaligned_read##n(void* p){ acc(p, 0); }	\
	void __tsan_unaligned_write##n(void* p){ acc(p, 1); }	\
	void __tsan_volatile_read##n(void* p){ acc(p, 0); }	\
	void __tsan_volatile_write##n(void* p){ acc(p, 1); }	\
	void __tsan_read_write##n(void* p){ acc(p, 1); }	\
	void __tsan_unaligned_read_write##n(void* p){ acc(p, 1); }
#define AT(n, T)	\
	T __tsan_atomic##n##_load(const volatile T* p, int){ acc((const void*)p, 0); return __atomic_load_n(p, __ATOMIC_SEQ_CST); }	\
	void __tsan_atomic##n##_store(volatile T* p, T v, int){ acca((const void*)p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }	\
	T __tsan_atomic##n##_exchange(volatile T* p, T v, int){ acca((const void*)p); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }	\
	T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int){ acca((const void*)p); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }	\
	T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int){ acca((const void*)p); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }	\
	T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int){ acca((const void*)p); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); }	\
	T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int){ acca((const void*)p); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }	\
	T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int){ acca((const void*)p); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); }	\
	T __tsan_atomic##n##_fetch_nand(volatile T* p, T v, int){ acca((const void*)p); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); }	\
	int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* c, T v, int, int){ accc((const void*)p) bool r = __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); casres((const void*)p, r); return r; }	\
	int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* c, T v, int, int){ accc((const void*)p) bool r = __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); casres((const void*)p, r); return r; }	\
	T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T c, T v, int, int){ accc((const void*)p) T e = c; bool r = __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); casres((const void*)p, r); return e; }
extern "C" {
RW(1) RW(2) RW(4) RW(8) RW(16)
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_init(void){}
void __tsan_func_entry(void*){}
void __tsan_func_exit(void){}
void __tsan_vptr_update(void**, void*){}
void __tsan_vptr_read(void**){}
void __tsan_read_range(void* p, unsigned long){ acc(p, 0); }
void __tsan_write_range(void* p, unsigned long){ acc(p, 1); }
void __tsan_atomic_thread_fence(int){ __sync_synchronize(); }
void __tsan_atomic_signal_fence(int){}
void* __tsan_memcpy(void* d, const void* s, unsigned long n){ acc(d, 1); acc(s, 0); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n){ acc(d, 1); acc(s, 0); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n){ acc(d, 1); return memset(d, c, n); }

//---------------------------------------------------------
// wrapped functions
//---------------------------------------------------------
static bool sched_on(void){ return tls_actor > 0 && C->running && !C->cfg.realtime; }

int __wrap_clock_gettime(clockid_t id, struct timespec* ts)
{
	if(!sched_on()) return __real_clock_gettime(id, ts);
	tls_pa = 0xFFFFFFF0u; tls_ps = (uint32_t)(uintptr_t)__builtin_return_address(0);
	point(false);
	C->a[tls_actor].tread = true;
	ts->tv_sec	= C->now / 1000000000LL;
	ts->tv_nsec	= C->now % 1000000000LL;
	// the clock of the wall may be set at any time
	if(CLOCK_REALTIME == id || CLOCK_REALTIME_COARSE == id || CLOCK_TAI == id) ts->tv_sec += 1700000000 + (((C->step / 64) % 2) ? 100 : 0);
	return 0;
}
int __wrap_sched_yield(void)
{
	if(!sched_on()) return __real_sched_yield();
	point(true);
	return 0;
}
static void vsleep(int64_t ns)
{
	Actor& A = C->a[tls_actor];
	point(false);
	A.sleep_until = C->now + (ns > 0 ? ns : 1);
	progress();
	blockme(tls_actor);
	A.sleep_until = 0;
}
int __wrap_nanosleep(const struct timespec* t, struct timespec* r)
{
	if(!sched_on()) return __real_nanosleep(t, r);
	vsleep(t->tv_sec * 1000000000LL + t->tv_nsec);
	return 0;
}
int __wrap_usleep(useconds_t us)
{
	if(!sched_on()) return __real_usleep(us);
	vsleep(us * 1000LL);
	return 0;
}
// the next system call of a kind fails while this process attaches
enum { F_OPEN = 1, F_TRUNC, F_WRITE, F_MAP, F_THREAD, F_EPOLL, F_INOTIFY, F_WATCH, F_CTL };	// from F_EPOLL: of its worker, each time
static int	g_fault = 0;
static bool fault(int kind)
{
	if(tls_actor <= 0 || g_fault != kind || !C->a[tls_actor].inop) return false;
	g_fault = 0;
	errno = F_OPEN == kind ? EMFILE : F_TRUNC == kind ? EIO : F_WRITE == kind ? ENOSPC : ENOMEM;
	return true;
}
static void syspoint(void){ if(sched_on() && C->cfg.syspoints) point(false); }
int __wrap_open(const char* path, int flags, ...)
{
	va_list	ap;
	va_start(ap, flags);
	int	mode = va_arg(ap, int);
	va_end(ap);
	if(0 != strncmp(path, "/proc", 5)) syspoint();
	if((flags & O_CREAT) && fault(F_OPEN)) return -1;
	return __real_open(path, flags, mode);
}
int __wrap_close(int fd){ syspoint(); return __real_close(fd); }
int __wrap_ftruncate(int fd, off_t l){ syspoint(); if(fault(F_TRUNC)) return -1; return __real_ftruncate(fd, l); }
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o){ syspoint(); if(fault(F_WRITE)) return -1; return __real_pwrite(fd, b, n, o); }
int __wrap_dup3(int a, int b, int f){ syspoint(); return __real_dup3(a, b, f); }
int __wrap_fcntl(int fd, int cmd, ...)
{
	va_list	ap;
	va_start(ap, cmd);
	void*	arg = va_arg(ap, void*);
	va_end(ap);
	if(!sched_on()) return __real_fcntl(fd, cmd, arg);
	syspoint();
	if(F_OFD_SETLKW == cmd || F_SETLKW == cmd){
		while(true){
			int	r = __real_fcntl(fd, F_OFD_SETLKW == cmd ? F_OFD_SETLK : F_SETLK, arg);
			if(0 == r || (EAGAIN != errno && EACCES != errno)) return r;
			point(true);
		}
	}
	return __real_fcntl(fd, cmd, arg);
}
void* __wrap_mmap(void* p, size_t n, int prot, int flags, int fd, off_t o)
{
	syspoint();
	if(-1 != fd && fault(F_MAP)) return MAP_FAILED;
	void*	r = __real_mmap(p, n, prot, flags, fd, o);
	if(MAP_FAILED != r && -1 != fd && (flags & MAP_SHARED)){
		for(int i = 0; i < nranges; i++) if(ranges[i].lo == (uintptr_t)r){ ranges[i].len = n; return r; }
		if(nranges < 8){ ranges[nranges].lo = (uintptr_t)r; ranges[nranges].len = n; nranges++; }
	}
	return r;
}
int __wrap_munmap(void* p, size_t n)
{
	syspoint();
	for(int i = 0; i < nranges; i++) if(ranges[i].lo == (uintptr_t)p){ ranges[i] = ranges[--nranges]; break; }
	return __real_munmap(p, n);
}
static bool wfault(int kind)
{
	if(tls_actor > 0 || g_fault != kind) return false;
	errno = F_WATCH == kind ? ENOSPC : EMFILE;
	return true;
}
int __wrap_epoll_create1(int f){ return wfault(F_EPOLL) ? -1 : __real_epoll_create1(f); }
int __wrap_inotify_init1(int f){ return wfault(F_INOTIFY) ? -1 : __real_inotify_init1(f); }
int __wrap_inotify_add_watch(int f, const char* p, uint32_t m){ return wfault(F_WATCH) ? -1 : __real_inotify_add_watch(f, p, m); }
int __wrap_epoll_ctl(int e, int op, int f, struct epoll_event* ev){ return wfault(F_CTL) ? -1 : __real_epoll_ctl(e, op, f, ev); }
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*f)(void*), void* p)
{
	if(fault(F_THREAD)) return EAGAIN;
	return __real_pthread_create(t, at, f, p);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
	if(!sched_on()) return __real_pthread_mutex_lock(m);
	int	r;
	while(EBUSY == (r = pthread_mutex_trylock(m))) point(true);
	return r;
}
}

//---------------------------------------------------------
// actor
//---------------------------------------------------------
static std::map<int, FLRwlRcsv*>	robj[MAXA + 1];
static std::set<int>				objheld[MAXA + 1];

static int realfd(int slot){ return slot < 0 ? (int)FLCK_RWLOCK_NO_FD(-slot) : 100 + slot; }
static string fpath(const char* p){ return p[0] == '/' ? string(p) : string(C->dir) + "/f/" + p; }
static string spath(const char* p){ return string(C->dir) + "/shm/" + p; }

static int open_slot(int slot, const char* path)
{
	string	p = fpath(path);
	int		fd = '/' == path[0] ? __real_open(p.c_str(), O_RDONLY | O_CLOEXEC, 0) : __real_open(p.c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0666);	// an absolute path is only looked at(directories are OK)
	if(-1 == fd) return -1;
	if(fd != 100 + slot){
		dup2(fd, 100 + slot);
		__real_close(fd);
	}
	return 0;
}
static void setmodes(void)
{
	switch(C->cfg.robust){ case 0: fullock_set_no_robust(); break; case 1: fullock_set_low_robust(); break; default: fullock_set_high_robust(); }
	if(2 == C->cfg.robust) fullock_set_robust_check_count(C->cfg.chk);
	switch(C->cfg.nomap){ case 0: fullock_set_noretry_allow_nomap(); break; case 1: fullock_set_noretry_deny_nomap(); break; case 2: fullock_set_retry_allow_nomap(); break; default: fullock_set_retry_deny_nomap(); }
	switch(C->cfg.free){ case 0: fullock_set_no_freeunit(); break; case 1: fullock_set_fd_freeunit(); break; default: fullock_set_offset_freeunit(); }
}
static int64_t bulk(const Op& o)
{
	int64_t	n = 0, i;
	char	nm[64];
	int		fd = realfd(o.fd);
	switch(o.k){
	case O_BM:
		for(n = 0; n < o.us; n++){ sprintf(nm, "%s%ld", o.n, (long)n); if(0 != fullock_mutex_trylock(nm)) break; }
		for(i = 0; i < n; i++){ sprintf(nm, "%s%ld", o.n, (long)i); if(0 != fullock_mutex_unlock(nm)) return -1 - i; }
		break;
	case O_BO:
		for(n = 0; n < o.us; n++) if(0 != fullock_rwlock_trywrlock(fd, o.o + n * 10, 10)) break;
		for(i = 0; i < n; i++) if(0 != fullock_rwlock_unlock(fd, o.o + i * 10, 10)) return -1 - i;
		break;
	case O_BL:
		for(n = 0; n < o.us; n++) if(0 != fullock_rwlock_tryrdlock(fd, o.o, 10)) break;
		for(i = 0; i < n; i++) if(0 != fullock_rwlock_unlock(fd, o.o, 10)) return -1 - i;
		break;
	case O_BC:
		if(0 != fullock_mutex_lock(o.c)) return -1;
		for(n = 0; n < o.us; n++){ sprintf(nm, "%s%ld", o.n, (long)n); if(ETIMEDOUT != fullock_cond_timedwait(nm, o.c, 0)) break; }
		if(0 != fullock_mutex_unlock(o.c)) return -2;
		break;
	case O_BF:
		for(n = 0; n < o.us; n++){
			sprintf(nm, "%s%ld", o.n, (long)n);
			int f = __real_open(fpath(nm).c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0666);
			if(f != 400 + n){ dup2(f, 400 + n); __real_close(f); }
			if(0 != fullock_rwlock_trywrlock(400 + n, 0, 10)) break;
		}
		for(i = 0; i < n; i++) if(0 != fullock_rwlock_unlock(400 + i, 0, 10)) return -1 - i;
		for(i = 0; i <= n; i++) __real_close(400 + i);
		break;
	}
	return n;
}
static FLRwlRcsv* getobj(int me, int n)
{
	FLRwlRcsv*& p = robj[me][n];
	if(!p) p = new FLRwlRcsv();
	return p;
}
// the object n of the range(made without a lock if there is none yet)
static std::set<int>				objrange[MAXA + 1];
static std::map<int, bool>			objlast[MAXA + 1];		// the type which the object was asked for at last
static std::set<int>				objwrote[MAXA + 1];		// files which were asked for a write lock
static void noteobj(int me, int n, int slot, bool rd)
{
	objlast[me][n] = rd;
	if(!rd) objwrote[me].insert(slot);
}
static FLRwlRcsv* rngobj(int me, int n, int fd, off_t off, size_t len)
{
	if(!objrange[me].count(n)){
		delete robj[me][n];
		robj[me][n] = new FLRwlRcsv(fd, off, len);
		objrange[me].insert(n);
		objlast[me].erase(n);
	}
	return robj[me][n];
}
// Asks the object n for its range by each function which means the same: the one without any parameter repeats the last
// type, which is known for a writer, and for a reader if there was no writer which could hand its lock on to it.
static bool askobj(int me, int n, int fd, off_t off, size_t len, int slot, bool rd)
{
	FLRwlRcsv*	p = rngobj(me, n, fd, off, len);
	bool		same = objlast[me].count(n) && objlast[me][n] == rd && (!rd || !objwrote[me].count(slot));
	noteobj(me, n, slot, rd);
	if(same) return p->Lock();
	if(n & 1) return p->Lock(rd);
	return rd ? p->ReadLock() : p->WriteLock();
}
static void mkobj(int me, int n, int fd, off_t off, size_t len, bool rd)
{
	delete robj[me][n];
	robj[me].erase(n);
	robj[me][n] = new FLRwlRcsv(fd, off, len, rd);
	objrange[me].insert(n);
	objheld[me].insert(n);
}
static void actor_run(int me);
static const char* nul(const char* s){ return 0 == strcmp(s, "~") ? NULL : (0 == strcmp(s, "\"\"") ? "" : s); }

static int64_t run_op(int me, const Op& o)
{
	int	fd = realfd(o.fd);
	switch(o.k){
	case O_ML:	return fullock_mutex_lock(nul(o.n));
	case O_MT:	return fullock_mutex_trylock(nul(o.n));
	case O_MTO:	return fullock_mutex_timedlock(nul(o.n), o.us);
	case O_MU:	return fullock_mutex_unlock(nul(o.n));
	case O_RL:	return fullock_rwlock_rdlock(fd, o.o, o.l);
	case O_RT:	return fullock_rwlock_tryrdlock(fd, o.o, o.l);
	case O_RTO:	return fullock_rwlock_timedrdlock(fd, o.o, o.l, o.us);
	case O_WL:	return fullock_rwlock_wrlock(fd, o.o, o.l);
	case O_WT:	return fullock_rwlock_trywrlock(fd, o.o, o.l);
	case O_WTO:	return fullock_rwlock_timedwrlock(fd, o.o, o.l, o.us);
	case O_UN:	return fullock_rwlock_unlock(fd, o.o, o.l);
	case O_IL:	return fullock_rwlock_islocked(fd, o.o, o.l) ? 1 : 0;
	case O_CW:	return fullock_cond_wait(nul(o.c), nul(o.n));
	case O_CTO:	return fullock_cond_timedwait(nul(o.c), nul(o.n), o.us);
	case O_CS:	return fullock_cond_signal(nul(o.c));
	case O_CB:	return fullock_cond_broadcast(nul(o.c));
	// a process with an object which has a lock is not used for the next execution
	case O_OR:	noteobj(me, o.obj, o.fd, true); if(!getobj(me, o.obj)->Lock(fd, o.o, o.l, true)) return 1; objheld[me].insert(o.obj); objrange[me].insert(o.obj); return 0;
	case O_OW:	noteobj(me, o.obj, o.fd, false); if(!getobj(me, o.obj)->Lock(fd, o.o, o.l, false)) return 1; objheld[me].insert(o.obj); objrange[me].insert(o.obj); return 0;
	case O_ORR:	if(!askobj(me, o.obj, fd, o.o, o.l, o.fd, true)) return 1; objheld[me].insert(o.obj); return 0;
	case O_OWW:	if(!askobj(me, o.obj, fd, o.o, o.l, o.fd, false)) return 1; objheld[me].insert(o.obj); return 0;
	case O_XR:	noteobj(me, o.obj, o.fd, true); mkobj(me, o.obj, fd, o.o, o.l, true); return 0;
	case O_XW:	noteobj(me, o.obj, o.fd, false); mkobj(me, o.obj, fd, o.o, o.l, false); return 0;
	case O_OU:	if(!getobj(me, o.obj)->Unlock()) return 1; objheld[me].erase(o.obj); return 0;
	case O_OD:	delete robj[me][o.obj]; robj[me].erase(o.obj); objheld[me].erase(o.obj); objrange[me].erase(o.obj); objlast[me].erase(o.obj); return 0;
	case O_INIT:
		{
			string	d = string(C->dir) + "/shm";
			if(0 != strcmp(o.c, "-")) d = (o.c[0] == '/' || o.c[0] == '~' || o.c[0] == '"') ? o.c : (o.c[0] == '@' ? string(C->dir) + "/" + (o.c + 1) : o.c);
			// every capacity as default by the short function, if it is requested
			if(-1 == o.caps[0]) return fullock_reinitialize(nul(d.c_str()), nul(o.n)) ? 0 : 1;
			return fullock_reinitialize_ex(nul(d.c_str()), nul(o.n), o.caps[0], o.caps[1], o.caps[2], o.caps[3], o.caps[4], o.caps[5]) ? 0 : 1;
		}
	case O_ROBUST:	return (0 == o.us ? fullock_set_no_robust() : 1 == o.us ? fullock_set_low_robust() : fullock_set_high_robust()) ? 0 : 1;
	case O_NOMAP:	return (0 == o.us ? fullock_set_noretry_allow_nomap() : 1 == o.us ? fullock_set_noretry_deny_nomap() : 2 == o.us ? fullock_set_retry_allow_nomap() : fullock_set_retry_deny_nomap()) ? 0 : 1;
	case O_FREE:	return (0 == o.us ? fullock_set_no_freeunit() : 1 == o.us ? fullock_set_fd_freeunit() : fullock_set_offset_freeunit()) ? 0 : 1;
	case O_CHK:		return fullock_set_robust_check_count(o.us) ? 0 : 1;
	case O_BM: case O_BO: case O_BL: case O_BC: case O_BF:	return bulk(o);
	case O_OPEN:	return open_slot(o.fd, o.c);
	case O_CLOSE:	return __real_close(100 + o.fd);
	case O_DUP:		return dup2(100 + o.obj, 100 + o.fd) == 100 + o.fd ? 0 : -1;
	case O_REACH:	return rmdir(spath(o.n).c_str());
	case O_UNREACH:	unlink(spath(o.n).c_str()); return mkdir(spath(o.n).c_str(), 0777);
	case O_FAULT:
		{
			static std::map<string, int>	K = {{"open", F_OPEN}, {"trunc", F_TRUNC}, {"write", F_WRITE}, {"map", F_MAP}, {"thread", F_THREAD}, {"epoll", F_EPOLL}, {"inotify", F_INOTIFY}, {"watch", F_WATCH}, {"ctl", F_CTL}};
			g_fault = K.count(o.n) ? K[o.n] : 0;
			return 0;
		}
	case O_PERM:	// permissions of a shared file, or the umask of this process
		if(0 == strcmp(o.n, "-")){ mode_t m = umask(0); umask(m); return m; }else{ struct stat st; return 0 == stat(spath(o.n).c_str(), &st) ? (st.st_mode & 0777) : -1; }
	case O_GARBAGE:
		{
			int	f = __real_open(spath(o.n).c_str(), O_RDWR | O_CREAT | O_TRUNC, 0666);
			if(-1 == f) return -1;
			std::vector<unsigned char>	b(o.l > 0 ? o.l : 0);
			for(size_t i = 0; i < b.size(); i++) b[i] = 1 == o.us ? 0xff : 2 == o.us ? (unsigned char)(i * 37 + 1) : 0;
			if(3 == o.us && b.size() >= 48){ uint64_t v = 1; memcpy(&b[0], &v, 8); v = 64; memcpy(&b[32], &v, 8); }
			if(b.size() && (ssize_t)b.size() != write(f, &b[0], b.size())) return -1;
			__real_close(f);
			return 0;
		}
	}
	return -1000;
}
static void exit_handler(void)
{
	int	me = tls_actor;
	if(me <= 0 || !C->running) return;
	C->request = R_EXIT;
	C->reqarg  = C->a[me].proc;
	handoff(0);
	waitturn(me);
}
static void atfork_child(void)
{
	int	child = fork_child;
	if(!child || !C->running) return;
	tls_actor	= child;
	myproc		= C->a[child].proc;
	ctlpid		= ctlpid;
	prctl(PR_SET_PDEATHSIG, 0);
	C->p[myproc].pid	= getpid();
	C->p[myproc].alive	= true;
	C->p[myproc].dirty	= true;
	C->a[child].tid		= getpid();
	C->a[child].fw		= 0;
	__sync_synchronize();
	C->a[child].state	= S_READY;
	waitturn(child);
}
static void cpu_pin(void)
{
	if(ncpu_pin < 0) return;
	cpu_set_t	s;
	CPU_ZERO(&s);
	CPU_SET(ncpu_pin, &s);
	sched_setaffinity(0, sizeof(s), &s);
}

static void actor_run(int me)
{
	Actor& A = C->a[me];
	objrange[me].clear();
	for(A.ip = 0; A.ip < A.nops; A.ip = A.ip + 1){
		const Op& o = A.ops[A.ip];
		A.opts = 0;
		A.inop = false;
		for(int i = 0; i < C->x.ncrash; i++) if(C->x.crash[i].a == me && C->x.crash[i].op == A.ip && 0 == C->x.crash[i].n) do_crash(me, A.proc, C->x.crash[i].reap);
		point(false);
		switch(o.k){
		case O_BAR:
			A.barlabel	= o.us;
			A.state		= S_BAR;
			progress();
			blockme(me);
			continue;
		case O_KILL:
			do_crash(me, o.obj, o.us);
			continue;
		case O_REAP:
			while(0 < waitpid(-1, NULL, WNOHANG));
			continue;
		case O_SETTLE:
			C->reqarg	= o.us;
			C->request	= R_SETTLE;
			handoff(0);
			waitturn(me);
			continue;
		case O_TX:
			C->reqarg	= me;
			C->request	= R_TX;
			handoff(0);
			waitturn(me);
			tls_actor = 0;
			pthread_exit(NULL);
			continue;
		}
		A.opts	= 0;
		A.tread	= false;
		A.calldl= (O_MTO == o.k || O_RTO == o.k || O_WTO == o.k || O_CTO == o.k) && -1 != o.us && o.us <= MAXTMO ? C->now + std::max(o.us, (int64_t)0) * 1000 : 0;	// no end of it(-1, or too far away)
		logev(E_CALL, me, A.ip, usnow());
		A.inop	= true;
		int64_t	r = 0;
		if(O_EXIT == o.k){
			exit(0);
		}else if(O_FORK == o.k){
			fork_child	= o.obj;
			pid_t	pid	= fork();
			if(0 == pid){
				// child(it has the lock objects of the parent)
				robj[o.obj]		= robj[me];
				objrange[o.obj]	= objrange[me];
				actor_run(o.obj);
				_exit(0);
			}
			fork_child	= 0;
			if(-1 == pid){
				r = -1;
			}else{
				while(S_ABSENT == C->a[o.obj].state) __real_sched_yield();
			}
		}else{
			r = run_op(me, o);
		}
		point(false);
		A.inop = false;
		A.calldl = 0;
		if(C->points[me][A.ip] < A.opts) C->points[me][A.ip] = A.opts;
		tls_spincnt = 0;
		logev(E_RET, me, A.ip, r);
	}
	A.opts	= 0;
	A.ip	= A.nops;
	A.inop	= false;
	if(!objheld[me].empty()) C->p[A.proc].dirty = true;
	A.state	= S_DONE;
	progress();
	int	to = pick(me, true);
	if(0 == to) to = quiesce();
	handoff(to);
	while(true){
		waitturn(me);			// next execution
		if(myproc && C->p[myproc].forked){ continue; }
		return;
	}
}
static void reset_fds(Proc& P)
{
	for(int s = 0; s < 64; s++) __real_close(100 + s);
	for(int i = 0; i < P.nfd; i++) open_slot(P.fds[i].slot, P.fds[i].path);
}
static void* actor_thread(void* arg)
{
	int	me = (int)(long)arg;
	tls_actor		= me;
	C->a[me].tid	= (pid_t)syscall(SYS_gettid);
	__sync_fetch_and_add(&C->p[myproc].up, 1);
	waitturn(me);
	while(true) actor_run(me);
	return NULL;
}
static void proc_main(int p)
{
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	if(getppid() != ctlpid) _exit(0);
	Proc& P = C->p[p];
	myproc	= p;
	signal(SIGPIPE, SIG_IGN);
	atexit(exit_handler);
	pthread_atfork(NULL, NULL, atfork_child);
	// environments
	setenv("FLCKAUTOINIT", C->cfg.autoinit ? "YES" : "NO", 1);
	setenv("FLCKDIRPATH", (string(C->dir) + "/shm").c_str(), 1);
	setenv("FLCKFILENAME", "s0", 1);
	setenv("FLCKROBUSTMODE", "NO", 1);
	static const char* cn[] = {"FLCKFILECNT", "FLCKOFFETCNT", "FLCKLOCKERCNT", "FLCKNMTXCNT", "FLCKNCONDCNT", "FLCKWAITERCNT"};
	if(C->cfg.fresh) for(int i = 0; i < 6; i++) if(C->cfg.caps[i]) setenv(cn[i], std::to_string(C->cfg.caps[i]).c_str(), 1);
	for(int i = 0; i < P.nenv; i++){
		string	e = P.env[i];
		size_t	q = e.find('=');
		string	v = e.substr(q + 1);
		if(0 == v.compare(0, 1, "@")) v = string(C->dir) + "/" + v.substr(1);
		if("~" == v) unsetenv(e.substr(0, q).c_str()); else setenv(e.substr(0, q).c_str(), v.c_str(), 1);
	}
	reset_fds(P);
	if(!C->cfg.fresh){
		if(!fullock_reinitialize_ex((string(C->dir) + "/shm").c_str(), "s0", C->cfg.caps[0], C->cfg.caps[1], C->cfg.caps[2], C->cfg.caps[3], C->cfg.caps[4], C->cfg.caps[5])) _exit(3);
		setmodes();
	}
	int	main_actor = 0;
	for(int i = 1; i <= C->na; i++){
		if(C->a[i].proc != p || C->a[i].forked) continue;
		if(0 == C->a[i].thr){
			main_actor = i;
		}else{
			pthread_t		t;
			pthread_attr_t	at;
			pthread_attr_init(&at);
			pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
			pthread_attr_setstacksize(&at, 256 * 1024);
			if(0 != pthread_create(&t, &at, actor_thread, (void*)(long)i)) _exit(4);
		}
	}
	actor_thread((void*)(long)main_actor);
	_exit(0);
}

//---------------------------------------------------------
// controller
//---------------------------------------------------------
static bool alive_in_proc(pid_t pid, pid_t tid)
{
	char	b[128], s[512];
	sprintf(b, "/proc/%d/task/%d/stat", pid, tid);
	int		fd = __real_open(b, O_RDONLY);
	if(-1 == fd) return false;
	ssize_t	n = read(fd, s, sizeof(s) - 1);
	__real_close(fd);
	if(n <= 0) return false;
	s[n] = 0;
	const char*	p = strrchr(s, ')');
	return !(p && ('Z' == p[2] || 'X' == p[2] || 'x' == p[2]));
}
static void msleep_real(int us){ struct timespec t = {us / 1000000, (us % 1000000) * 1000L}; __real_nanosleep(&t, NULL); }
static double wall(void){ struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

// number of tasks of the process
static int ntasks(pid_t pid)
{
	char	b[64];
	sprintf(b, "/proc/%d/task", pid);
	DIR*	d = opendir(b);
	if(!d) return 0;
	int		n = 0;
	while(struct dirent* e = readdir(d)) if('.' != e->d_name[0]) n++;
	closedir(d);
	return n;
}
// wait until the process is dead(zombie or reaped)
static void wait_dead(Proc& P, int reap)
{
	pid_t	pid = P.pid;
	while(true){
		siginfo_t	si;
		memset(&si, 0, sizeof(si));
		if(0 == waitid(P_PID, pid, &si, WEXITED | WNOHANG | WNOWAIT)){
			if(pid == si.si_pid) break;
		}else if(ECHILD == errno){
			// child of another process
			if(!alive_in_proc(pid, pid) && ntasks(pid) <= 1) break;
		}
		__real_sched_yield();
		msleep_real(50);
	}
	P.alive = false;
	P.dirty = true;
	if(reap) waitpid(pid, NULL, WNOHANG);
}
static void kill_proc(int p, int reap)
{
	Proc& P = C->p[p];
	if(P.alive && P.pid > 0){
		kill(P.pid, SIGKILL);
		wait_dead(P, reap);
	}
}
static void mark_dead(int p)
{
	for(int i = 1; i <= C->na; i++){
		if(C->a[i].proc != p) continue;
		if(S_ABSENT == C->a[i].state) continue;
		if(C->a[i].inop) C->midcrash = true;
		C->a[i].state	= S_DEAD;
		C->a[i].inop	= false;
	}
}
static void reap_all(void)
{
	while(0 < waitpid(-1, NULL, WNOHANG));
}
static void spawn(int p)
{
	Proc& P = C->p[p];
	P.up = 0;
	P.dirty = false;
	for(int i = 1; i <= C->na; i++) if(C->a[i].proc == p) C->a[i].fw = 0;
	fflush(stdout);
	pid_t	pid = fork();
	if(0 == pid){
		proc_main(p);
		_exit(0);
	}
	P.pid	= pid;
	P.alive	= true;
}
static bool wait_up(int p)
{
	Proc& P = C->p[p];
	double	t0 = wall();
	while(P.up < P.nthr){
		int	st;
		if(P.pid == waitpid(P.pid, &st, WNOHANG)){ fprintf(stderr, "explore: process %d could not start(status=%d)\n", p, st); P.alive = false; return false; }
		if(wall() - t0 > 30) return false;
		__real_sched_yield();
	}
	return true;
}

static pid_t	keeper = 0;
static char*	shmmap = NULL;
static size_t	shmlen = 0;
static std::vector<char>	pristine;

static void rm_shm_files(void)
{
	string	d = string(C->dir) + "/shm";
	DIR*	dd = opendir(d.c_str());
	if(!dd) return;
	while(struct dirent* e = readdir(dd)){
		if('.' == e->d_name[0]) continue;
		string	f = d + "/" + e->d_name;
		if(0 != unlink(f.c_str())) rmdir(f.c_str());
	}
	closedir(dd);
}
static void stop_keeper(void)
{
	if(keeper){ kill(keeper, SIGKILL); waitpid(keeper, NULL, 0); keeper = 0; }
	if(shmmap){ __real_munmap(shmmap, shmlen); shmmap = NULL; }
}
static bool start_keeper(void)
{
	stop_keeper();
	rm_shm_files();
	int	pp[2];
	if(0 != pipe(pp)) return false;
	fflush(stdout);
	keeper = fork();
	if(0 == keeper){
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		setenv("FLCKAUTOINIT", "NO", 1);
		setenv("FLCKDIRPATH", (string(C->dir) + "/shm").c_str(), 1);
		setenv("FLCKROBUSTMODE", "NO", 1);
		bool	ok = fullock_reinitialize_ex((string(C->dir) + "/shm").c_str(), "s0", C->cfg.caps[0], C->cfg.caps[1], C->cfg.caps[2], C->cfg.caps[3], C->cfg.caps[4], C->cfg.caps[5]);
		char	c = ok ? 'y' : 'n';
		if(1 != write(pp[1], &c, 1)) _exit(1);
		while(true) pause();
	}
	__real_close(pp[1]);
	char	c = 'n';
	ssize_t	n = read(pp[0], &c, 1);
	__real_close(pp[0]);
	if(1 != n || 'y' != c){ fprintf(stderr, "explore: could not make the lock space\n"); return false; }
	int	fd = __real_open((string(C->dir) + "/shm/s0").c_str(), O_RDWR);
	struct stat	st;
	if(-1 == fd || 0 != fstat(fd, &st) || 0 == st.st_size) return false;
	shmlen	= st.st_size;
	shmmap	= (char*)__real_mmap(NULL, shmlen, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	__real_close(fd);
	pristine.assign(shmmap, shmmap + shmlen);
	return true;
}
static void kill_all(void)
{
	for(int p = 1; p <= MAXP; p++){
		if(C->p[p].pid > 0 && C->p[p].alive){ kill(C->p[p].pid, SIGKILL); }
	}
	for(int p = 1; p <= MAXP; p++){
		if(C->p[p].pid > 0){
			if(C->p[p].alive) wait_dead(C->p[p], 1);
			waitpid(C->p[p].pid, NULL, 0);
			C->p[p].pid = 0;
		}
	}
	reap_all();
}

// Executes once. returns false if the machinery itself failed
static long	nexec = 0;
static bool run_exec(void)
{
	nexec++;
	bool	one = false;
	// processes
	for(int p = 1; p <= C->np; p++){
		Proc& P = C->p[p];
		if(P.pid > 0 && (P.dirty || C->cfg.fresh || P.forked)){
			if(P.alive){ kill(P.pid, SIGKILL); wait_dead(P, 1); }
			waitpid(P.pid, NULL, WNOHANG);
			P.pid = 0;
		}
	}
	reap_all();
	for(int i = 1; i <= C->na; i++) C->a[i].state = S_ABSENT;
	if(C->cfg.fresh){
		stop_keeper();
		rm_shm_files();
	}else{
		if(!shmmap && !start_keeper()) return false;
	}
	C->running = 0;
	for(int p = 1; p <= C->np; p++) if(!C->p[p].forked && 0 == C->p[p].pid) spawn(p);
	for(int p = 1; p <= C->np; p++) if(!C->p[p].forked && !wait_up(p)) return false;
	if(!C->cfg.fresh){
		memcpy(shmmap, &pristine[0], shmlen);
	}
	// state
	for(int i = 1; i <= C->na; i++){
		Actor& a = C->a[i];
		a.state	= a.forked ? S_ABSENT : S_READY;
		a.ip = 0; a.inop = false; a.opts = 0; a.rounds = 0; a.calldl = 0; a.tread = false; a.sleep_until = 0; a.barlabel = 0; a.fw = 0;
	}
	C->rng = (C->x.seed + 1) * 0x9E3779B97F4A7C15ULL;
	if(0 == C->rng) C->rng = 1;
	for(int i = 0; i < 4; i++) rnd();
	C->lowprio = 0;
	for(int i = 1; i <= C->na; i++) C->a[i].prio = 1000 + rnd() % 100000;
	C->nchange = 0;
	if(2 == C->x.mode){
		for(int i = 0; i < C->x.d - 1 && i < 8; i++) C->changep[C->nchange++] = 1 + rnd() % (C->x.len > 0 ? C->x.len : 300);
		std::sort(C->changep, C->changep + C->nchange);
	}
	C->chidx = C->preidx = 0;
	C->dlon = 0;
	C->step = C->evstep = 0;
	C->ntr = 0; C->dladdr = 0;
	C->idle = false; C->midcrash = false;
	C->now = C->cfg.base_ns;
	C->nev = 0;
	C->request = R_NONE;
	C->ctlfw = 0;
	C->running = 1;
	int	first = C->x.first >= 1 && C->x.first <= C->na && S_READY == C->a[C->x.first].state ? C->x.first : pick(0, false);
	if(0 == first) first = nextrr(C->na);
	handoff(first);
	int64_t	laststep = -1;
	double	lastt = wall();
	while(true){
		if(!fwait(&C->ctlfw, 100)){
			// watchdog
			bool	died = false;
			for(int p = 1; p <= C->np; p++){
				Proc& P = C->p[p];
				if(P.pid <= 0 || !P.alive) continue;
				siginfo_t	si;
				memset(&si, 0, sizeof(si));
				bool	dead = false;
				int		sig = 0;
				if(0 == waitid(P_PID, P.pid, &si, WEXITED | WNOHANG | WNOWAIT)){ if(P.pid == si.si_pid){ dead = true; sig = si.si_status; } }
				else if(!alive_in_proc(P.pid, P.pid)) dead = true;
				if(dead && 0 == C->ctlfw){
					logev(E_BAD, p, 1, sig);
					P.alive = false; P.dirty = true;
					died = true;
				}
			}
			if(died) break;
			if(laststep != C->step){ laststep = C->step; lastt = wall(); }
			else if(wall() - lastt > 20){
				logev(E_BAD, C->cur, 3, C->cur ? C->a[C->cur].ip : 0);
				one = true;
				break;
			}
			continue;
		}
		int	rq = C->request;
		C->request = R_NONE;
		if(R_END == rq || R_NONE == rq) break;
		if(R_CRASH == rq || R_EXIT == rq){
			int	p = C->reqarg;
			if(C->p[p].alive){
				if(R_CRASH == rq){
					kill_proc(p, C->reqreap);
				}else{
					for(int i = 1; i <= C->na; i++) if(C->a[i].proc == p && S_READY == C->a[i].state && C->a[i].inop){ C->a[i].inop = false; fwake(&C->a[i].fw); }
					wait_dead(C->p[p], C->reqreap);
				}
				mark_dead(p);
				logev(E_DEAD, p, R_EXIT == rq, 0);
			}
		}else if(R_TX == rq){
			int	a = C->reqarg;
			C->a[a].state = S_DEAD;
			C->p[C->a[a].proc].dirty = true;
			fwake(&C->a[a].fw);
			while(alive_in_proc(C->p[C->a[a].proc].pid, C->a[a].tid)){ __real_sched_yield(); msleep_real(20); }
			logev(E_TX, a, 0, 0);
		}else if(R_SETTLE == rq){
			msleep_real(C->reqarg * 1000 * C->x.qmul);
			logev(E_SETTLED, 0, 0, 0);
		}
		int	to = pick(0, false);
		if(0 == to) to = quiesce();
		if(0 == to) break;
		handoff(to);
	}
	C->running = 0;
	if(one || C->cfg.maxsteps < C->step){
		for(int p = 1; p <= C->np; p++) C->p[p].dirty = true;
	}
	for(int i = 1; i <= C->na; i++){
		Actor& a = C->a[i];
		if(S_ABSENT == a.state) continue;
		if(S_DONE != a.state) C->p[a.proc].dirty = true;
	}
	for(int p = 1; p <= C->np; p++){
		Proc& P = C->p[p];
		if(P.fdops) P.dirty = true;
		if(P.pid > 0 && P.dirty && P.alive){ kill(P.pid, SIGKILL); wait_dead(P, 1); }
		if(P.pid > 0 && P.dirty){ waitpid(P.pid, NULL, 0); P.pid = 0; }
	}
	reap_all();
	return true;
}

//---------------------------------------------------------
// script
//---------------------------------------------------------
static string	shape;					// of running processes
static string	progname, newshape;
static std::unordered_map<string, long>	hist;	// histories of this program
static long		maxout = 1000000, quota = 1000000;
static long		prog_execs = 0, emitted = 0;
static double	deadline = 0;

static string exec_str(void)
{
	char	b[256];
	Exec&	x = C->x;
	string	s;
	if(0 == x.mode) sprintf(b, "NP first=%d seed=%lu", x.first, (unsigned long)x.seed);
	else if(1 == x.mode) sprintf(b, "RAND first=%d seed=%lu p=%d tickp=%d", x.first, (unsigned long)x.seed, x.p, x.tickp);
	else sprintf(b, "PCT first=%d seed=%lu d=%d len=%ld tickp=%d", x.first, (unsigned long)x.seed, x.d, (long)x.len, x.tickp);
	s = b;
	for(int i = 0; i < x.npre; i++){ sprintf(b, "%s%ld:%d", i ? "," : " pre=", (long)x.pre[i].step, x.pre[i].to); s += b; if(x.pre[i].addr){ sprintf(b, ":%u", x.pre[i].addr); s += b; } }
	for(int i = 0; i < x.ncrash; i++){ sprintf(b, "%s%d:%d:%ld:%d", i ? "," : " crash=", x.crash[i].a, x.crash[i].op, (long)x.crash[i].n, x.crash[i].reap); s += b; }
	if(1 != x.qmul){ sprintf(b, " qmul=%d", x.qmul); s += b; }
	return s;
}
static void clear_exec(void){ memset(&C->x, 0, sizeof(C->x)); C->x.qmul = 1; C->x.first = 1; }
static std::map<string, string> kv(const vector<string>& w, size_t from)
{
	std::map<string, string>	m;
	for(size_t i = from; i < w.size(); i++){
		size_t	q = w[i].find('=');
		if(string::npos != q) m[w[i].substr(0, q)] = w[i].substr(q + 1);
	}
	return m;
}
static long num(std::map<string, string>& m, const char* k, long d){ return m.count(k) ? atol(m[k].c_str()) : d; }
static void parse_exec(const vector<string>& w, size_t from)
{
	clear_exec();
	Exec&	x = C->x;
	x.mode = "RAND" == w[from] ? 1 : "PCT" == w[from] ? 2 : 0;
	std::map<string, string>	m = kv(w, from + 1);
	x.first	= num(m, "first", 1); x.seed = num(m, "seed", 0); x.p = num(m, "p", 100); x.tickp = num(m, "tickp", 0); x.d = num(m, "d", 3); x.len = num(m, "len", 300); x.qmul = num(m, "qmul", 1);
	string	s = m["pre"];
	for(char* t = strtok(&s[0], ","); t && x.npre < MAXPRE; t = strtok(NULL, ",")){ long a; int b; unsigned u = 0; if(2 <= sscanf(t, "%ld:%d:%u", &a, &b, &u)){ x.pre[x.npre].step = a; x.pre[x.npre].to = b; x.pre[x.npre].addr = u; x.npre++; } }
	string	c = m["crash"];
	for(char* t = strtok(&c[0], ","); t && x.ncrash < MAXCRASH; t = strtok(NULL, ",")){ int a, o, r; long n; if(4 == sscanf(t, "%d:%d:%ld:%d", &a, &o, &n, &r)){ x.crash[x.ncrash].a = a; x.crash[x.ncrash].op = o; x.crash[x.ncrash].n = n; x.crash[x.ncrash].reap = r; x.ncrash++; } }
}
static bool failed = false;
static bool one(void)
{
	if(failed) return false;
	if(!run_exec()){ failed = true; printf("{\"p\":\"%s\",\"fail\":\"%s\"}\n", progname.c_str(), exec_str().c_str()); return false; }
	prog_execs++;
	string	s;
	char	b[96];
	for(int i = 0; i < C->nev; i++){
		Event&	e = C->ev[i];
		sprintf(b, "%s[%d,%d,%d,%ld]", i ? "," : "", e.k, e.a, e.x, (long)e.v);
		s += b;
	}
	long&	n = hist[s];
	if(0 == n++ && emitted < quota){
		emitted++;
		printf("{\"p\":\"%s\",\"x\":\"%s\",\"steps\":%ld,\"ev\":[%s]}\n", progname.c_str(), exec_str().c_str(), (long)C->step, s.c_str());
	}
	return 0 == deadline || wall() < deadline;
}
static uint64_t crng = 1;
static uint64_t crnd(void){ crng ^= crng >> 12; crng ^= crng << 25; crng ^= crng >> 27; return crng * 2685821657736338717ULL; }
// Starting from executions without preemption, conflicting accesses of two actors to one word are
// exchanged one after another: the first one is stopped until the other has accessed the word.
// Pairs of code sites which were exchanged the least are taken first.
struct RacePair { int64_t i; int to; uint32_t addr; uint64_t key; };
struct RaceBase { Exec x; vector<RacePair> pairs; };
static void race(long n, bool tick, int dmax, long ncrash, int mask)
{
	std::deque<RaceBase>				corpus;
	std::unordered_map<uint64_t, long>	tries;
	std::unordered_set<uint64_t>		seen;
	long								execs = 0;
	auto mix = [](uint64_t h, uint64_t v){ h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; };
	auto keep = [&](void){
		// the order of conflicting accesses of each word
		std::unordered_map<uint32_t, std::pair<uint64_t, uint64_t>>	h;
		std::unordered_map<uint32_t, vector<int64_t>>	last[MAXA + 1];
		RaceBase	b;
		b.x = C->x;
		int64_t		from = b.x.npre ? b.x.pre[b.x.npre - 1].step : 0;
		for(int64_t j = 0; j < C->ntr; j++){
			Acc&	t = C->tr[j];
			if(0xFFFFFFF0u == t.addr){
				if(tick && t.step > from){ b.pairs.push_back(RacePair{t.step, -1, 0, mix(t.site, t.a)}); b.pairs.push_back(RacePair{t.step, -2, 0, mix(t.site, t.a + 100)}); }
				continue;
			}
			auto&		q = h[t.addr];
			uint64_t	c = mix(t.site, t.a * 2 + t.w);
			if(q.second != c){ q.first = mix(q.first, c); q.second = c; }
			for(int a = 1; a <= C->na; a++){
				if(a == t.a) continue;
				auto	it = last[a].find(t.addr);
				if(it == last[a].end()) continue;
				for(int64_t i : it->second){
					if(C->tr[i].step <= from || !(t.w || C->tr[i].w)) continue;
					b.pairs.push_back(RacePair{C->tr[i].step, t.a, t.addr | t.w, mix(mix(mix(C->tr[i].site, C->tr[i].w), t.site), 0)});
				}
			}
			auto&	l = last[t.a][t.addr];
			if(!l.empty() && C->tr[l.back()].site == t.site) l.back() = j; else l.push_back(j);
			if(l.size() > 4) l.erase(l.begin());
		}
		uint64_t	sum = C->x.ncrash ? mix(C->x.crash[0].a * 100 + C->x.crash[0].op, C->x.crash[0].n) : 0;
		for(auto& e : h) sum += mix(e.second.first, e.first);
		if(b.pairs.empty() || !seen.insert(sum).second) return;
		corpus.push_back(b);
		if(corpus.size() > 1500) corpus.erase(corpus.begin() + crnd() % 1000);
	};
	static const int ps[] = {20, 60, 150, 350, 600};
	struct T { int f, a, op; int64_t n; int reap; };
	vector<T>	todo;
	memset(C->points, 0, sizeof(C->points));
	for(int f = 1; f <= C->na; f++){
		if(C->a[f].forked) continue;
		clear_exec(); C->x.first = f;
		if(!one()) return;
		execs++;
		if(!ncrash) keep();
	}
	if(ncrash){
		for(int f = 1; f <= C->na; f++){
			if(C->a[f].forked) continue;
			for(int a = 1; a <= C->na; a++){
				if(!(mask & (1 << (a - 1)))) continue;
				for(int op = 0; op < C->a[a].nops; op++){
					if(O_BAR == C->a[a].ops[op].k) continue;
					int64_t	np = std::min<int64_t>(C->points[a][op] ? C->points[a][op] : 5, 150);
					for(int64_t i = 0; i <= np + 1; i++) todo.push_back(T{f, a, op, i, (int)(crnd() % 2)});
				}
			}
		}
		if(todo.empty()) return;
	}
	for(; execs < n; execs++){
		if(ncrash && (corpus.empty() || 0 == crnd() % (1 + execs / ncrash))){
			T	t = todo[crnd() % todo.size()];
			clear_exec();
			C->x.first = t.f;
			C->x.ncrash = 1; C->x.crash[0].a = t.a; C->x.crash[0].op = t.op; C->x.crash[0].n = t.n; C->x.crash[0].reap = t.reap;
			if(!one()) return;
			keep();
			continue;
		}
		if(corpus.empty()) return;
		if(0 == crnd() % 6){
			clear_exec();
			C->x.mode	= 1;
			C->x.first	= 0;
			C->x.seed	= crnd() % 1000000007;
			C->x.p		= ps[crnd() % 5];
			C->x.tickp	= tick ? 200 : 0;
			if(ncrash){ C->x.ncrash = 1; T t = todo[crnd() % todo.size()]; C->x.crash[0].a = t.a; C->x.crash[0].op = t.op; C->x.crash[0].n = t.n; C->x.crash[0].reap = t.reap; }
			if(!one()) return;
			keep();
			continue;
		}
		size_t		e = corpus.size() - 1 - (crnd() % 2 ? crnd() % corpus.size() : crnd() % std::min<size_t>(corpus.size(), 12));
		RaceBase&	b = corpus[e];
		RacePair	best = b.pairs[crnd() % b.pairs.size()];
		for(int k = 0; k < 12; k++){
			RacePair&	r = b.pairs[crnd() % b.pairs.size()];
			if(tries[r.key] < tries[best.key]) best = r;
		}
		tries[best.key]++; if(getenv("DBG")) fprintf(stderr, "%d pairs %zu corpus %zu\n", best.to, b.pairs.size(), corpus.size());
		clear_exec();
		C->x = b.x;
		if(C->x.npre >= MAXPRE - 1) continue;
		C->x.pre[C->x.npre].step = best.i; C->x.pre[C->x.npre].to = best.to; C->x.pre[C->x.npre].addr = crnd() % 3 ? best.addr : 0;
		C->x.npre++;
		if(!one()) return;
		if(C->x.npre < dmax) keep();
	}
}
static void strat(const vector<string>& w)
{
	std::map<string, string>	m = kv(w, 2);
	long	mx = num(m, "max", 1000000), n = num(m, "n", 100), seed = num(m, "seed", 1);
	int		tickp = num(m, "tickp", 0);
	crng = (seed + 7) * 0x9E3779B97F4A7C15ULL;
	for(int i = 0; i < 5; i++) crnd();
	if("X" == w[1]){
		parse_exec(w, 2);
		one();
		return;
	}
	if("SYS" == w[1]){
		// systematic preemption
		int		k = num(m, "k", 1);
		bool	tick = num(m, "tick", 0);
		vector<int64_t>	len(MAXA + 1, 0);
		vector<int>	firsts;
		for(int f = 1; f <= C->na; f++){
			if(C->a[f].forked) continue;
			clear_exec(); C->x.first = f;
			if(!one()) return;
			len[f] = C->step;
			firsts.push_back(f);
		}
		struct T { int f; int64_t s1; int t1; int64_t s2; int t2; };
		vector<T>	todo;
		for(int f : firsts){
			int64_t	L = std::min<int64_t>(len[f], 3000);
			for(int64_t s = 1; s <= L; s++) for(int t = (tick ? -1 : 1); t <= C->na; t++) if(0 != t) todo.push_back(T{f, s, t, 0, 0});
		}
		if(k >= 2){
			size_t	base = todo.size();
			vector<T>	t2;
			for(long i = 0; i < mx; i++){
				T	t = todo[crnd() % base];
				t.s2 = t.s1 + 1 + crnd() % (std::min<int64_t>(len[t.f], 3000) + 40);
				do{ t.t2 = (tick && 0 == crnd() % 5) ? -1 : 1 + crnd() % C->na; }while(t.t2 == t.t1 && C->na > 1);
				t2.push_back(t);
			}
			todo.swap(t2);
		}
		// sample
		for(size_t i = todo.size(); i > 1; i--) std::swap(todo[i - 1], todo[crnd() % i]);
		for(size_t i = 0; i < todo.size() && (long)i < mx; i++){
			clear_exec();
			C->x.first = todo[i].f;
			C->x.npre = 1; C->x.pre[0].step = todo[i].s1; C->x.pre[0].to = todo[i].t1;
			if(todo[i].s2){ C->x.npre = 2; C->x.pre[1].step = todo[i].s2; C->x.pre[1].to = todo[i].t2; }
			if(!one()) return;
		}
		return;
	}
	if("RANDS" == w[1] || "PCTS" == w[1]){
		clear_exec();
		if(!one()) return;
		int64_t	L = std::min<int64_t>((int64_t)C->step, 3000);
		static const int ps[] = {20, 60, 150, 350, 600};
		for(long i = 0; i < n; i++){
			clear_exec();
			C->x.first	= 0;
			C->x.seed	= seed * 1000003 + i;
			C->x.tickp	= tickp;
			if("RANDS" == w[1]){ C->x.mode = 1; C->x.p = num(m, "p", ps[i % 5]); }
			else{ C->x.mode = 2; C->x.d = num(m, "d", 2 + i % 3); C->x.len = L; }
			if(!one()) return;
		}
		return;
	}
	if("RACE" == w[1]){
		crng = (seed + 7) * 0x9E3779B97F4A7C15ULL; race(n, num(m, "tick", 0), num(m, "d", 4), num(m, "crash", 0), num(m, "actors", 255));
		return;
	}
	if("CRASHES" == w[1] || "RCRASH" == w[1]){
		// crash at every point of every operation(NP), or at a random point in random schedules
		int		mask = num(m, "actors", 255);
		int		two	 = num(m, "two", 0);
		memset(C->points, 0, sizeof(C->points));
		for(int f = 1; f <= C->na; f++){
			if(C->a[f].forked) continue;
			clear_exec(); C->x.first = f;
			if(!one()) return;
		}
		int64_t	L = std::min<int64_t>((int64_t)C->step, 3000);
		struct T { int f, a, op; int64_t n; int reap; };
		vector<T>	todo;
		bool	np = "CRASHES" == w[1];
		for(int f = 1; f <= (np ? C->na : 1); f++){
			if(C->a[f].forked) continue;
			for(int a = 1; a <= C->na; a++){
				if(!(mask & (1 << (a - 1)))) continue;
				for(int op = 0; op < C->a[a].nops; op++){
					if(O_BAR == C->a[a].ops[op].k) continue;
					int64_t	np_ = std::min<int64_t>(C->points[a][op] ? C->points[a][op] : 5, 150);
					for(int64_t i = 0; i <= np_ + 1; i++) todo.push_back(T{f, a, op, i, (int)(crnd() % 2)});
				}
			}
		}
		if(todo.empty()) return;
		if(np){
			for(size_t i = todo.size(); i > 1; i--) std::swap(todo[i - 1], todo[crnd() % i]);
			for(size_t i = 0; i < todo.size() && (long)i < mx; i++){
				clear_exec();
				C->x.first = todo[i].f;
				C->x.ncrash = 1;
				C->x.crash[0].a = todo[i].a; C->x.crash[0].op = todo[i].op; C->x.crash[0].n = todo[i].n; C->x.crash[0].reap = todo[i].reap;
				if(!one()) return;
			}
		}else{
			static const int ps[] = {20, 60, 150, 350, 600};
			for(long i = 0; i < n; i++){
				clear_exec();
				C->x.first	= 0;
				C->x.seed	= seed * 1000003 + i;
				C->x.tickp	= tickp;
				if(i % 3){ C->x.mode = 1; C->x.p = ps[i % 5]; }
				else{ C->x.mode = 2; C->x.d = 2 + i % 3; C->x.len = L; }
				C->x.ncrash = two ? 2 : 1;
				for(int k = 0; k < C->x.ncrash; k++){
					T&	t = todo[crnd() % todo.size()];
					C->x.crash[k].a = t.a; C->x.crash[k].op = t.op; C->x.crash[k].n = t.n; C->x.crash[k].reap = t.reap;
				}
				if(!one()) return;
			}
		}
		return;
	}
	fprintf(stderr, "explore: unknown strategy %s\n", w[1].c_str());
	failed = true;
}

static void cpy(char* d, const string& s){ snprintf(d, NAMELEN, "%s", s.c_str()); }
// names of mutexes and conditions: any byte as %xx
static void cpn(char* d, const string& s)
{
	string	r;
	for(size_t i = 0; i < s.size(); i++){
		if('%' == s[i] && i + 2 < s.size()){ r += static_cast<char>(strtol(s.substr(i + 1, 2).c_str(), NULL, 16)); i += 2; }else{ r += s[i]; }
	}
	cpy(d, r);
}
static bool parse_op(const vector<string>& w, Op& o)
{
	// OP a kind args...
	memset(&o, 0, sizeof(o));
	static std::map<string, int>	K = {
		{"ml", O_ML}, {"mt", O_MT}, {"mT", O_MTO}, {"mu", O_MU}, {"rl", O_RL}, {"rt", O_RT}, {"rT", O_RTO}, {"wl", O_WL}, {"wt", O_WT}, {"wT", O_WTO}, {"u", O_UN}, {"il", O_IL},
		{"cw", O_CW}, {"cT", O_CTO}, {"cs", O_CS}, {"cb", O_CB}, {"or", O_OR}, {"ow", O_OW}, {"oR", O_ORR}, {"oW", O_OWW}, {"xr", O_XR}, {"xw", O_XW}, {"ou", O_OU}, {"od", O_OD}, {"init", O_INIT}, {"exit", O_EXIT}, {"fork", O_FORK}, {"kill", O_KILL}, {"tx", O_TX}, {"reap", O_REAP},
		{"robust", O_ROBUST}, {"nomap", O_NOMAP}, {"free", O_FREE}, {"chk", O_CHK}, {"bm", O_BM}, {"bo", O_BO}, {"bl", O_BL}, {"bc", O_BC}, {"bf", O_BF}, {"open", O_OPEN}, {"close", O_CLOSE}, {"dup", O_DUP}, {"reach", O_REACH}, {"unreach", O_UNREACH}, {"bar", O_BAR}, {"settle", O_SETTLE}, {"garbage", O_GARBAGE}, {"perm", O_PERM}, {"fault", O_FAULT}};
	if(w.size() < 3 || !K.count(w[2])) return false;
	o.k = K[w[2]];
	auto	S = [&](size_t i){ return i < w.size() ? w[i] : string(); };
	auto	N = [&](size_t i){ return i < w.size() ? (int64_t)strtoll(w[i].c_str(), NULL, 0) : 0; };
	switch(o.k){
	case O_ML: case O_MT: case O_MU:	cpn(o.n, S(3)); break;
	case O_MTO:	cpn(o.n, S(3)); o.us = N(4); break;
	case O_RL: case O_RT: case O_WL: case O_WT: case O_UN: case O_IL:	o.fd = N(3); o.o = N(4); o.l = N(5); break;
	case O_RTO: case O_WTO:	o.fd = N(3); o.o = N(4); o.l = N(5); o.us = N(6); break;
	case O_CW:	cpn(o.c, S(3)); cpn(o.n, S(4)); break;
	case O_CTO:	cpn(o.c, S(3)); cpn(o.n, S(4)); o.us = N(5); break;
	case O_CS: case O_CB: cpn(o.c, S(3)); break;
	case O_OR: case O_OW: case O_ORR: case O_OWW: case O_XR: case O_XW: o.obj = N(3); o.fd = N(4); o.o = N(5); o.l = N(6); break;
	case O_OU: case O_OD: o.obj = N(3); break;
	case O_INIT: cpy(o.n, S(3)); cpy(o.c, w.size() > 4 ? S(4) : string("-")); if(w.size() <= 5){ o.caps[0] = -1; } for(int i = 0; i < 6 && w.size() > 5; i++) o.caps[i] = N(5 + i); break;
	case O_FORK: o.obj = N(3); break;
	case O_KILL: o.obj = N(3); o.us = w.size() > 4 ? N(4) : 1; break;
	case O_ROBUST: case O_NOMAP: case O_FREE: case O_CHK: case O_BAR: case O_SETTLE: o.us = N(3); break;
	case O_BM: cpy(o.n, S(3)); o.us = N(4); break;
	case O_BC: cpy(o.n, S(3)); cpy(o.c, S(4)); o.us = N(5); break;
	case O_BO: case O_BL: o.fd = N(3); o.o = N(4); o.us = N(5); break;
	case O_BF: cpy(o.n, S(3)); o.us = N(4); break;
	case O_OPEN: o.fd = N(3); cpy(o.c, S(4)); break;
	case O_CLOSE: o.fd = N(3); break;
	case O_DUP: o.fd = N(3); o.obj = N(4); break;
	case O_REACH: case O_UNREACH: case O_PERM: case O_FAULT: cpy(o.n, S(3)); break;
	case O_GARBAGE: cpy(o.n, S(3)); o.us = N(4); o.l = N(5); break;
	}
	return true;
}

int main(int argc, char** argv)
{
	umask(022);
	// explore script dir cpu seconds
	if(argc < 5){ fprintf(stderr, "usage: explore script dir cpu seconds\n"); return 2; }
	FILE*	fp = fopen(argv[1], "r");
	if(!fp){ perror(argv[1]); return 2; }
	ctlpid	= getpid();
	ncpu_pin= atoi(argv[3]);
	double	limit = atof(argv[4]);
	cpu_pin();
	prctl(PR_SET_CHILD_SUBREAPER, 1);
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	C = (Ctl*)__real_mmap(NULL, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	memset(C, 0, sizeof(Ctl));
	char	rp[PATH_MAX];
	if(!realpath(argv[2], rp)){ perror(argv[2]); return 2; }
	snprintf(C->dir, sizeof(C->dir), "%s", rp);
	mkdir((string(C->dir) + "/shm").c_str(), 0777);
	mkdir((string(C->dir) + "/f").c_str(), 0777);
	setvbuf(stdout, NULL, _IOFBF, 1 << 20);

	int		nprog = 0, progidx = 0;
	char*	line = NULL;
	size_t	cap = 0;
	vector<vector<string>>	lines;
	while(-1 != getline(&line, &cap, fp)){
		vector<string>	w;
		for(char* t = strtok(line, " \t\n"); t; t = strtok(NULL, " \t\n")) w.push_back(t);
		if(w.empty() || '#' == w[0][0]) continue;
		if("PROG" == w[0]) nprog++;
		lines.push_back(w);
	}
	fclose(fp);
	double	t0 = wall();
	vector<vector<string>>	strats;
	static Cfg		ncfg;
	static Actor	na[MAXA + 1];
	static Proc		np[MAXP + 1];
	int				nna = 0, nnp = 0;
	for(auto& w : lines){
		if("PROG" == w[0]){
			progname = w[1];
			progidx++;
			memset(&ncfg, 0, sizeof(ncfg)); memset(na, 0, sizeof(na)); memset(np, 0, sizeof(np));
			ncfg.robust = 2; ncfg.free = 1; ncfg.chk = 50; ncfg.base_ns = 1000999999000LL; ncfg.maxsteps = 400000; ncfg.q = 1;
			int64_t	dc[6] = {4, 8, 16, 8, 4, 8};
			memcpy(ncfg.caps, dc, sizeof(dc));
			nna = nnp = 0; maxout = 1000000;
			strats.clear();
			newshape.clear();
		}else if("CFG" == w[0]){
			std::map<string, string>	m = kv(w, 1);
			ncfg.robust = num(m, "robust", 2); ncfg.nomap = num(m, "nomap", 0); ncfg.free = num(m, "free", 1); ncfg.chk = num(m, "chk", 50);
			ncfg.fresh = num(m, "fresh", 0); ncfg.autoinit = num(m, "autoinit", 0); ncfg.syspoints = num(m, "sys", 0); ncfg.realtime = num(m, "rt", 0); ncfg.q = num(m, "q", 1);
			ncfg.base_ns = num(m, "base", 1000999999000LL); ncfg.maxsteps = num(m, "max", 400000);
			if(m.count("caps")){ string s = m["caps"]; int i = 0; for(char* t = strtok(&s[0], ","); t && i < 6; t = strtok(NULL, ",")) ncfg.caps[i++] = atol(t); }
			maxout = num(m, "out", 1000000);
			for(auto& x : w) newshape += x + " ";
		}else if("ACT" == w[0] || "ACTF" == w[0]){
			int	a = atoi(w[1].c_str()), p = atoi(w[2].c_str());
			if(a < 1 || a > MAXA || p < 1 || p > MAXP) return 2;
			na[a].proc = p; na[a].thr = w.size() > 3 ? atoi(w[3].c_str()) : 0; na[a].forked = "ACTF" == w[0];
			if(na[a].forked){ np[p].forked = true; }
			np[p].nthr++;
			nna = std::max(nna, a); nnp = std::max(nnp, p);
			for(auto& x : w) newshape += x + " ";
		}else if("FD" == w[0]){
			Proc&	P = np[atoi(w[1].c_str())];
			P.fds[P.nfd].slot = atoi(w[2].c_str()); cpy(P.fds[P.nfd].path, w[3]); P.nfd++;
			for(auto& x : w) newshape += x + " ";
		}else if("LINK" == w[0]){
			// LINK from to(hard link), LINKS: symbolic link
			int	f = __real_open(fpath(w[1].c_str()).c_str(), O_RDWR | O_CREAT, 0666);
			if(-1 != f) __real_close(f);
			unlink(fpath(w[2].c_str()).c_str());
			if(0 != link(fpath(w[1].c_str()).c_str(), fpath(w[2].c_str()).c_str())) perror("link");
		}else if("LINKS" == w[0]){
			int	f = __real_open(fpath(w[1].c_str()).c_str(), O_RDWR | O_CREAT, 0666);
			if(-1 != f) __real_close(f);
			unlink(fpath(w[2].c_str()).c_str());
			if(0 != symlink(fpath(w[1].c_str()).c_str(), fpath(w[2].c_str()).c_str())) perror("symlink");
		}else if("ENV" == w[0]){
			Proc&	P = np[atoi(w[1].c_str())];
			if(P.nenv < MAXENV) cpy(P.env[P.nenv++], w[2]);
			for(auto& x : w) newshape += x + " ";
		}else if("OP" == w[0]){
			int	a = atoi(w[1].c_str());
			if(a < 1 || a > nna || na[a].nops >= MAXOPS || !parse_op(w, na[a].ops[na[a].nops])){ fprintf(stderr, "explore: bad op in %s\n", progname.c_str()); return 2; }
			int	k = na[a].ops[na[a].nops].k;
			if(O_OPEN == k || O_CLOSE == k || O_DUP == k || O_ROBUST == k || O_NOMAP == k || O_FREE == k || O_CHK == k || O_INIT == k) np[na[a].proc].fdops = true;
			na[a].nops++;
		}else if("STRAT" == w[0]){
			strats.push_back(w);
		}else if("END" == w[0]){
			if(newshape != shape){
				kill_all();
				stop_keeper();
				C->cfg = ncfg;
				shape = newshape;
				for(int i = 1; i <= MAXA; i++) memset((void*)&C->a[i], 0, sizeof(Actor));
				for(int i = 1; i <= MAXP; i++) memset((void*)&C->p[i], 0, sizeof(Proc));
				C->na = nna; C->np = nnp;
				for(int i = 1; i <= nnp; i++) memcpy((void*)&C->p[i], &np[i], sizeof(Proc));
				for(int i = 1; i <= nna; i++){ C->a[i].proc = na[i].proc; C->a[i].thr = na[i].thr; C->a[i].forked = na[i].forked; }
			}
			for(int i = 1; i <= nnp; i++) C->p[i].fdops = np[i].fdops;
			for(int i = 1; i <= nna; i++){ C->a[i].nops = na[i].nops; memcpy((void*)C->a[i].ops, na[i].ops, sizeof(na[i].ops)); }
			hist.clear(); prog_execs = 0; emitted = 0;
			double	tp = wall();
			double	rest = limit - (tp - t0);
			double	share = rest / (nprog - progidx + 1);
			if(limit > 0 && rest <= 0){
				printf("{\"p\":\"%s\",\"skipped\":1}\n", progname.c_str());
				continue;
			}
			for(size_t i = 0; i < strats.size(); i++){
				deadline = limit > 0 ? wall() + std::max(0.02, (share - (wall() - tp)) / (strats.size() - i)) : 0;
				quota = (long)((double)maxout * (i + 1) / strats.size());
				strat(strats[i]);
				if(failed) break;
			}
			printf("{\"p\":\"%s\",\"execs\":%ld,\"distinct\":%ld,\"wall\":%.3f}\n", progname.c_str(), prog_execs, (long)hist.size(), wall() - tp);
			fflush(stdout);
			if(failed){ kill_all(); stop_keeper(); return 3; }
		}else{
			fprintf(stderr, "explore: bad line %s\n", w[0].c_str());
			return 2;
		}
	}
	kill_all();
	stop_keeper();
	fflush(stdout);
	return 0;
}
