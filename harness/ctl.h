// Shared control region of the explorer: it is mapped by the controller and by every
// actor process; scheduling decisions are taken inline by the running actor.
#pragma once
#include <stdint.h>
#include <sys/types.h>

enum { MAXA = 8, MAXP = 8, MAXOPS = 48, MAXEV = 900, MAXPRE = 64, MAXCRASH = 4, NAMELEN = 192, MAXFD = 12, MAXENV = 12 };

enum OpK {
	O_NONE = 0,
	// named mutex
	O_ML, O_MT, O_MTO, O_MU,
	// rwlock
	O_RL, O_RT, O_RTO, O_WL, O_WT, O_WTO, O_UN, O_IL,
	// cond
	O_CW, O_CTO, O_CS, O_CB,
	// recursive rwlock objects
	O_OR, O_OW, O_ORR, O_OWW, O_XR, O_XW, O_OU, O_OD,
	// process life
	O_INIT, O_EXIT, O_FORK, O_KILL, O_TX, O_REAP,
	// configuration
	O_ROBUST, O_NOMAP, O_FREE, O_CHK,
	// bulk probes
	O_BM, O_BO, O_BL, O_BC, O_BF,
	// environment
	O_OPEN, O_CLOSE, O_DUP, O_REACH, O_UNREACH, O_BAR, O_SETTLE, O_GARBAGE, O_PERM, O_FAULT
};

struct Op {
	int		k;
	char	n[NAMELEN];		// mutex name / file label / shm file name
	char	c[NAMELEN];		// cond name / path
	int		fd;				// descriptor slot (negative: NO_FD)
	int		obj;			// recursive object number
	int64_t	o;
	int64_t	l;
	int64_t	us;				// timeout / argument
	int64_t	caps[6];
};

enum EvK { E_CALL = 1, E_RET, E_DEAD, E_TX, E_Q, E_TICK, E_END, E_BAD, E_FORKED, E_SETTLED };

struct Event {
	int		k;
	int		a;				// actor (or process)
	int		x;				// op index
	int64_t	v;				// result / time
};

enum AState { S_ABSENT = 0, S_READY, S_BAR, S_DONE, S_DEAD };
enum Req { R_NONE = 0, R_END, R_CRASH, R_TX, R_EXIT, R_SETTLE };

struct Actor {
	volatile int		state;
	int					proc, thr;
	bool				forked;			// is created by fork in the execution
	volatile uint32_t	fw;				// futex word
	volatile int		ip;				// current op
	volatile bool		inop;
	volatile int64_t	opts;			// points in the current op
	volatile int		rounds;
	volatile int64_t	calldl;			// deadline of the pending timed op (0: none)
	volatile bool		tread;			// the clock was read in the pending op
	volatile int64_t	sleep_until;
	volatile int		barlabel;
	volatile int64_t	prio;
	volatile pid_t		tid;
	int					nops;
	Op					ops[MAXOPS];
};

struct Proc {
	volatile pid_t		pid;
	volatile bool		alive;
	volatile bool		dirty;
	bool				forked;
	int					nthr;
	volatile int		up;				// number of threads which are waiting for start
	int					parent;			// the process which forks this
	bool				fdops;
	int					nfd;
	struct { int slot; char path[NAMELEN]; } fds[MAXFD];
	int					nenv;
	char				env[MAXENV][NAMELEN];
};

struct Exec {
	int			mode;					// 0 NP, 1 RAND, 2 PCT
	uint64_t	seed;
	int			first;					// first actor
	int			p;						// switch probability (1/1000)
	int			tickp;					// tick probability (1/10000)
	int			d;						// PCT depth
	int64_t		len;					// expected length (PCT)
	int			npre;
	struct { int64_t step; int to; uint32_t addr; } pre[MAXPRE];	// to: actor, -1: tick; addr: until it has accessed this
	int			ncrash;
	struct { int a, op; int64_t n; int reap; } crash[MAXCRASH];
	int			qmul;
};

struct Cfg {
	int		robust, nomap, free, chk;
	int64_t	caps[6];
	int		fresh;						// processes are not attached at start
	int		autoinit;
	int64_t	base_ns;
	int		syspoints;					// system calls are scheduling points
	int		realtime;					// no scheduling, real clock, worker threads
	int64_t	maxsteps;
	int		q;				// patience before deciding that nothing moves
};

// accesses of an execution
enum { TRMAX = 4000 };
struct Acc { uint32_t addr, site; int32_t step; uint8_t a, w; };

struct Ctl {
	Cfg					cfg;
	Exec				x;
	int					na, np;
	Actor				a[MAXA + 1];	// 1..na
	Proc				p[MAXP + 1];	// 1..np
	volatile int		cur;			// running actor, 0: controller
	volatile uint32_t	ctlfw;
	volatile int		running;		// an execution is running
	volatile int		request;
	volatile int		reqarg, reqreap;
	volatile int64_t	step;
	volatile int64_t	evstep;
	volatile int64_t	qleft;			// points left in the quantum(idle mode)
	volatile bool		idle;
	volatile bool		midcrash;
	volatile int64_t	now;
	uint64_t			rng;
	volatile int		nev;
	Event				ev[MAXEV];
	int64_t				changep[8];		// PCT change points
	int					nchange;
	volatile int		chidx;
	volatile int		preidx;
	volatile int64_t	lowprio;
	char				dir[256];		// scratch directory
	int64_t				points[MAXA + 1][MAXOPS];	// number of points of each op
	volatile int		dlon, dlseen, dltarget, dlvictim;	// the victim is stopped until the target has accessed dladdr
	volatile uint32_t	dladdr;						// lowest bit: it must have written
	volatile int64_t	dlstart;
	volatile int		ntr;
	Acc					tr[TRMAX];
};
