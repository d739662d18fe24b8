#pragma once
#include "mc.h"
#include <pthread.h>
#include <cstdio>
#include <atomic>

namespace mc {

constexpr int MAXF = 64;
constexpr size_t ARENA_SZ = 256ull << 20;
constexpr size_t STACK_SZ = 4ull << 20;
constexpr uintptr_t REG_BASE = 0x100000000000ull;
constexpr uintptr_t ARENA_BASE = REG_BASE;
constexpr uintptr_t STACK_BASE = ARENA_BASE + MAXF * ARENA_SZ;
constexpr uintptr_t REG_END = STACK_BASE + MAXF * STACK_SZ;
constexpr uintptr_t SHADOW_BASE = 0x200000000000ull;
constexpr int MAXLOG = 1 << 17;
constexpr int MAXESC = 64;

enum FState { F_FREE = 0, F_READY, F_COND, F_SLEEP, F_DONE };
enum OpK { O_START = 1, O_LOCK, O_RELOCK, O_WAIT, O_NOTIFY, O_JOIN, O_ATOMIC, O_ACCESS, O_FILE, O_YIELD, O_VISIBLE, O_SLEEP, O_FUTEX, O_RWLOCK };

struct Fiber {
	int state; int op; void* obj; void* obj2; const char* what;
	uint64_t idhash, h; uint64_t nchild;
	uint64_t wait_seq; bool signaled; bool timed; bool timed_out; bool spur;
	void* sp;
	char* arena_cur; char* arena_end;
	uint32_t vc[MAXF];
	uint64_t eh[2]; int err;
	bool joined, detached;
	void* (*fn)(void*); void* arg; void* ret;
	uint64_t wake_ns; int starve, pass; bool demoted;
	char name[32];
	char tls[512];
	int idx;

};

enum End { E_NONE = 0, E_RETURN, E_TERMINATE, E_EXIT, E_VIOLATION, E_PRUNED, E_DIVERGED, E_CRASH, E_HANG, E_OK, E_INTERNAL };

struct LogEnt { uint8_t choice, n, cost; uint8_t costs_mask; };   // cost = cost of chosen; alternatives' cost recomputed below
struct Alt { uint32_t pos; uint8_t choice; uint8_t cost; };

// shared between worker process, its forked children and the parent
struct WorkerShm {
	volatile uint64_t heartbeat;
	volatile uint64_t execs, transitions, states, pruned, steps, max_depth, cut, diverged, terminated;
	volatile int idle;
	volatile int pid;
	volatile double exec_start;
	// current execution
	volatile int log_n;
	LogEnt log[MAXLOG];
	uint8_t altcost[MAXLOG];    // cost of a non-default alternative at each point (0/1; 255 = individual)
	int new_from;               // index of the first choice beyond the prefix
	int end; int exit_code; int log_overflow;
	int prune_at;
	uint64_t budget_used;
	char message[4096];
	uint64_t outcome;
};

struct Race { uintptr_t pc1, pc2; uintptr_t addr; uint8_t w1, w2, file; char desc[256]; };

struct Shm {
	std::atomic<int> lock;
	volatile int stop;
	volatile int nviol;
	struct { int len; int end; char message[4096]; uint8_t choices[MAXLOG]; } viol[4];
	volatile int nesc; uintptr_t esc[MAXESC]; volatile int esc_new; volatile int nesc_round;
	volatile int nraces; Race races[32];
	volatile int noutcomes; uint64_t outcomes[65536];
	std::atomic<uint64_t> counters[32];
	// work queue
	volatile int qn;
	struct Q { int len; uint8_t c[16384]; } q[2048];
	volatile uint64_t visited_used; volatile int visited_full;
	volatile uint64_t race_checks;
};

struct RT {
	int eager_parent; bool in_exec;      // inside an execution (fibers exist)
	int host;          // >0: host scope (no modelling)
	bool armed;        // malloc goes to arenas
	bool verbose;
	Config cfg;
	const Scenario* sc;
	Fiber f[MAXF]; int nf; int cur;
	void* host_sp;
	uint64_t seq; uint64_t clock_ns; uint64_t steps;
	int spurious_used; uint64_t demoted;
	const uint8_t* prefix; int prefix_len;
	int bound; int used;
	uint32_t gen;          // execution generation
	uint32_t nsync;
	uint32_t (*syncvc)[MAXF];
	WorkerShm* w; Shm* s;
	struct VEnt* visited; uint64_t vmask;
	uint64_t statesum;
	struct AEnt { uint64_t key; uint32_t gen; uint32_t vc; uint64_t h; }* amap; uint64_t amask;
	uint64_t nexec;
	uintptr_t data_lo, data_hi;
	uintptr_t esc_local[MAXESC]; int nesc;
};
struct VEnt { std::atomic<uint64_t> key; std::atomic<uint64_t> val; };

extern RT* R;
static inline Fiber* cur() { return &R->f[R->cur]; }
static inline bool active() { return R && R->in_exec && !R->host; }
bool owned(const void* p);
void point(int op, void* obj, const char* what = "");
uint64_t norm(const void* p);
RT::AEnt* aent(const void* p);
void vc_acquire(uint32_t idx);
uint32_t vc_release(uint32_t idx);   // returns (possibly new) index
void end_exec(int kind);
void report_race(uintptr_t pc1, bool w1, uintptr_t pc2, bool w2, uintptr_t addr, bool file);
bool escalated(uintptr_t pc);
void race_access(uintptr_t addr, size_t n, bool write, uintptr_t pc, bool file = false);
void race_range(const void* addr, size_t n, bool write, uintptr_t pc);
void race_reset();
void vfs_init();
}
