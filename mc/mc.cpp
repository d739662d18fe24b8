// Controlled scheduler + explorer. See DESIGN.md.
#include "internal.h"
#include <cstring>
#include <cstdlib>
#include <cstdarg>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <deque>
#include <memory>
#include <exception>
#include <stdexcept>
#include <iostream>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <link.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/auxv.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <linux/futex.h>

extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
extern char __data_start, _end;
extern char __libc_single_threaded;
extern void* _IO_list_all;
void mc_switch(void** save, void* to);
}
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }

asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	subq $8, %rsp
	stmxcsr (%rsp)
	fnstcw 4(%rsp)
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	ldmxcsr (%rsp)
	fldcw 4(%rsp)
	addq $8, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size mc_switch,.-mc_switch
)");

namespace mc {
RT* R = nullptr;
void race_init();
static std::vector<Scenario>& scs() { static auto* v = new std::vector<Scenario>(); return *v; }
void add(const std::string& n, const Config& c, std::function<void()> b, std::function<void(const char*)> e) { scs().push_back(Scenario{n, c, b, e}); }

uint64_t mix(uint64_t a, uint64_t b) {
	uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0xD1B54A32D192ED03ull + (a << 6) + (a >> 2));
	x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 29; x *= 0x94D049BB133111EBull; x ^= x >> 32;
	return x;
}
uint64_t hash_bytes(const void* p, size_t n, uint64_t h) {
	const uint8_t* d = (const uint8_t*)p;
	for(size_t i = 0; i < n; ++i) { h = (h ^ d[i]) * 0x100000001B3ull; h ^= h >> 29; }
	return mix(h, n);
}
static double mono() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

bool in_exec() { return active(); }
int fiber_id() { return R->cur; }
Host::Host() { saved = 0; if(R) R->host++; }
Host::~Host() { if(R) R->host--; }

bool owned(const void* p) {
	uintptr_t a = (uintptr_t)p;
	if(a >= REG_BASE && a < REG_END) return true;
	if(a >= R->data_lo && a < R->data_hi) return true;
	if(R->cfg.fork_exec) {   // heap objects live on the libc heap in this mode: everything outside shared libraries
		if(a < 0x700000000000ull || a > 0x7fffffffffffull) return true;
		Dl_info di; return !dladdr(p, &di);
	}
	return false;
}
uint64_t norm(const void* p) {
	uintptr_t a = (uintptr_t)p;
	if(a >= ARENA_BASE && a < STACK_BASE) { int i = (a - ARENA_BASE) / ARENA_SZ; return mix(R->f[i].idhash, (a - ARENA_BASE) % ARENA_SZ); }
	if(a >= STACK_BASE && a < REG_END) { int i = (a - STACK_BASE) / STACK_SZ; return mix(R->f[i].idhash + 1, (a - STACK_BASE) % STACK_SZ); }
	return a;
}
RT::AEnt* aent(const void* p) {
	uint64_t k = (uintptr_t)p, i = mix(k, 3) & R->amask;
	for(;;) {
		RT::AEnt& e = R->amap[i];
		if(e.gen != R->gen) { e.gen = R->gen; e.key = k; e.vc = 0; e.h = mix(norm(p), 99); return &e; }
		if(e.key == k) return &e;
		i = (i + 1) & R->amask;
	}
}
static void seth(Fiber* f, uint64_t h) { R->statesum -= mix(f->idhash, f->h); f->h = h; R->statesum += mix(f->idhash, h); }
void tag(uint64_t h) { if(active()) { Fiber* f = cur(); seth(f, mix(f->h, h)); } }

// ---- vector clocks
static bool vcs() { return R->cfg.races; }
static uint32_t vc_new() { if(R->nsync + 1 >= (1u << 18)) return 0; uint32_t i = ++R->nsync; memset(R->syncvc[i], 0, sizeof(R->syncvc[i])); return i; }
void vc_acquire(uint32_t i) { if(!i || !vcs()) return; Fiber* f = cur(); for(int k = 0; k < R->nf; ++k) if(R->syncvc[i][k] > f->vc[k]) f->vc[k] = R->syncvc[i][k]; }
uint32_t vc_release(uint32_t i) {
	if(!vcs()) return 0;
	if(!i) i = vc_new();
	if(!i) return 0;
	Fiber* f = cur();
	for(int k = 0; k < R->nf; ++k) if(f->vc[k] > R->syncvc[i][k]) R->syncvc[i][k] = f->vc[k];
	f->vc[f->idx]++;
	return i;
}

// ---- ending an execution
static void to_host() { void* dummy; R->cur = -1; mc_switch(&dummy, R->host_sp); __builtin_unreachable(); }
void end_exec(int kind) {
	R->w->end = kind;
	R->host++;
	to_host();
}
void end_exec_ok() { if(active()) end_exec(E_OK); }
void fail(const char* fmt, ...) {
	va_list ap; va_start(ap, fmt);
	if(!R->in_exec) {   // from at_end
		vsnprintf(R->w->message, sizeof(R->w->message), fmt, ap); va_end(ap);
		R->w->end = E_VIOLATION; throw 4711;
	}
	R->host++;
	vsnprintf(R->w->message, sizeof(R->w->message), fmt, ap); va_end(ap);
	end_exec(E_VIOLATION);
}
void msg(const char* fmt, ...) {
	if(!R || !R->verbose) return;
	Host h; char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	dprintf(2, "  [T%d] %s\n", R->cur, b);
}
void Ints::push(int x) { if(n < 256) v[n++] = x; }
int Ints::size() const { return n; }
int Ints::at(int i) const { return v[i]; }
void Ints::clear() { n = 0; }
bool Ints::has(int x) const { for(int i = 0; i < n; ++i) if(v[i] == x) return true; return false; }
int Ints::count_less(int x) const { int k = 0; for(int i = 0; i < n; ++i) if(v[i] < x) ++k; return k; }
void Int::set(long x) { v = x; }
long Int::get() const { return v; }
long Int::add(long d) { v += d; return v; }
void add_counter(int i, uint64_t v) { R->s->counters[i] += v; }
void outcome(uint64_t h) { R->w->outcome = mix(R->w->outcome, h); }
uint64_t now_ns() { return R->clock_ns; }
void advance_clock(uint64_t ns) { R->clock_ns += ns; }

// ---- choices
static bool visited_prune(uint64_t key, int remaining) {
	if(!R->cfg.cache || R->cfg.fork_exec) return false;
	if(!key) key = 1;
	uint64_t i = mix(key, 17) & R->vmask;
	for(int probe = 0; probe < 64; ++probe) {
		VEnt& e = R->visited[i];
		uint64_t k = e.key.load();
		if(k == 0) {
			if(e.key.compare_exchange_strong(k, key)) { e.val = remaining + 1; R->w->states++; return false; }
		}
		if(k == key) {
			uint64_t v = e.val.load();
			while(v < (uint64_t)remaining + 1) if(e.val.compare_exchange_weak(v, remaining + 1)) return false;
			return true;
		}
		i = (i + 1) & R->vmask;
	}
	R->s->visited_full = 1;
	return false;
}
// n options; cost[i] deviations for option i. cacheable: state key for pruning
static int pick(int n, const uint8_t* cost, bool sched) {
	WorkerShm* w = R->w;
	if(sched && R->cfg.fork_exec && R->cfg.mode == DELAY && R->cfg.max_bound == 0) return 0;   // one schedule per data choice: nothing to log
	int pos = w->log_n, c = 0;
	if(pos >= MAXLOG) { R->s->visited_full |= 2; return 0; }   // log full: default choices from here on (deterministic, not branched); the step limit decides whether it ever ends
	if(pos < R->prefix_len) {
		c = R->prefix[pos];
		if(c >= n) { snprintf(w->message, sizeof w->message, "replay divergence at choice %d: option %d of %d", pos, c, n); end_exec(E_DIVERGED); }
	} else if(!R->verbose || R->cfg.exec_cap != ~0ull) {
		int rem = R->cfg.mode == UNBOUNDED ? 0 : R->bound - R->used;
		uint64_t key = R->statesum;
		if(R->cfg.mode != UNBOUNDED) key = mix(key, cur()->idhash);
		key = mix(key, sched ? 1 : 2 + cur()->idhash);
		key = mix(key, R->spurious_used);
		if(R->demoted) key = mix(key, R->demoted);
		if(visited_prune(key, rem)) { w->prune_at = pos; end_exec(E_PRUNED); }
	}
	LogEnt& l = w->log[pos];
	l.choice = c; l.n = n; l.cost = cost[c]; l.costs_mask = 0;
	uint8_t mx = 0; for(int i = 1; i < n; ++i) { if(i < 8 && cost[i]) l.costs_mask |= 1 << i; mx = std::max(mx, cost[i]); }
	w->altcost[pos] = n > 8 ? mx : 0;
	w->log_n = pos + 1;
	R->used += cost[c];
	if(R->cfg.mode != UNBOUNDED && R->used > R->bound) { snprintf(w->message, sizeof w->message, "budget exceeded at choice %d", pos); end_exec(E_DIVERGED); }
	return c;
}
int choose(int n, const char* what, int cost) {
	if(n <= 1 || !active()) return 0;
	uint8_t cs[256]; if(n > 255) n = 255;
	for(int i = 0; i < n; ++i) cs[i] = i ? cost : 0;
	Host h;
	int c = pick(n, cs, false);
	Fiber* f = cur(); seth(f, mix(f->h, 0x1000 + c));
	if(R->verbose) dprintf(2, "  [T%d] choose %s = %d of %d\n", R->cur, what, c, n);
	return c;
}

// ---- scheduler
struct MM { uint32_t owner; uint32_t rec; uint32_t o8, o12; int kind; uint32_t o20; uint64_t h; uint32_t vc; uint32_t pad; };
static_assert(sizeof(MM) <= sizeof(pthread_mutex_t), "");
struct RWL { uint32_t writer; uint32_t readers; uint32_t vc; uint32_t pad; uint64_t h; };

static bool mutex_free(void* m, Fiber* f) { MM* mm = (MM*)m; return mm->owner == 0 || (mm->kind == PTHREAD_MUTEX_RECURSIVE && mm->owner == (uint32_t)f->idx + 1); }
static bool enabled(Fiber* f) {
	switch(f->state) {
	case F_READY:
		switch(f->op) {
		case O_LOCK: return mutex_free(f->obj, f);
		case O_JOIN: return R->f[(uintptr_t)f->obj].state == F_DONE;
		case O_RWLOCK: { RWL* l = (RWL*)f->obj; return f->obj2 ? (!l->writer && !l->readers) : !l->writer; }
		default: return true;
		}
	case F_COND: return f->signaled && (!f->obj2 || mutex_free(f->obj2, f));
	default: return false;
	}
}
static const char* opname(int o) {
	switch(o) { case O_START: return "start"; case O_LOCK: return "lock"; case O_RELOCK: return "relock"; case O_WAIT: return "cond-wait"; case O_NOTIFY: return "notify"; case O_JOIN: return "join";
	case O_ATOMIC: return "atomic"; case O_ACCESS: return "racy-access"; case O_FILE: return "file"; case O_YIELD: return "yield"; case O_VISIBLE: return "visible"; case O_SLEEP: return "sleep"; case O_FUTEX: return "futex"; case O_RWLOCK: return "rwlock"; }
	return "?";
}
static void describe(char* b, size_t n) {
	size_t k = 0;
	for(int i = 0; i < R->nf && k + 200 < n; ++i) {
		Fiber* f = &R->f[i]; if(f->state == F_DONE || f->state == F_FREE) continue;
		k += snprintf(b + k, n - k, "; T%d%s%s%s %s", i, f->name[0] ? "(" : "", f->name, f->name[0] ? ")" : "", f->state == F_COND ? (f->signaled ? "waiting to re-lock a mutex held by another thread" : "blocked in condition wait") : f->state == F_SLEEP ? "sleeping" : opname(f->op));
		if(f->state == F_READY && f->op == O_LOCK) k += snprintf(b + k, n - k, " (mutex held by T%d)", (int)((MM*)f->obj)->owner - 1);
		if(f->state == F_READY && f->op == O_JOIN) k += snprintf(b + k, n - k, " (T%d)", (int)(uintptr_t)f->obj);
	}
}
static void swap_out(Fiber* f);
static void swap_in(Fiber* f);
static size_t g_tls_size; static char* g_tls; static char* g_tls_init;
static void swap_out(Fiber* f) {
	f->err = errno;
	uint64_t* g = (uint64_t*)__cxxabiv1::__cxa_get_globals(); f->eh[0] = g[0]; f->eh[1] = g[1];
	if(g_tls_size) memcpy(f->tls, g_tls, g_tls_size);
}
static void swap_in(Fiber* f) {
	errno = f->err;
	uint64_t* g = (uint64_t*)__cxxabiv1::__cxa_get_globals(); g[0] = f->eh[0]; g[1] = f->eh[1];
	if(g_tls_size) memcpy(g_tls, f->tls, g_tls_size);
}
static int select_next() {
	WorkerShm* w = R->w;
	w->heartbeat++;
	if(++R->steps > R->cfg.max_steps) { char b[1500]; describe(b, sizeof b); snprintf(w->message, sizeof w->message, "no termination within %llu scheduling steps (livelock)%s", (unsigned long long)R->cfg.max_steps, b); end_exec(E_VIOLATION); }
	bool forced = false;
	int opt[3 * MAXF]; uint8_t cost[3 * MAXF]; int kind[3 * MAXF]; int n = 0;
	const int c = R->cur; const int nf = R->nf;
	const bool cur_en = enabled(&R->f[c]);
	const bool demote = R->cfg.sched_default >= 5; const int pol = demote ? (R->cfg.sched_default == 5 ? 0 : R->cfg.sched_default == 6 ? 1 : 3) : R->cfg.sched_default;
	auto put = [&](int i, int k) { opt[n] = i; kind[n] = k; n++; };
	if(pol == 0 && cur_en) put(c, 0);
	if(pol <= 1) { for(int d = 1; d <= nf; ++d) { int i = (c + d) % nf; if(i == c && pol == 0) continue; if(enabled(&R->f[i])) put(i, 0); } }
	else if(pol == 2) { for(int i = nf - 1; i >= 0; --i) if(enabled(&R->f[i])) put(i, 0); }
	else { if(cur_en && (pol == 4)) put(c, 0); for(int i = 0; i < nf; ++i) { if(pol == 4 && i == c) continue; if(enabled(&R->f[i])) put(i, 0); } }
	const int n_en = n;
	if(demote && R->demoted) std::stable_partition(opt, opt + n, [](int i) { return !(R->f[i].demoted); });   // all of kind 0
	if(R->cfg.fair) {
		int sv = -1;
		for(int j = 0; j < n; ++j) { Fiber* f = &R->f[opt[j]]; if(f->starve > R->cfg.fair && (sv < 0 || f->starve > R->f[sv].starve)) sv = opt[j]; }
		if(sv >= 0) { n = 1; opt[0] = sv; kind[0] = 0; forced = true; }
	}
	// timers: sleeping or timed waiting fibers
	uint64_t best = ~0ull; int bi = -1;
	for(int i = 0; i < nf; ++i) { Fiber* f = &R->f[i]; if((f->state == F_SLEEP || (f->state == F_COND && f->timed && !f->signaled)) && f->wake_ns < best && (f->state == F_SLEEP || !f->obj2 || mutex_free(f->obj2, f))) { best = f->wake_ns; bi = i; } }
	if(bi >= 0 && !forced) put(bi, 1);
	if(R->cfg.spurious > R->spurious_used && !forced) for(int i = 0; i < nf; ++i) { Fiber* f = &R->f[i]; if(f->state == F_COND && !f->signaled && f->obj2 && mutex_free(f->obj2, f)) put(i, 2); }
	if(n == 0 || (n_en == 0 && bi < 0)) {
		if(n_en == 0 && bi < 0) {
			bool any = false; for(int i = 0; i < nf; ++i) if(R->f[i].state != F_DONE && R->f[i].state != F_FREE) any = true;
			char b[1500]; b[0] = 0; describe(b, sizeof b);
			snprintf(w->message, sizeof w->message, "deadlock: no thread can make progress%s", any ? b : " (all done)");
			end_exec(R->cfg.deadlock_ok ? E_OK : E_VIOLATION);
		}
	}
	for(int i = 0; i < n; ++i) {
		if(kind[i]) cost[i] = (n_en == 0 && kind[i] == 1) ? 0 : 1;
		else if(R->cfg.mode == PREEMPT) cost[i] = (cur_en && opt[i] != c) ? 1 : 0;
		else cost[i] = i ? 1 : 0;
	}
	int k = 0;
	if(n > 1) k = pick(n, cost, true);
	if(demote && k > 0 && n_en > 0 && !R->f[opt[0]].demoted) { R->f[opt[0]].demoted = true; R->demoted = mix(R->demoted, R->f[opt[0]].idhash); }
	Fiber* f = &R->f[opt[k]];
	if(R->cfg.fair) { for(int i = 0; i < nf; ++i) if(enabled(&R->f[i])) R->f[i].starve++; f->starve = 0; }
	if(kind[k] == 1) {
		if(R->clock_ns < f->wake_ns) R->clock_ns = f->wake_ns;
		if(f->state == F_SLEEP) { f->state = F_READY; f->op = O_YIELD; seth(f, mix(f->h, 0x51EE9)); }
		else { f->signaled = true; f->timed_out = true; seth(f, mix(f->h, 0x71ED)); }
	} else if(kind[k] == 2) { R->spurious_used++; f->signaled = true; f->spur = true; seth(f, mix(f->h, 0x5B0)); }
	if(R->verbose) dprintf(2, "step %llu: run T%d%s%s%s  %s %s%s (%d option(s))\n", (unsigned long long)R->steps, opt[k], f->name[0] ? "(" : "", f->name, f->name[0] ? ")" : "", f->state == F_COND ? "wake" : opname(f->op), f->what ? f->what : "", kind[k] == 2 ? " [spurious]" : kind[k] == 1 ? " [timer]" : "", n);
	return opt[k];
}
static void resched() {   // current fiber has its pending operation set (or is blocked/done)
	int me = R->cur;
	if(R->eager_parent >= 0) {   // a new thread reached its first visible operation: back to its creator
		int p = R->eager_parent; R->eager_parent = -1;
		Fiber* a = &R->f[me]; Fiber* b = &R->f[p];
		swap_out(a); R->cur = p; swap_in(b);
		mc_switch(&a->sp, b->sp);
		return;
	}
	R->host++;
	int nx = select_next();
	R->host--;
	if(nx == me) return;
	Fiber* a = &R->f[me]; Fiber* b = &R->f[nx];
	swap_out(a);
	R->cur = nx;
	swap_in(b);
	mc_switch(&a->sp, b->sp);
}
void point(int op, void* obj, const char* what) {
	Fiber* f = cur();
	f->state = F_READY; f->op = op; f->obj = obj; f->what = what;
	resched();
	seth(f, mix(f->h, op));
	if(op == O_ACCESS) { RT::AEnt* e = aent(obj); seth(f, mix(mix(f->h, e->h), 0xACC)); e->h = f->h; }
	else if(op == O_VISIBLE || op == O_FILE) { RT::AEnt* e = aent(obj); seth(f, mix(mix(f->h, e->h), 0xF11E)); e->h = f->h; }
}
void yield_point(const char* what) { if(active()) point(O_YIELD, nullptr, what); }
void visible_impl(void* obj, const char* what) { if(active()) point(O_VISIBLE, obj, what); }

static void fiber_entry() {
	Fiber* f = cur();
	seth(f, mix(f->h, O_START));
	{
		f->ret = f->fn(f->arg);
	}
	f = cur();
	vc_release(0);
	f->state = F_DONE;
	seth(f, mix(f->h, 0xD0E));
	resched();
	__builtin_trap();
}
static Fiber* new_fiber(void* (*fn)(void*), void* arg) {
	int i = R->nf;
	if(i >= MAXF) {   // recycle a joined slot (long executions)
		for(i = 1; i < MAXF; ++i) if(R->f[i].state == F_DONE && (R->f[i].joined || R->f[i].detached)) break;
		if(i >= MAXF) { snprintf(R->w->message, sizeof R->w->message, "too many threads"); end_exec(E_INTERNAL); }
	} else R->nf++;
	Fiber* f = &R->f[i];
	uint32_t oldclk = f->vc[i];
	bool recycled = f->state == F_DONE;
	char* ac = f->arena_cur;
	if(recycled) R->statesum -= mix(f->idhash, f->h);
	memset(f, 0, offsetof(Fiber, tls));
	f->idx = i;
	f->state = F_READY; f->op = O_START; f->fn = fn; f->arg = arg;
	char* ab = (char*)ARENA_BASE + i * ARENA_SZ;
	f->arena_cur = recycled ? ac : ab; f->arena_end = ab + ARENA_SZ;
	f->vc[i] = recycled ? oldclk + 1 : 1;
	if(g_tls_size) memcpy(f->tls, g_tls_init, g_tls_size);
	uint64_t* sp = (uint64_t*)((char*)STACK_BASE + (i + 1) * STACK_SZ - 64);
	*--sp = 0;                       // fake return address
	*--sp = (uint64_t)&fiber_entry;
	for(int k = 0; k < 6; ++k) *--sp = 0;
	*--sp = 0;
	uint32_t mxcsr; uint16_t cw; asm volatile("stmxcsr %0\n fnstcw %1" : "=m"(mxcsr), "=m"(cw));
	((uint32_t*)sp)[0] = mxcsr; ((uint32_t*)sp)[1] = cw;
	f->sp = sp;
	return f;
}
// ---- races
bool escalated(uintptr_t pc) { for(int i = 0; i < R->nesc; ++i) if(R->esc_local[i] == pc) return true; return false; }
static void slock() { while(R->s->lock.exchange(1)) { struct timespec t = {0, 1000}; syscall(SYS_nanosleep, &t, 0); } }
static void sunlock() { R->s->lock = 0; }
void report_race(uintptr_t pc1, bool w1, uintptr_t pc2, bool w2, uintptr_t addr, bool file) {
	Shm* s = R->s;
	for(int i = 0; i < s->nraces; ++i) if((s->races[i].pc1 == pc1 && s->races[i].pc2 == pc2) || (s->races[i].pc1 == pc2 && s->races[i].pc2 == pc1)) return;
	Host h; slock();
	bool known = false;
	for(int i = 0; i < s->nraces; ++i) if((s->races[i].pc1 == pc1 && s->races[i].pc2 == pc2) || (s->races[i].pc1 == pc2 && s->races[i].pc2 == pc1)) known = true;
	if(!known && s->nraces < 32) {
		Race& r = s->races[s->nraces]; r.pc1 = pc1; r.pc2 = pc2; r.addr = addr; r.w1 = w1; r.w2 = w2; r.file = file; s->nraces = s->nraces + 1;
		for(uintptr_t pc : {pc1, pc2}) {
			bool e = false; for(int i = 0; i < s->nesc; ++i) e |= s->esc[i] == pc;
			if(!e && s->nesc < MAXESC) { s->esc[s->nesc] = pc; s->nesc = s->nesc + 1; s->esc_new = 1; }
		}
	}
	sunlock();
	if(R->verbose) dprintf(2, "  [T%d] DATA RACE at %p: %s pc=%p vs %s pc=%p\n", R->cur, (void*)addr, w1 ? "write" : "read", (void*)pc1, w2 ? "write" : "read", (void*)pc2);
}

// ---- one execution
static char* g_snap; static void* g_iolist; static uint64_t g_eh0[2];
static std::vector<void (*)()>& reset_hooks() { static auto* v = new std::vector<void (*)()>(); return *v; }
static struct sigaction* sigtab() { static struct sigaction* t = (struct sigaction*)__libc_calloc(65, sizeof(struct sigaction)); return t; }
static void* main_fiber(void*) {
	try { R->sc->body(); }
	catch(const std::exception& ex) { std::string w = ex.what(); fail("uncaught exception in driver: %s", w.c_str()); }
	R->w->end = E_RETURN;
	R->host++;
	to_host();
	return nullptr;
}
static void on_terminate() {
	if(active()) {
		std::string why = "std::terminate";
		if(auto p = std::current_exception()) { try { std::rethrow_exception(p); } catch(const std::exception& e) { why += std::string(": ") + e.what(); } catch(...) { why += ": unknown exception"; } }
		R->host++;
		snprintf(R->w->message, sizeof R->w->message, "process terminated (%s)", why.c_str());
		R->host--;
		end_exec(E_TERMINATE);
	}
	_exit(97);
}
static void crash_handler(int sig, siginfo_t* si, void*) {
	if(R && R->w) {
		snprintf(R->w->message, sizeof R->w->message, "crash: signal %d (address %p)", sig, si ? si->si_addr : nullptr);
		R->w->end = E_CRASH;
	}
	_exit(98);
}
static void restore_world() {
	memcpy((void*)R->data_lo, g_snap, R->data_hi - R->data_lo);
	_IO_list_all = g_iolist;
	uint64_t* g = (uint64_t*)__cxxabiv1::__cxa_get_globals(); g[0] = g_eh0[0]; g[1] = g_eh0[1];
}
static void run_raw(const uint8_t* prefix, int len) {
	WorkerShm* w = R->w;
	R->prefix = prefix; R->prefix_len = len; R->used = 0; R->spurious_used = 0; R->demoted = 0; R->steps = 0; R->seq = 0; R->clock_ns = 1700000000ull * 1000000000ull;
	R->nf = 0; R->gen++; R->eager_parent = -1; R->nsync = 0; R->statesum = 0; R->host = 0; R->nexec++;
	for(int i = 0; i < MAXF; ++i) { R->f[i].state = F_FREE; R->f[i].vc[i] = 0; }
	w->log_n = 0; w->end = E_NONE; w->exit_code = 0; w->prune_at = -1; w->message[0] = 0; w->outcome = 0;
	R->nesc = R->s->nesc_round; memcpy(R->esc_local, R->s->esc, sizeof(R->esc_local));
	vfs::reset();
	memset(sigtab(), 0, 65 * sizeof(struct sigaction));
	Fiber* m = new_fiber(main_fiber, nullptr); m->idhash = 12345; m->h = 1; strcpy(m->name, "main");
	R->statesum += mix(m->idhash, m->h);
	R->cur = 0; R->in_exec = true; R->armed = !R->cfg.fork_exec || R->cfg.races;
	Fiber hostf; uint64_t* g = (uint64_t*)__cxxabiv1::__cxa_get_globals(); hostf.eh[0] = g[0]; hostf.eh[1] = g[1];
	char tls_save[512]; if(g_tls_size) memcpy(tls_save, g_tls, g_tls_size);
	swap_in(m);
	mc_switch(&R->host_sp, m->sp);
	R->in_exec = false; R->armed = false; R->host = 0;
	g[0] = hostf.eh[0]; g[1] = hostf.eh[1];
	if(g_tls_size) memcpy(g_tls, tls_save, g_tls_size);
	int e = w->end;
	if(e == E_TERMINATE && !R->cfg.terminate_ok) { w->end = E_VIOLATION; }
	if(R->sc->at_end && (e == E_RETURN || e == E_EXIT || (e == E_TERMINATE && R->cfg.terminate_ok))) {
		char how[64]; snprintf(how, sizeof how, "%s", e == E_RETURN ? "return" : e == E_TERMINATE ? "terminate" : "exit"); if(e == E_EXIT) snprintf(how, sizeof how, "exit:%d", w->exit_code);
		try { R->sc->at_end(how); } catch(int) {}
	} else if(e == E_EXIT) { snprintf(w->message, sizeof w->message, "unexpected exit(%d)", w->exit_code); w->end = E_VIOLATION; }
	w->steps += R->steps;
}
static void run_exec(const uint8_t* prefix, int len) {
	WorkerShm* w = R->w;
	w->exec_start = mono();
	if(R->cfg.fork_exec) {
		w->end = E_CRASH; strcpy(w->message, "execution process died");
		int pid = fork();
		if(!pid) { prctl(PR_SET_PDEATHSIG, SIGKILL); run_raw(prefix, len); _exit(0); }
		int st = 0; while(waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
		if(WIFSIGNALED(st)) { w->end = E_CRASH; snprintf(w->message, sizeof w->message, "execution process killed by signal %d", WTERMSIG(st)); }
	} else {
		restore_world();
		run_raw(prefix, len);
		_IO_list_all = g_iolist;
	}
	w->exec_start = 0;
}
static void record_violation(const char* m, int end) {
	slock();
	Shm* s = R->s;
	bool dup = false; for(int i = 0; i < s->nviol; ++i) dup |= !strcmp(s->viol[i].message, m);
	if(!dup && s->nviol < 4) {
		auto& v = s->viol[s->nviol]; v.end = end; v.len = R->w->log_n;
		snprintf(v.message, sizeof v.message, "%s", m);
		for(int i = 0; i < v.len; ++i) v.choices[i] = R->w->log[i].choice;
		s->nviol = s->nviol + 1;
	}
	s->stop = 1;
	sunlock();
}
struct Node { std::shared_ptr<std::vector<uint8_t>> base; uint32_t pos; uint8_t alt; };

static void worker(int id, int nworkers, WorkerShm* ws, double deadline) {
	R->w = &ws[id]; WorkerShm* w = R->w; Shm* s = R->s;
	w->pid = getpid();
	std::deque<Node> local;
	std::vector<uint8_t> pre;
	int check_every = 0;
	for(;;) {
		if(s->stop) break;
		if(mono() > deadline || (R->cfg.exec_cap && w->execs * nworkers > R->cfg.exec_cap)) { s->stop = 2; break; }
		bool got = false;
		if(!local.empty()) {
			Node n = local.back(); local.pop_back();
			pre.assign(n.base->begin(), n.base->begin() + n.pos); pre.push_back(n.alt); got = true;
		} else {
			w->idle = 1;
			slock();
			if(s->qn > 0) { auto& q = s->q[s->qn - 1]; pre.assign(q.c, q.c + q.len); s->qn = s->qn - 1; w->idle = 0; got = true; }
			sunlock();
			if(!got) {
				bool all = true; for(int i = 0; i < nworkers; ++i) all &= ws[i].idle != 0;
				if(all && s->qn == 0) break;
				struct timespec t = {0, 200000}; syscall(SYS_nanosleep, &t, 0);
				continue;
			}
		}
		uint64_t steps0 = w->steps;
		run_exec(pre.data(), pre.size());
		w->execs++;
		if(R->cfg.fork_exec && R->cfg.mode == DELAY && R->cfg.max_bound == 0) w->transitions += w->steps - steps0;
		w->transitions += w->log_n > (int)pre.size() ? w->log_n - pre.size() + 1 : 1;
		if((uint64_t)w->log_n > w->max_depth) w->max_depth = w->log_n;
		int e = w->end;
		if(e == E_PRUNED) w->pruned++;
		else if(e == E_TERMINATE) w->terminated++;
		if(e == E_VIOLATION || e == E_CRASH || e == E_DIVERGED || e == E_INTERNAL) { record_violation(w->message, e); if(e == E_DIVERGED) w->diverged++; break; }
		if(e != E_PRUNED) {
			slock(); bool seen = false; int no = s->noutcomes; for(int i = 0; i < no && !seen; ++i) seen = s->outcomes[i] == w->outcome; if(!seen && no < 65536) { s->outcomes[no] = w->outcome; s->noutcomes = no + 1; } sunlock();
		}
		if(s->esc_new) { s->stop = 3; break; }
		// expand
		auto base = std::make_shared<std::vector<uint8_t>>();
		int used = 0; int n = w->log_n; base->resize(n);
		for(int i = 0; i < n; ++i) {
			LogEnt& l = w->log[i]; (*base)[i] = l.choice;
			if(i >= (int)pre.size()) {
				for(int a = l.n - 1; a >= 1; --a) {
					if(a == l.choice) continue;
					int c = a < 8 ? (l.costs_mask >> a) & 1 : w->altcost[i];
					if(R->cfg.mode != UNBOUNDED && used + c > R->bound) { w->cut++; continue; }
					local.push_back(Node{base, (uint32_t)i, (uint8_t)a});
				}
			}
			used += l.cost;
		}
		if(nworkers > 1 && s->qn < nworkers * 2 && local.size() > 1) {
			slock();
			while(local.size() > 1 && s->qn < nworkers * 4) {
				Node nd = local.front(); if(nd.pos + 1 > 16384) break;
				local.pop_front();
				auto& q = s->q[s->qn]; q.len = nd.pos + 1; memcpy(q.c, nd.base->data(), nd.pos); q.c[nd.pos] = nd.alt; s->qn = s->qn + 1;
			}
			sunlock();
		}
	}
	w->idle = 2;
}

static void json_str(FILE* o, const char* s) { fputc('"', o); for(; *s; ++s) { if(*s == '"' || *s == '\\') { fputc('\\', o); fputc(*s, o); } else if((unsigned char)*s < 32) fprintf(o, "\\u%04x", *s); else fputc(*s, o); } fputc('"', o); }

static void prepare(const Scenario& sc) { R->sc = &sc; R->cfg = sc.cfg; R->bound = sc.cfg.bound; }

static int explore(const Scenario& sc, int nworkers, double cap_scale, FILE* out, const std::string& replay_dir) {
	double t0 = mono();
	const double cap = sc.cfg.time_cap * cap_scale;
	Shm* s = R->s;
	memset((void*)s, 0, offsetof(Shm, q));
	WorkerShm* ws = R->w;
	uint64_t execs = 0, trans = 0, states = 0, pruned = 0, steps = 0, depth = 0, cut = 0, term = 0; int bound_done = -1; bool exhaustive = false, capped = false; int restarts = 0;
	int viol = 0; std::string vmsg; std::vector<uint8_t> vch; int vend = 0;
	prepare(sc);
	int b = sc.cfg.bound;
	for(;;) {
		R->bound = b;
		s->nesc_round = s->nesc; s->stop = 0; s->qn = 0; s->esc_new = 0; s->visited_full = 0;
		s->q[0].len = 0; s->qn = 1;
		if(sc.cfg.cache && !sc.cfg.fork_exec) { memset((void*)R->visited, 0, (R->vmask + 1) * sizeof(VEnt)); }
		for(int i = 0; i < nworkers; ++i) memset((void*)&ws[i], 0, offsetof(WorkerShm, log));
		std::vector<int> pids(nworkers);
		for(int i = 0; i < nworkers; ++i) {
			pids[i] = fork();
			if(!pids[i]) {
				prctl(PR_SET_PDEATHSIG, SIGKILL);
				worker(i, nworkers, ws, t0 + cap); _exit(0);
			}
		}
		int live = nworkers; bool hang = false;
		std::vector<uint64_t> hb(nworkers, 0); std::vector<double> hbt(nworkers, mono());
		while(live > 0) {
			int st; int p = waitpid(-1, &st, WNOHANG);
			if(p > 0) {
				for(int i = 0; i < nworkers; ++i) if(pids[i] == p) {
					pids[i] = 0; live--;
					if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
						if(!(s->stop && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) {
							R->w = &ws[i];
							char m[4096]; if(WIFEXITED(st) && WEXITSTATUS(st) == 98) snprintf(m, sizeof m, "%s", ws[i].message); else snprintf(m, sizeof m, "worker died (status %x)", st);
							record_violation(m, E_CRASH);
						}
						ws[i].idle = 2;
					}
				}
				continue;
			}
			struct timespec t = {0, 2000000}; syscall(SYS_nanosleep, &t, 0);
			double now = mono();
			for(int i = 0; i < nworkers; ++i) if(pids[i]) {
				if(ws[i].heartbeat != hb[i] || ws[i].exec_start == 0) { hb[i] = ws[i].heartbeat; hbt[i] = now; }
				else if(now - hbt[i] > (sc.cfg.fork_exec ? 60 : 30)) {
					R->w = &ws[i]; if(!hang) record_violation("hang: no scheduling point reached for a long time (endless loop)", E_HANG); hang = true;
					kill(pids[i], SIGKILL);
				}
				// a worker that reaches no scheduling point any more is left to the hang detector above
				if(now > t0 + cap + (sc.cfg.fork_exec ? 30 : 10) && now - hbt[i] < 5) { s->stop = s->stop ? s->stop : 2; kill(pids[i], SIGKILL); }
			}
		}
		R->w = ws;
		uint64_t bcut = 0;
		for(int i = 0; i < nworkers; ++i) { execs += ws[i].execs; trans += ws[i].transitions; states += ws[i].states; pruned += ws[i].pruned; steps += ws[i].steps; depth = std::max(depth, (uint64_t)ws[i].max_depth); bcut += ws[i].cut; term += ws[i].terminated; }
		if(s->nviol) { viol = 1; vmsg = s->viol[0].message; vend = s->viol[0].end; vch.assign(s->viol[0].choices, s->viol[0].choices + s->viol[0].len); break; }
		if(s->stop == 3 || s->esc_new) { if(++restarts <= 6) { b = sc.cfg.bound; continue; } s->stop = 2; }
		cut += bcut;
		if(s->stop == 2) { capped = true; break; }
		bound_done = b;
		if(sc.cfg.mode == UNBOUNDED || bcut == 0) { exhaustive = true; break; }
		if(b >= sc.cfg.max_bound) break;
		b++;
	}
	// confirm violation by replay in a fresh process, twice
	std::string replay_path; bool confirmed = false; std::string rmsg;
	if(viol) {
		bool same = true; 
		for(int k = 0; k < 2; ++k) {
			memset((void*)&ws[0], 0, offsetof(WorkerShm, log)); ws[0].end = E_CRASH; strcpy(ws[0].message, "crash"); ws[0].exec_start = 0;
			int pid = fork();
			if(!pid) { prctl(PR_SET_PDEATHSIG, SIGKILL); R->w = &ws[0]; R->cfg.cache = false; R->bound = 1 << 20; run_exec(vch.data(), vch.size()); _exit(0); }
			double tt = mono(), th = tt; uint64_t h0 = 0; int st = 0; int r;
			while((r = waitpid(pid, &st, WNOHANG)) == 0) { struct timespec t = {0, 1000000}; syscall(SYS_nanosleep, &t, 0); if(ws[0].heartbeat != h0) { h0 = ws[0].heartbeat; th = mono(); } if(mono() - tt > 120 || mono() - th > 45) { kill(pid, SIGKILL); waitpid(pid, &st, 0); snprintf(ws[0].message, sizeof ws[0].message, "hang: no scheduling point reached for a long time (endless loop)"); ws[0].end = E_HANG; break; } }
			int e = ws[0].end;
			bool bad = e == E_VIOLATION || e == E_CRASH || e == E_HANG;
			if(!bad) same = false;
			if(k == 0) rmsg = ws[0].message; else if(rmsg != ws[0].message) same = false;
		}
		confirmed = same && vend != E_DIVERGED && vend != E_INTERNAL;
		if(!replay_dir.empty()) {
			std::string nm = sc.name; for(auto& c : nm) if(!isalnum((unsigned char)c) && c != '-' && c != '_' && c != '.') c = '_';
			replay_path = replay_dir + "/" + nm + ".replay";
			if(FILE* f = fopen(replay_path.c_str(), "w")) { fprintf(f, "%s\n%s\n", sc.name.c_str(), vmsg.c_str()); fprintf(f, "%d", (int)s->nesc_round); for(int i = 0; i < s->nesc_round; ++i) fprintf(f, " %lu", s->esc[i]); fprintf(f, "\n"); for(auto c : vch) fprintf(f, "%d ", c); fprintf(f, "\n"); fclose(f); }
		}
	}
	fprintf(out, "{\"scenario\":"); json_str(out, sc.name.c_str());
	fprintf(out, ",\"mode\":\"%s\",\"bound_completed\":%d,\"max_bound\":%d,\"exhaustive\":%s,\"capped\":%s,\"executions\":%llu,\"transitions\":%llu,\"states\":%llu,\"pruned\":%llu,\"steps\":%llu,\"max_depth\":%llu,\"cut_by_bound\":%llu,\"terminated\":%llu,\"outcomes\":%d,\"visited_full\":%d,\"restarts\":%d,\"wall_s\":%.3f",
		sc.cfg.mode == UNBOUNDED ? "unbounded" : sc.cfg.mode == PREEMPT ? "preemption-bounded" : "deviation-bounded", bound_done, sc.cfg.max_bound, exhaustive ? "true" : "false", capped ? "true" : "false",
		(unsigned long long)execs, (unsigned long long)trans, (unsigned long long)states, (unsigned long long)pruned, (unsigned long long)steps, (unsigned long long)depth, (unsigned long long)cut, (unsigned long long)term, s->noutcomes, s->visited_full, restarts, mono() - t0);
	fprintf(out, ",\"counters\":["); for(int i = 0; i < 32; ++i) fprintf(out, "%s%llu", i ? "," : "", (unsigned long long)s->counters[i].load()); fprintf(out, "]");
	fprintf(out, ",\"races\":[");
	for(int i = 0; i < s->nraces; ++i) { Race& r = s->races[i]; fprintf(out, "%s{\"pc1\":\"%lx\",\"w1\":%d,\"pc2\":\"%lx\",\"w2\":%d,\"file\":%d}", i ? "," : "", r.pc1, r.w1, r.pc2, r.w2, r.file); }
	fprintf(out, "]");
	if(viol) { fprintf(out, ",\"violation\":"); json_str(out, vmsg.c_str()); fprintf(out, ",\"confirmed\":%s,\"end\":%d,\"choices\":%d,\"replay\":", confirmed ? "true" : "false", vend, (int)vch.size()); json_str(out, replay_path.c_str()); fprintf(out, ",\"replay_message\":"); json_str(out, rmsg.c_str()); }
	fprintf(out, "}\n"); fflush(out);
	return viol ? (vend == E_HANG ? 3 : 1) : 0;
}
static void init_rt() {
	__libc_single_threaded = 0;
	R = (RT*)mmap(0, sizeof(RT), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	new (&R->cfg) Config();
	mmap((void*)REG_BASE, REG_END - REG_BASE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	R->syncvc = (uint32_t(*)[MAXF])mmap(0, (1ull << 18) * sizeof(uint32_t) * MAXF, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	R->amask = (1 << 20) - 1;
	R->amap = (RT::AEnt*)mmap(0, (R->amask + 1) * sizeof(RT::AEnt), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	R->s = (Shm*)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	R->w = (WorkerShm*)mmap(0, sizeof(WorkerShm) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	R->vmask = (1ull << 25) - 1;
	R->data_lo = (uintptr_t)&__data_start & ~7ull; R->data_hi = ((uintptr_t)&_end + 7) & ~7ull;
	if(R->data_hi > (((uintptr_t)&_end + 4095) & ~4095ull)) R->data_hi = (uintptr_t)&_end & ~7ull;
	race_init();
	dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void*) -> int {
		for(int k = 0; k < i->dlpi_phnum; ++k) if(i->dlpi_phdr[k].p_type == PT_TLS) {
			g_tls_size = i->dlpi_phdr[k].p_memsz; g_tls = (char*)i->dlpi_tls_data;
		}
		return 1;   // main program only
	}, nullptr);
	if(g_tls_size > 512) { dprintf(2, "mc: TLS segment too big\n"); _exit(3); }
	g_tls_init = (char*)malloc(512); if(g_tls_size) memcpy(g_tls_init, g_tls, g_tls_size);
	static char* as = (char*)malloc(65536); stack_t ss{}; ss.ss_sp = as; ss.ss_size = 65536; sigaltstack(&ss, 0);
	struct sigaction sa{}; sa.sa_sigaction = crash_handler; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
	for(int g : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) syscall(SYS_rt_sigaction, 0), ((int (*)(int, const struct sigaction*, struct sigaction*))dlsym(RTLD_NEXT, "sigaction"))(g, &sa, nullptr);
	sigtab(); reset_hooks();
	std::set_terminate(on_terminate);
	vfs_init();
}
static void take_snapshot() {
	R->visited = (VEnt*)mmap(0, (R->vmask + 1) * sizeof(VEnt), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	g_snap = (char*)__libc_malloc(R->data_hi - R->data_lo);
	g_iolist = _IO_list_all;
	uint64_t* g = (uint64_t*)__cxxabiv1::__cxa_get_globals(); g_eh0[0] = g[0]; g_eh0[1] = g[1];
	memcpy(g_snap, (void*)R->data_lo, R->data_hi - R->data_lo);
}
}
using namespace mc;

int mc_main(int argc, char** argv) {
	init_rt();
	std::string cmd = argc > 1 ? argv[1] : "list", tier = "quick", filt, out = "", rdir = "", exact; int nw = 8; double scale = 1; std::string rfile;
	for(int i = 2; i < argc; ++i) {
		std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if(a == "--tier") tier = nx(); else if(a == "--filter") filt = nx(); else if(a == "--scenario") exact = nx(); else if(a == "--out") out = nx(); else if(a == "--replay-dir") rdir = nx();
		else if(a == "-j") nw = atoi(nx().c_str()); else if(a == "--scale") scale = atof(nx().c_str()); else rfile = a;
	}
	register_scenarios(tier);
	if(cmd == "list") { for(auto& s : scs()) printf("%s\n", s.name.c_str()); return 0; }
	if(cmd == "replay") {
		FILE* f = fopen(rfile.c_str(), "r"); if(!f) { perror("replay"); return 3; }
		char line[8192]; std::string name; if(fgets(line, sizeof line, f)) name = line; while(!name.empty() && name.back() == '\n') name.pop_back();
		if(!fgets(line, sizeof line, f)) return 3;
		int ne = 0; if(fscanf(f, "%d", &ne) != 1) return 3; for(int i = 0; i < ne; ++i) { unsigned long x; if(fscanf(f, "%lu", &x) != 1) return 3; R->s->esc[i] = x; } R->s->nesc = R->s->nesc_round = ne;
		std::vector<uint8_t> ch; int v; while(fscanf(f, "%d", &v) == 1) ch.push_back(v); fclose(f);
		for(auto& s : scs()) if(s.name == name) {
			take_snapshot();
			memset((void*)R->w, 0, offsetof(WorkerShm, log));
			prepare(s); R->cfg.cache = false; R->bound = 1 << 20; R->verbose = true;
			int pid = fork(); if(!pid) { run_exec(ch.data(), ch.size()); _exit(0); }
			int st; waitpid(pid, &st, 0);
			printf("end=%d %s\n", R->w->end, R->w->message);
			int e = R->w->end; return e == E_RETURN || e == E_OK || e == E_TERMINATE || e == E_EXIT ? 0 : 1;
		}
		fprintf(stderr, "no such scenario %s\n", name.c_str()); return 3;
	}
	FILE* o = out.empty() ? fdopen(dup(1), "w") : fopen(out.c_str(), "a");
	int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); if(!getenv("MC_STDERR")) dup2(dn, 2);
	std::cout.setstate(std::ios::badbit); std::cerr.setstate(std::ios::badbit);
	take_snapshot();
	int bad = 0;
	for(auto& s : scs()) {
		if(!filt.empty() && s.name.find(filt) == std::string::npos) continue;
		if(!exact.empty() && s.name != exact) continue;
		bad |= explore(s, nw, scale, o, rdir);
		if((bad & 2) || (bad && getenv("MC_STOP"))) break;   // an endless loop is slow to confirm: one is enough
	}
	return bad ? 1 : 0;
}
#ifndef MC_NO_MAIN
int main(int argc, char** argv) { return mc_main(argc, argv); }
#endif

// =====================================================================================================
// interposed library functions
// =====================================================================================================
extern "C" {
// ---- memory
void* malloc(size_t n) {
	if(R && R->armed && !R->host) {
		Fiber* f = cur();
		size_t need = ((n + 15) & ~15ull) + 16;
		char* p = f->arena_cur;
		if(p + need > f->arena_end) { snprintf(R->w->message, 200, "arena exhausted"); end_exec(E_INTERNAL); }
		f->arena_cur = p + need;
		*(size_t*)p = n;
		memset(p + 16, R->cfg.alloc_fill, n);
		return p + 16;
	}
	return __libc_malloc(n);
}
static inline bool in_arena(void* p) { return (uintptr_t)p >= ARENA_BASE && (uintptr_t)p < STACK_BASE; }
void free(void* p) {
	if(!p) return;
	if(in_arena(p)) {
		if(active()) {
			size_t* h = (size_t*)((char*)p - 16);
			if(h[0] == ~0ull) fail("double free / heap corruption");
			race_range(p, h[0], true, (uintptr_t)__builtin_return_address(0));
			memset(p, 0xDB, h[0]); h[0] = ~0ull;
		}
		return;
	}
	__libc_free(p);
}
void* calloc(size_t a, size_t b) { if(R && R->armed && !R->host) { void* p = malloc(a * b); memset(p, 0, a * b); return p; } return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) {
	if(in_arena(p) || (R && R->armed && !R->host)) {
		if(!p) return malloc(n);
		size_t o = in_arena(p) ? *(size_t*)((char*)p - 16) : 0;
		void* q = malloc(n); if(in_arena(p)) memcpy(q, p, o < n ? o : n); return q;
	}
	return __libc_realloc(p, n);
}
void* memalign(size_t al, size_t n) {
	if(R && R->armed && !R->host) { if(al <= 16) return malloc(n); Fiber* f = cur(); uintptr_t p = (uintptr_t)f->arena_cur + 16; p = (p + al - 1) / al * al; f->arena_cur = (char*)p + ((n + 15) & ~15ull); *(size_t*)(p - 16) = n; return (void*)p; }
	return __libc_memalign(al, n);
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** r, size_t al, size_t n) { *r = memalign(al, n); return *r ? 0 : ENOMEM; }

// ---- threads
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
	if(!active()) { dprintf(2, "mc: pthread_create outside execution\n"); _exit(3); }
	Fiber* p = cur();
	uint64_t ih = mix(p->idhash, ++p->nchild);
	Fiber* f = new_fiber(fn, arg);
	f->idhash = ih;
	seth(p, mix(p->h, 0xC4EA7E));
	f->h = mix(p->h, 0xC41D); R->statesum += mix(f->idhash, f->h);
	for(int k = 0; k < R->nf; ++k) if(k != f->idx) f->vc[k] = p->vc[k];
	p->vc[p->idx]++;
	*t = (pthread_t)(f->idx + 1);
	f->what = "";
	// run the new thread up to its first visible operation (its local prefix commutes with everything)
	int saved = R->eager_parent;
	if(saved >= 0) { /* creator itself is still in its own prefix: make it visible first */ }
	R->eager_parent = p->idx;
	swap_out(p); R->cur = f->idx; swap_in(f);
	mc_switch(&p->sp, f->sp);
	R->eager_parent = saved;
	return 0;
}
int pthread_join(pthread_t t, void** r) {
	int i = (int)t - 1;
	Fiber* me = cur();
	point(O_JOIN, (void*)(uintptr_t)i, "");
	Fiber* f = &R->f[i];
	f->joined = true;
	seth(me, mix(me->h, f->h));
	for(int k = 0; k < R->nf; ++k) if(f->vc[k] > me->vc[k]) me->vc[k] = f->vc[k];
	if(r) *r = f->ret;
	return 0;
}
int pthread_detach(pthread_t t) { R->f[(int)t - 1].detached = true; return 0; }
pthread_t pthread_self() { return R && R->in_exec ? (pthread_t)(R->cur + 1) : (pthread_t)1; }
int pthread_setname_np(pthread_t t, const char* n) { if(active()) { snprintf(R->f[(int)t - 1].name, 32, "%s", n); } return 0; }
int pthread_getname_np(pthread_t, char* b, size_t n) { snprintf(b, n, "mc"); return 0; }
int sched_yield() { yield_point("yield"); return 0; }
int get_nprocs() { return 4; }

int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { memset((void*)m, 0, sizeof(*m)); if(a) { int k = 0; pthread_mutexattr_gettype(a, &k); ((MM*)m)->kind = k; } return 0; }
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
static void got_mutex(MM* mm) {
	Fiber* f = cur();
	if(mm->owner == (uint32_t)f->idx + 1) { mm->rec++; return; }
	mm->owner = f->idx + 1; mm->rec = 1;
	if(!mm->h) mm->h = mix(norm(mm), 7);
	seth(f, mix(f->h, mm->h)); mm->h = f->h;
	vc_acquire(mm->vc);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
	if(!active() || !owned(m)) return 0;
	MM* mm = (MM*)m;
	point(O_LOCK, m, "");
	got_mutex(mm);
	return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
	if(!active() || !owned(m)) return 0;
	MM* mm = (MM*)m;
	point(O_YIELD, m, "trylock");
	Fiber* f = cur();
	if(!mutex_free(m, f)) { seth(f, mix(f->h, mm->h + 5)); return EBUSY; }
	got_mutex(mm);
	return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_lock(m); }
static void rel_mutex(MM* mm) { mm->owner = 0; mm->rec = 0; mm->vc = vc_release(mm->vc); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
	if(!active() || !owned(m)) return 0;
	MM* mm = (MM*)m;
	if(mm->owner != (uint32_t)cur()->idx + 1) { fail("unlock of a mutex not held by this thread"); }
	if(--mm->rec == 0) rel_mutex(mm);
	return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset((void*)c, 0, sizeof(*c)); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) {
	if(active() && owned(c)) for(int i = 0; i < R->nf; ++i) if(R->f[i].state == F_COND && R->f[i].obj == c && !R->f[i].signaled) fail("condition variable destroyed while T%d waits on it", i);
	return 0;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t abs_ns) {
	if(!active() || !owned(c)) return 0;
	Fiber* f = cur(); MM* mm = (MM*)m;
	point(O_WAIT, c, "");
	if(mm->owner != (uint32_t)f->idx + 1) fail("condition wait without holding the mutex");
	seth(f, mix(f->h, mix(norm(c), 0x3A17)));
	uint32_t rec = mm->rec;
	rel_mutex(mm);
	f->state = F_COND; f->obj = c; f->obj2 = m; f->signaled = false; f->timed = timed; f->timed_out = false; f->spur = false; f->wake_ns = abs_ns; f->wait_seq = ++R->seq; f->what = "";
	resched();
	f->state = F_READY; f->obj2 = nullptr;
	got_mutex(mm); mm->rec = rec;
	return f->timed_out ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, false, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return cond_wait(c, m, true, t->tv_sec * 1000000000ull + t->tv_nsec); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) { return cond_wait(c, m, true, t->tv_sec * 1000000000ull + t->tv_nsec); }
static int wake(void* c, int maxn) {
	Fiber* me = cur();
	int w[MAXF]; int n = 0;
	for(int i = 0; i < R->nf; ++i) if(R->f[i].state == F_COND && R->f[i].obj == c && !R->f[i].signaled) w[n++] = i;
	std::sort(w, w + n, [](int a, int b) { return R->f[a].wait_seq < R->f[b].wait_seq; });
	int k = 0; uint64_t hs = 0;
	if(n <= maxn) { for(; k < n; ++k) { R->f[w[k]].signaled = true; hs += R->f[w[k]].h; } }
	else while(k < maxn) {
		int ch = choose(n - k, "which waiter to wake", 1);
		R->f[w[ch]].signaled = true; hs += R->f[w[ch]].h;
		for(int j = ch; j + 1 < n - k; ++j) w[j] = w[j + 1];
		k++;
	}
	if(k) {
		uint64_t nh = mix(me->h, hs); seth(me, nh);
		for(int i = 0; i < R->nf; ++i) { Fiber* f = &R->f[i]; if(f->state == F_COND && f->obj == c && f->signaled && !f->spur && !f->timed_out) { f->spur = true; seth(f, mix(f->h, nh)); } }
	}
	return k;
}
int pthread_cond_signal(pthread_cond_t* c) { if(!active() || !owned(c)) return 0; point(O_NOTIFY, c, "one"); wake(c, 1); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if(!active() || !owned(c)) return 0; point(O_NOTIFY, c, "all"); wake(c, MAXF); return 0; }

int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset((void*)l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
static int rw(pthread_rwlock_t* l, bool wr) {
	if(!active() || !owned(l)) return 0;
	RWL* r = (RWL*)l; Fiber* f = cur(); f->obj2 = wr ? (void*)1 : nullptr;
	point(O_RWLOCK, l, wr ? "write" : "read"); f->obj2 = nullptr;
	if(wr) r->writer = f->idx + 1; else r->readers++;
	if(!r->h) r->h = mix(norm(l), 8);
	seth(f, mix(f->h, r->h)); r->h = f->h; vc_acquire(r->vc);
	return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return rw(l, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return rw(l, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) { if(!active() || !owned(l)) return 0; RWL* r = (RWL*)l; if(r->writer) r->writer = 0; else r->readers--; r->vc = vc_release(r->vc); return 0; }

int pthread_once(pthread_once_t* o, void (*fn)(void)) {
	volatile int* v = (volatile int*)o;
	while(*v == 1 && active()) yield_point("once");
	if(*v == 2) return 0;
	*v = 1; fn(); *v = 2; return 0;
}
int __cxa_guard_acquire(long long* g) {
	char* c = (char*)g;
	for(;;) {
		if(c[0]) { if(active() && owned(g)) vc_acquire(aent(g)->vc); return 0; }
		if(!c[1]) { c[1] = 1; return 1; }
		if(!active()) return 1;
		yield_point("static init");
	}
}
void __cxa_guard_release(long long* g) { char* c = (char*)g; c[0] = 1; c[1] = 0; if(active() && owned(g)) { auto e = aent(g); e->vc = vc_release(e->vc); } }
void __cxa_guard_abort(long long* g) { ((char*)g)[1] = 0; }

// futex based primitives (std::atomic::wait, std::future, semaphores)
long syscall(long n, ...) {
	va_list ap; va_start(ap, n); long a[6]; for(auto& x : a) x = va_arg(ap, long); va_end(ap);
	if(n == SYS_futex && active()) {
		int op = a[1] & 127 & ~FUTEX_CLOCK_REALTIME;
		if(op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
			point(O_FUTEX, (void*)a[0], "wait");
			if(*(int*)a[0] != (int)a[2]) { errno = EAGAIN; return -1; }
			Fiber* f = cur();
			f->state = F_COND; f->obj = (void*)a[0]; f->obj2 = nullptr; f->signaled = false; f->timed = false; f->timed_out = false; f->spur = false; f->wait_seq = ++R->seq;
			seth(f, mix(f->h, 0xF07)); resched(); f->state = F_READY;
			return 0;
		}
		if(op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { point(O_FUTEX, (void*)a[0], "wake"); return wake((void*)a[0], a[2] > MAXF ? MAXF : (int)a[2]); }
	}
	long r; register long r10 asm("r10") = a[3]; register long r8 asm("r8") = a[4]; register long r9 asm("r9") = a[5];
	asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	if(r < 0 && r > -4096) { errno = -r; return -1; }
	return r;
}

// ---- time
static void do_sleep(uint64_t ns) { Fiber* f = cur(); f->state = F_SLEEP; f->wake_ns = R->clock_ns + ns; f->what = "sleep"; f->op = O_SLEEP; resched(); f->state = F_READY; seth(f, mix(f->h, O_SLEEP)); }
int nanosleep(const struct timespec* t, struct timespec*) { if(active()) { do_sleep(t->tv_sec * 1000000000ull + t->tv_nsec); return 0; } return syscall(SYS_nanosleep, t, 0); }
int clock_nanosleep(clockid_t, int flags, const struct timespec* t, struct timespec*) { if(active()) { uint64_t v = t->tv_sec * 1000000000ull + t->tv_nsec; if(flags) v = v > R->clock_ns ? v - R->clock_ns : 0; do_sleep(v); } return 0; }
int usleep(useconds_t u) { if(active()) do_sleep(u * 1000ull); return 0; }
unsigned sleep(unsigned s) { if(active()) do_sleep(s * 1000000000ull); return 0; }
int clock_gettime(clockid_t c, struct timespec* t) { if(active()) { t->tv_sec = R->clock_ns / 1000000000ull; t->tv_nsec = R->clock_ns % 1000000000ull; return 0; } return syscall(SYS_clock_gettime, c, t); }
int gettimeofday(struct timeval* t, void*) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time(time_t* p) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if(p) *p = s.tv_sec; return s.tv_sec; }

// ---- process
static void real_exit(int c) { static auto f = (void (*)(int))dlsym(RTLD_NEXT, "exit"); f(c); }
void exit(int c) { if(active()) { R->w->exit_code = c; end_exec(E_EXIT); } real_exit(c); __builtin_unreachable(); }
void quick_exit(int c) { exit(c); }
void abort() { if(active()) { snprintf(R->w->message, 200, "process terminated (abort)"); end_exec(E_TERMINATE); } _exit(99); }
void __assert_fail(const char* e, const char* f, unsigned l, const char*) { if(active()) { R->host++; snprintf(R->w->message, sizeof R->w->message, "assertion failed: %s (%s:%u)", e, f, l); R->host--; end_exec(E_TERMINATE); } dprintf(2, "assert %s %s:%u\n", e, f, l); _exit(99); }
typedef void (*sighandler_t_)(int);
sighandler_t_ signal(int s, sighandler_t_ h) { if(active()) { auto o = sigtab()[s].sa_handler; sigtab()[s].sa_handler = h; return o; } return nullptr; }
int sigaction(int s, const struct sigaction* a, struct sigaction* o) { if(active()) { if(o) *o = sigtab()[s]; if(a) sigtab()[s] = *a; return 0; } static auto f = (int (*)(int, const struct sigaction*, struct sigaction*))dlsym(RTLD_NEXT, "sigaction"); return f(s, a, o); }
}
namespace mc {
bool has_handler(int s) { return sigtab()[s].sa_handler != nullptr && sigtab()[s].sa_handler != SIG_DFL; }
void raise_signal(int s) { auto h = sigtab()[s].sa_handler; if(h && h != SIG_IGN) h(s); }
}
