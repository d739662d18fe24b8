// Own runtime for gcc -fsanitize=thread instrumentation: happens-before race detector over fibers.
#include "internal.h"
#include <cstring>
#include <unistd.h>
#include <sys/mman.h>
using namespace mc;

namespace {
struct Slot { uint32_t clk; uint8_t fib; uint8_t mask; uint8_t wr; uint8_t pad; };
struct Cell { uint32_t gen; uint32_t next; Slot s[6]; uint64_t pad; };   // 64 bytes
static_assert(sizeof(Cell) == 64, "");
struct PcEnt { uintptr_t pc; };
Cell* g_shadow;          // for REG region
Cell* g_dshadow;         // for exe data
uintptr_t* g_pcs;        // pc per slot (parallel, hashed by cell address)
constexpr size_t PCN = 1 << 22;
inline uintptr_t& pc_of(const Slot* s) { return g_pcs[((uintptr_t)s >> 3) & (PCN - 1)]; }
}

namespace mc {
void race_init() {
	size_t n = (REG_END - REG_BASE) / 8 * sizeof(Cell);
	g_shadow = (Cell*)mmap((void*)SHADOW_BASE, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	size_t d = (R->data_hi - R->data_lo) / 8 * sizeof(Cell) + 4096;
	g_dshadow = (Cell*)mmap(0, d, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	g_pcs = (uintptr_t*)mmap(0, PCN * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if(g_shadow == MAP_FAILED || g_dshadow == MAP_FAILED) { fprintf(stderr, "mc: shadow mmap failed\n"); _exit(3); }
}
static inline Cell* cell(uintptr_t a) {
	if(a >= REG_BASE && a < REG_END) return g_shadow + ((a - REG_BASE) >> 3);
	if(a >= R->data_lo && a < R->data_hi) return g_dshadow + ((a - R->data_lo) >> 3);
	return nullptr;
}
static void one(uintptr_t a8, uint8_t mask, bool wr, uintptr_t pc, bool file) {
	Cell* c = cell(a8);
	if(!c) return;
	Fiber* me = cur();
	const uint32_t myclk = me->vc[me->idx];
	if(c->gen != R->gen) { memset(c, 0, sizeof(*c)); c->gen = R->gen; }
	int same = -1, empty = -1, cover = -1;
	for(int i = 0; i < 6; ++i) {
		Slot& s = c->s[i];
		if(!s.mask) { if(empty < 0) empty = i; continue; }
		if(s.fib == me->idx) {
			if(s.clk == myclk && s.wr == wr && (s.mask & mask) == mask) return;      // already recorded
			if(s.wr == wr && (s.mask & ~mask) == 0) cover = i;                        // older, subsumed
			else if(s.wr == wr && s.clk == myclk) same = i;
			continue;
		}
		if((s.mask & mask) && (s.wr || wr) && s.clk > me->vc[s.fib]) {
			report_race(pc_of(&s), s.wr, pc, wr, a8, file);
		} else if(s.clk <= me->vc[s.fib] && wr && (s.mask & ~mask) == 0) {
			cover = i;                                                                  // happened before, superseded by a write
		}
	}
	int t;
	if(same >= 0) { c->s[same].mask |= mask; pc_of(&c->s[same]) = pc; return; }
	if(cover >= 0) t = cover;
	else if(empty >= 0) t = empty;
	else t = c->next++ % 6;
	Slot& s = c->s[t];
	s.clk = myclk; s.fib = me->idx; s.mask = mask; s.wr = wr; pc_of(&s) = pc;
}
void race_access(uintptr_t a, size_t n, bool wr, uintptr_t pc, bool file) {
	if(!R->cfg.races) return;
	while(n) {
		size_t off = a & 7, k = 8 - off; if(k > n) k = n;
		one(a & ~7ull, (uint8_t)(((1u << k) - 1) << off), wr, pc, file);
		a += k; n -= k;
	}
}
void race_range(const void* p, size_t n, bool wr, uintptr_t pc) {
	if(!active() || !n) return;
	if(R->nesc && escalated(pc) && owned(p)) point(O_ACCESS, (void*)p, "access");
	race_access((uintptr_t)p, n, wr, pc);
}
}

#define PC ((uintptr_t)__builtin_return_address(0))
static inline __attribute__((always_inline)) void acc(void* a, size_t n, bool w, uintptr_t pc) {
	if(!active()) return;
	if(__builtin_expect(R->nesc, 0) && escalated(pc) && owned(a)) point(O_ACCESS, (void*)((uintptr_t)a & ~7ull), w ? "racy write" : "racy read");
	race_access((uintptr_t)a, n, w, pc);
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
 void __tsan_read##n(void* a) { acc(a, n, false, PC); } \
 void __tsan_write##n(void* a) { acc(a, n, true, PC); } \
 void __tsan_unaligned_read##n(void* a) { acc(a, n, false, PC); } \
 void __tsan_unaligned_write##n(void* a) { acc(a, n, true, PC); } \
 void __tsan_volatile_read##n(void* a) { acc(a, n, false, PC); } \
 void __tsan_volatile_write##n(void* a) { acc(a, n, true, PC); } \
 void __tsan_unaligned_volatile_read##n(void* a) { acc(a, n, false, PC); } \
 void __tsan_unaligned_volatile_write##n(void* a) { acc(a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { acc(a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { acc(a, n, true, PC); }
void __tsan_vptr_update(void** a, void*) { acc(a, 8, true, PC); }
void __tsan_vptr_read(void** a) { acc(a, 8, false, PC); }

// --- atomics
enum { M_RLX = 0, M_CONSUME, M_ACQ, M_REL, M_ACQREL, M_SEQ };
static inline bool is_acq(int m) { m &= 7; return m == M_CONSUME || m == M_ACQ || m == M_ACQREL || m == M_SEQ; }
static inline bool is_rel(int m) { m &= 7; return m == M_REL || m == M_ACQREL || m == M_SEQ; }
// kind: 0 load, 1 store, 2 rmw
static inline bool refcount(size_t n, int mo, int kind) { return n == 4 && kind == 2 && (mo & 7) == M_ACQREL; }
static void atom(const volatile void* p, size_t n, int mo, int kind, bool is_add) {
	if(!active() || !owned((void*)p)) return;
	const bool rc = is_add && refcount(n, mo, kind);
	if(!rc && R->cfg.atomics_points) point(O_ATOMIC, (void*)p, kind == 0 ? "atomic load" : kind == 1 ? "atomic store" : "atomic rmw");
	RT::AEnt* e = aent((void*)p);
	if(!rc) {
		Fiber* f = cur();
		R->statesum -= mix(f->idhash, f->h);
		f->h = mix(mix(f->h, e->h), 0x77 + kind);
		if(kind) e->h = f->h;
		R->statesum += mix(f->idhash, f->h);
	}
	if(kind != 1 && is_acq(mo)) vc_acquire(e->vc);
	if(kind != 0 && is_rel(mo)) e->vc = vc_release(e->vc);
}
typedef unsigned __int128 u128;
#define AT(b, T) \
 T __tsan_atomic##b##_load(const volatile T* a, int mo) { atom(a, sizeof(T), mo, 0, false); return *(T*)a; } \
 void __tsan_atomic##b##_store(volatile T* a, T v, int mo) { atom(a, sizeof(T), mo, 1, false); *(T*)a = v; } \
 T __tsan_atomic##b##_exchange(volatile T* a, T v, int mo) { atom(a, sizeof(T), mo, 2, false); T o = *(T*)a; *(T*)a = v; return o; } \
 T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int mo) { atom(a, sizeof(T), mo, 2, true); T o = *(T*)a; *(T*)a = o + v; return o; } \
 T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int mo) { atom(a, sizeof(T), mo, 2, true); T o = *(T*)a; *(T*)a = o - v; return o; } \
 T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int mo) { atom(a, sizeof(T), mo, 2, false); T o = *(T*)a; *(T*)a = o & v; return o; } \
 T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int mo) { atom(a, sizeof(T), mo, 2, false); T o = *(T*)a; *(T*)a = o | v; return o; } \
 T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int mo) { atom(a, sizeof(T), mo, 2, false); T o = *(T*)a; *(T*)a = o ^ v; return o; } \
 T __tsan_atomic##b##_fetch_nand(volatile T* a, T v, int mo) { atom(a, sizeof(T), mo, 2, false); T o = *(T*)a; *(T*)a = ~(o & v); return o; } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) { atom(a, sizeof(T), mo, 2, false); T o = *(T*)a; if(o == *c) { *(T*)a = v; return 1; } *c = o; return 0; } \
 int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int) { atom(a, sizeof(T), mo, 2, false); T o = *(T*)a; if(o == *c) { *(T*)a = v; return 1; } *c = o; return 0; } \
 T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int mo, int) { atom(a, sizeof(T), mo, 2, false); T o = *(T*)a; if(o == c) *(T*)a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t) AT(128, u128)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// --- memory functions called from instrumented objects (their references are renamed with objcopy)
void* mc_memcpy(void* d, const void* s, size_t n) { race_range(s, n, false, PC); race_range(d, n, true, PC); return memcpy(d, s, n); }
void* mc_memmove(void* d, const void* s, size_t n) { race_range(s, n, false, PC); race_range(d, n, true, PC); return memmove(d, s, n); }
void* mc_memset(void* d, int c, size_t n) { race_range(d, n, true, PC); return memset(d, c, n); }
int mc_memcmp(const void* a, const void* b, size_t n) { race_range(a, n, false, PC); race_range(b, n, false, PC); return memcmp(a, b, n); }
// --- libstdc++ internals that are not instrumented: container-level accesses of tree and list nodes
void rb_insert(bool l, void* x, void* p, void* h) __asm__("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
void* rb_erase(void* z, void* h) __asm__("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
void l_hook(void* a, void* b) __asm__("_ZNSt8__detail15_List_node_base7_M_hookEPS0_");
void l_unhook(void* a) __asm__("_ZNSt8__detail15_List_node_base9_M_unhookEv");
void mc_rb_insert(bool l, void* x, void* p, void* h) { race_range(x, 32, true, PC); race_range(p, 32, true, PC); race_range(h, 32, true, PC); rb_insert(l, x, p, h); }
void* mc_rb_erase(void* z, void* h) { race_range(z, 32, true, PC); race_range(h, 32, true, PC); return rb_erase(z, h); }
void mc_l_hook(void* a, void* b) { race_range(a, 16, true, PC); race_range(b, 16, true, PC); l_hook(a, b); }
void mc_l_unhook(void* a) { race_range(a, 16, true, PC); race_range(*(void**)a, 16, true, PC); l_unhook(a); }
}
