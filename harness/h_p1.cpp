// C06: phase 1 tables. H_SYN: the per-table step fed by a scripted sorter; otherwise the whole phase at small k.
#include "mc.h"
#include "../ref/ref.h"
#ifdef MC_PMAX
#include "../stubs/pmax.h"
#endif
#include <chia/phase1.hpp>
#include <chia/DiskSort.hpp>
#include <chia/settings.h>
#include <set>
using namespace mc;
static std::string S(long v) { return std::to_string(v); }
#ifdef CHIA_K34
#define KT "k34"
#else
#define KT "k32"
#endif
typedef std::pair<uint64_t, uint64_t> PP;
using namespace phase1;
template<typename E> struct Collect : Processor<std::pair<std::vector<E>, size_t>> { std::vector<E> v; void take(std::pair<std::vector<E>, size_t>& b) override { for(auto& e : b.first) v.push_back(e); } };
template<typename E> static std::vector<E> load(const table_t& t) { Collect<E> c; DiskTable<E> f(t); f.read(&c, 1, 1000); return c.v; }
#ifndef H_SYN
struct W { ref::Forward F; }; static std::map<PP, W> WANT;
static std::array<uint8_t, 32> make_id(int n) { std::array<uint8_t, 32> a; uint32_t x = 77 + n * 1000003u; for(auto& c : a) { x = x * 1664525 + 1013904223; c = x >> 24; } return a; }
static void expect(int k, int id) { if(!WANT.count({k, id})) WANT[{k, id}].F = ref::forward(k, make_id(id).data()); }
static void whole(int k, int id, int nt, int lg, int rc, int wc) {
	g_read_chunk_size = rc; g_write_chunk_size = wc; { Host h; vfs::add_dir("a"); vfs::add_dir("b"); expect(k, id); }
	phase1::input_t in; in.k = k; in.id = make_id(id); phase1::output_t out;
	phase1::compute(in, out, nt, lg, "p", "a/", "b/");
	auto x1 = load<tmp_entry_1>(out.table[0]); std::vector<std::vector<tmp_entry_x>> tx(8); for(int t = 2; t <= 6; ++t) tx[t] = load<tmp_entry_x>(out.table[t - 1]); auto e7 = load<entry_7>(out.table[6]);
	Host h; auto& F = WANT[{k, id}].F; auto idb = make_id(id);
	// table 1: every x once, in order of f1(x)
	MC_CHECK(x1.size() == F.t[1].size(), "table 1 has %zu entries", x1.size());
	struct N { uint64_t y; ref::Bit m; uint64_t hash; }; std::vector<N> cur; std::vector<char> seen(x1.size());
	for(auto& e : x1) { MC_CHECK(e.x < x1.size() && !seen[e.x], "table 1: x=%llu twice or out of range", (unsigned long long)e.x); seen[e.x] = 1; auto& r = F.t[1][e.x]; MC_CHECK(cur.empty() || cur.back().y <= r.y, "table 1 not in f1 order"); cur.push_back({r.y, r.m, ref::leaf_hash(e.x)}); }
	std::vector<uint64_t> wh; for(auto& e : F.t[1]) wh.push_back(ref::leaf_hash(e.x));
	for(int t = 2; t <= 7; ++t) {
		std::vector<uint64_t> n; for(auto& e : F.t[t]) n.push_back(ref::node_hash(wh[e.l], wh[e.r])); wh = n;
		size_t cnt = t == 7 ? e7.size() : tx[t].size(); MC_CHECK(cnt == F.t[t].size(), "table %d has %zu entries, %zu pairs match", t, cnt, F.t[t].size());
		std::vector<N> nx; std::multiset<uint64_t> got, want(wh.begin(), wh.end());
		for(size_t i = 0; i < cnt; ++i) { uint64_t p = t == 7 ? e7[i].pos : tx[t][i].pos, o = t == 7 ? e7[i].off : tx[t][i].off; MC_CHECK(p < cur.size() && p + o < cur.size(), "table %d entry %zu refers to (%llu,+%llu) of %zu", t, i, (unsigned long long)p, (unsigned long long)o, cur.size());
			auto &l = cur[p], &r = cur[p + o]; MC_CHECK(ref::matches(l.y, r.y), "table %d entry %zu: its parents do not match", t, i); N e; ref::fx(k, t, l.y, l.m, r.m, e.y, e.m); e.hash = ref::node_hash(l.hash, r.hash); got.insert(e.hash);
			if(t == 7) MC_CHECK(e7[i].y == e.y, "table 7 entry %zu: value %llu, should be %llu", i, (unsigned long long)e7[i].y, (unsigned long long)e.y);
			else MC_CHECK(nx.empty() || nx.back().y <= e.y, "table %d entry %zu out of order (value or metadata wrong)", t, i);
			nx.push_back(e); }
		MC_CHECK(got == want, "table %d does not hold exactly the matching pairs", t); cur = nx;
	}
	uint64_t o = 3; for(auto& e : e7) o = mix(o, e.y); outcome(o);
}
static void reg(bool th) {
	Config base; base.mode = DELAY; base.fork_exec = true; base.max_bound = 0; base.races = false;
	for(int k : {8, 9, 10, 11, 12}) for(int id = 0; id < (th ? 6 : 2); ++id) { expect(k, id); Config c = base; c.time_cap = th ? 300 : 30; c.sched_default = (k + id) % 5;
		add("C06/whole/" KT "/k" + S(k) + "id" + S(id), c, [=] { static const int NT[] = {1, 2, 9, 4}; int nt = NT[choose(th ? 4 : 3, "threads")], lg = choose(th ? 4 : 2, "log buckets") * (th ? 1 : 3); static const int C[4][2] = {{65536, 4096}, {7, 3}, {100, 1}, {1, 64}}; int i = choose(th || k < 11 ? 3 : 2, "chunks"); whole(k, id, nt, lg, C[i][0], C[i][1]); }); }
}
#else
// ------------------------------------------------------------------ per-table step with a scripted left table
template<typename T> struct Src { std::vector<std::vector<T>> blocks; void read(Processor<std::pair<std::vector<T>, size_t>>* o, int, int = -1) { size_t off = 0; for(auto& b : blocks) { std::pair<std::vector<T>, size_t> x; x.first = b; x.second = off; off += b.size(); o->take(x); } } };
static void meta(entry_1& e, int i, ref::Bit& m, int k) { e.x = (i * 77 + 5) % (1 << 17); if(k > 30) e.x = (e.x * 0x9E3779B97F4A7C15ull) >> (64 - k); m.put(e.x, k); }
template<typename T> static void meta(T& e, int i, ref::Bit& m, int k) { m.put((uint64_t)i * 0x9E3779B97F4A7C15ull, 2 * k); auto p = m.pack(); e.meta.fill(0); memcpy(e.meta.data(), p.data(), p.size()); e.pos = i + 1; e.off = (i + 2) % 1000; }
static uint64_t key_of(const tmp_entry_1& e) { return e.x; } static uint64_t key_of(const tmp_entry_x& e) { return e.pos * 1000 + e.off; }
static uint64_t want_key(const entry_1& e) { return e.x; } template<typename T> static uint64_t want_key(const T& e) { return e.pos * 1000 + e.off; }
typedef std::tuple<uint64_t, uint64_t, uint64_t, ref::bytes> RE;
#ifdef MC_PMAX
static const uint64_t LIMIT = 1ull << MC_PMAX;   // left parents at or beyond this position cannot be stored: their pairs are left out
#define OV "/overflow"
#else
static const uint64_t LIMIT = ~0ull;
#define OV ""
#endif
template<typename T, typename S_, typename R> static void step(int t, const std::vector<uint64_t>& ys, unsigned cuts, int nt, int wc, bool empties, const int k = 17) {
	 g_read_chunk_size = 16; g_write_chunk_size = wc; { Host h; vfs::add_dir("a"); }

	Src<T> src; std::vector<T> es; std::vector<ref::Bit> ms; src.blocks.push_back({});
	for(size_t i = 0; i < ys.size(); ++i) { T e; memset((void*)&e, 0, sizeof e); e.y = ys[i]; ref::Bit m; meta(e, i, m, k); es.push_back(e); ms.push_back(m); if(i && cuts >> (i - 1) & 1) { src.blocks.push_back({}); if(empties) src.blocks.push_back({}); } src.blocks.back().push_back(e); }
	std::multiset<RE> want, got; { Host h; for(size_t i = 0; i < ys.size(); ++i) for(size_t j = i + 1; j < ys.size(); ++j) if(i < LIMIT && ref::matches(ys[i], ys[j])) { uint64_t y; ref::Bit m; ref::fx(k, t, ys[i], ms[i], ms[j], y, m); want.insert(RE(y, i, j - i, m.pack())); } }
	DiskTable<R> L("a/l"); uint64_t n;
	if constexpr(std::is_same<S_, entry_7>::value) {
		DiskTable<S_> o("a/r"); n = phase1::compute_table<T, S_, R, Src<T>, DiskSort7>(t, k, nt, &src, nullptr, &L, &o);
		for(auto& e : load<S_>(o.get_info())) got.insert(RE(e.y, e.pos, e.off, ref::bytes()));
	} else {
		DiskSort<S_, get_y<S_>> o(k + 6, 1, "a/r"); n = phase1::compute_table<T, S_, R>(t, k, nt, &src, &o, &L);
		Collect<S_> c; o.read(&c, 1, 1); for(auto& e : c.v) got.insert(RE(e.y, e.pos, e.off, ref::bytes(e.meta.begin(), e.meta.begin() + (ref::meta_mult(t) * k + 7) / 8)));
	}
	auto l = load<R>(L.get_info());
	MC_CHECK(l.size() == es.size(), "left table written with %zu of %zu entries", l.size(), es.size()); for(size_t i = 0; i < l.size(); ++i) MC_CHECK(key_of(l[i]) == want_key(es[i]), "left table entry %zu differs", i);
	MC_CHECK(got == want, "%zu entries for %zu matching pairs, or with wrong parents, values or metadata", got.size(), want.size()); MC_CHECK(n == want.size(), "reports %llu of %zu matches", (unsigned long long)n, want.size());
	outcome(want.size());
}
static uint64_t target(uint64_t g, int r, int m) { int par = g % 2; return (g + 1) * ref::BC_ + (r / 127 + m) % 119 * 127 + ((2 * m + par) * (2 * m + par) + r % 127) % 127; }
static const int KMAX_ = strcmp(KT, "k34") ? 32 : 34;
static std::vector<uint64_t> domain(int d) {   // chains of matching values over consecutive groups, and gaps
	std::vector<uint64_t> v; uint64_t g0 = d == 0 ? 0 : d == 1 ? 1 : d == 2 ? 2 : d == 4 ? (1ull << 32) / ref::BC_ - 1 : d == 5 ? (1ull << (6 + KMAX_)) / ref::BC_ - 4 : 40; uint64_t a = g0 * ref::BC_ + 100, b = target(g0, 100, 1), c = target(g0 + 1, b % ref::BC_, 3), e = target(g0 + 2, c % ref::BC_, 0);
	v = {a, a + 3, b, target(g0, 100, 5), c, c + 1, e}; if(d == 3) { v.push_back(e + 3 * ref::BC_); v.push_back(target(e / ref::BC_ + 3, e % ref::BC_, 2)); } std::sort(v.begin(), v.end()); return v;
}
static void reg(bool th) {
	Config base; base.mode = DELAY; base.max_bound = 0; base.races = false;
#ifdef H_DATA
	for(int d = 0; d < 6; ++d) for(int kind = 0; kind < 2; ++kind) { if(!th && !strcmp(KT, "k34") && d % 3 && d < 4) continue; Config c = base; c.time_cap = th ? 300 : 30;
		add("C06/step" OV "/" KT "/d" + S(d) + (kind ? "/t7" : "/t2"), c, [=] {   // all non-decreasing sequences over the domain x all block cuts
			auto dom = domain(d); int k = d >= 4 ? KMAX_ : 17; int n = choose(th ? 6 : d >= 4 ? 4 : 5, "n"), at = 0; std::vector<uint64_t> ys; for(int i = 0; i < n; ++i) { at += choose(dom.size() - at, "value"); ys.push_back(dom[at]); }
			unsigned cuts = n > 1 ? choose(1 << (n - 1), "cuts") : 0; int nt = n < 3 ? 1 + choose(2, "threads") : 1 + (cuts & 1);
			if(kind) step<entry_6, entry_7, tmp_entry_x>(7, ys, cuts, nt, 1 + n % 2, false, k); else step<entry_1, entry_2, tmp_entry_1>(2, ys, cuts, nt, 2, cuts & 1, k); }); }
	for(int nt : {1, 4}) { Config c = base; c.fork_exec = true; c.time_cap = th ? 200 : 20; // bigger groups
		add("C06/groups" OV "/" KT "/t" + S(nt), c, [=] { int ng = 1 + choose(4, "groups"), per = 1 + choose(5, "per group") * 9, gap = choose(ng + 1, "gap"), blk = choose(4, "blocks"); std::vector<uint64_t> ys; uint64_t g = 3; for(int i = 0; i < ng; ++i, ++g) { if(i == gap) g += 1; for(int j = 0; j < per; ++j) { int r = (j * 127 * 3 + j * j) % ref::BC_; ys.push_back(j % 3 ? target(g - 1, r, j % 64) : g * ref::BC_ + r); } } std::sort(ys.begin(), ys.end());
			unsigned cuts = blk == 0 ? 0 : blk == 1 ? ~0u : blk == 2 ? 0x11111111 : 0x40408010; step<entry_1, entry_2, tmp_entry_1>(2, ys, cuts, nt, 4, false); }); }
	{ Config c = base; c.fork_exec = true; c.time_cap = th ? 200 : 30; c.max_steps = 100000000;   // full-size groups (the average at any k is kBC/64 = 236 entries) up to the 10 bit offset range
		add("C06/full" OV "/" KT, c, [=] { static const int PER[] = {236, 300, 420, 505}; int per = PER[choose(4, "per group")], ng = 2 + choose(2, "groups"), odd = choose(2, "parity"), kind = choose(2, "kind"); std::vector<uint64_t> ys; uint64_t g = 6 + odd; for(int i = 0; i < ng; ++i, ++g) for(int j = 0; j < per; ++j) { int r = (j * 29 + j * j * 7) % ref::BC_; ys.push_back(j % 3 ? target(g - 1, r, j % 64) : g * ref::BC_ + r); } std::sort(ys.begin(), ys.end());
			if(kind) step<entry_6, entry_7, tmp_entry_x>(7, ys, 0x40408010, 2, 64, false); else step<entry_1, entry_2, tmp_entry_1>(2, ys, 0x11111111, 2, 64, false); }); }
	{ Config c = base; c.fork_exec = true; c.time_cap = th ? 200 : 40; c.max_steps = 100000000;   // very many matches in one block and in one pair of groups (at most kBC per pair)
		add("C06/many" OV "/" KT, c, [=] { int ng = 6 - 4 * choose(2, "groups"), per = choose(2, "per group") ? 120 : 100; std::vector<uint64_t> ys; uint64_t g = 4, r = 100; for(int i = 0; i < ng; ++i, ++g) { for(int j = 0; j < per; ++j) ys.push_back(g * ref::BC_ + r); r = target(g, r, 5) % ref::BC_; } step<entry_1, entry_2, tmp_entry_1>(2, ys, 0, 1, 1024, false); }); }
#else
	base.races = true;
	for(int x = 0; x < 5; ++x) for(int sd : scheds(th)) { Config c = base; c.sched_default = sd; c.max_bound = th ? 2 : 1; c.time_cap = th ? 300 : 8; if(!th && x == 3 && sd % 2 == 0) continue;
		add("C06/sched/" + S(x) + "/d" + S(sd), c, [=] { auto dom = domain(x == 4 ? 3 : 0); std::vector<uint64_t> ys; unsigned cuts; int nt = 1;
			if(x == 0) { ys = {dom[0], dom[2]}; cuts = 1; } else if(x == 1) { ys = {dom[0], dom[0], dom[2], dom[3]}; cuts = 2; nt = 2; } else if(x == 2) { ys = dom; cuts = 0x2A; nt = 2; } else if(x == 3) { ys = dom; cuts = 0x3F; nt = 3; } else { ys = dom; cuts = 0x55; nt = 2; }
			if(x == 3) step<entry_6, entry_7, tmp_entry_x>(7, ys, cuts, nt, 1, false); else step<entry_1, entry_2, tmp_entry_1>(2, ys, cuts, nt, 1, false); }); }
#endif
}
#endif
void mc::register_scenarios(const std::string& tier) { phase1::initialize(); reg(tier == "thorough"); }
