// C08: the per-table step of phase 2 under all interleavings up to a bound.
#include "mc.h"
#include <chia/phase2.hpp>
#include <chia/DiskSort.hpp>
#include <chia/settings.h>
using namespace mc;
static std::string S(long v) { return std::to_string(v); }
typedef std::pair<uint64_t, uint64_t> PP;
template<typename E> struct Collect : Processor<std::pair<std::vector<E>, size_t>> { std::vector<E> v; void take(std::pair<std::vector<E>, size_t>& b) override { for(auto& e : b.first) v.push_back(e); } };
static void table(const std::vector<PP>& t, const std::vector<int>& used, uint64_t nl, int nt, int rc, bool last) {
	g_read_chunk_size = rc; g_write_chunk_size = 2; phase2::g_thread_multi = 1; { Host h; vfs::add_dir("a"); }
	bitfield L(nl), R(t.size()); for(size_t i = 0; i < t.size(); ++i) if(used[i]) R.set(i);
	std::vector<PP> got;   // by key
	auto rank = [&](uint64_t p) { std::vector<char> u(nl + 1); for(size_t i = 0; i < t.size(); ++i) if(used[i] || last) u[t[i].first] = u[t[i].first + t[i].second] = 1; uint64_t r = 0; for(uint64_t i = 0; i < p; ++i) r += u[i]; return r; };
	std::vector<PP> want; { Host h; for(size_t i = 0; i < t.size(); ++i) if(used[i] || last) want.push_back({rank(t[i].first), rank(t[i].first + t[i].second)}); }
	if(last) {
		table_t info; { DiskTable<phase1::entry_7> f("a/t7"); int i = 0; for(auto& p : t) { phase1::entry_7 e; e.y = i++; e.pos = p.first; e.off = p.second; f.write(e); } f.close(); info = f.get_info(); }
		DiskTable<phase2::entry_7> o("a/o7");
		phase2::compute_table<phase2::entry_7, phase2::entry_7, phase2::DiskSort7>(7, nt, nullptr, &o, info, &L, nullptr); o.close();
		Collect<phase2::entry_7> c; DiskTable<phase2::entry_7> r(o.get_info()); r.read(&c, 1, 100); for(auto& e : c.v) { MC_CHECK(e.y == got.size(), "table 7 order changed"); got.push_back({e.pos, e.pos + e.off}); }
	} else {
		table_t info; { DiskTable<phase1::tmp_entry_x> f("a/t"); for(auto& p : t) { phase1::tmp_entry_x e; e.pos = p.first; e.off = p.second; f.write(e); } f.close(); info = f.get_info(); }
		phase2::DiskSortT o(8, 0, "a/s");
		phase2::compute_table<phase1::tmp_entry_x, phase2::entry_x, phase2::DiskSortT>(3, nt, &o, nullptr, info, &L, &R);
		Collect<phase2::entry_x> c; o.read(&c, 1, 1); got.assign(c.v.size(), PP(999, 999)); for(auto& e : c.v) { MC_CHECK(e.key < got.size(), "key out of range"); got[e.key] = {e.pos, e.pos + e.off}; }
	}
	MC_CHECK(got == want, "%zu entries kept (expected %zu), or with wrong references", got.size(), want.size());
}
static void reg(bool th) {
	struct X { std::vector<PP> t; std::vector<int> u; uint64_t nl; int nt, rc; bool last; int bq, bt; };
	std::vector<X> xs = {
		{{{0, 1}, {1, 1}}, {1, 1}, 3, 1, 1, false, 2, 3},
		{{{0, 1}, {1, 1}, {2, 3}}, {1, 0, 1}, 6, 2, 1, false, 2, 3},
		{{{0, 1}, {1, 1}, {0, 2}}, {1, 1, 1}, 4, 2, 1, true, 2, 3},
		{{{0, 1}, {2, 70}, {64, 1}, {63, 2}}, {1, 1, 0, 1}, 80, 2, 1, false, 2, 3},
		{{{0, 1}, {1, 1}, {0, 2}, {3, 1}}, {1, 1, 1, 0}, 6, 3, 2, false, 2, 3},
	};
#ifdef H_HUGE
	{ Config c; c.mode = DELAY; c.fork_exec = true; c.max_bound = 0; c.time_cap = th ? 100 : 40; c.races = false;   // a left table with more than 2^32 entries: right parents beyond 32 bits
		add("C08/hugepos", c, [=] { const uint64_t N = (1ull << 32) + 1000; std::vector<PP> t = {{5, 3}, {(1ull << 31) - 1, 1}, {(1ull << 32) - 900, 899}, {(1ull << 32) - 3, 2}, {(1ull << 32) - 3, 3}, {(1ull << 32) - 2, 900}, {(1ull << 32) - 1, 1}};
			int last = choose(2, "table"); g_read_chunk_size = 3; g_write_chunk_size = 2; phase2::g_thread_multi = 1; { Host h; vfs::add_dir("a"); } bitfield* L; { Host h; L = new bitfield(N); }
			std::vector<uint64_t> all; for(auto& p : t) { all.push_back(p.first); all.push_back(p.first + p.second); } std::sort(all.begin(), all.end()); all.erase(std::unique(all.begin(), all.end()), all.end());
			auto rank = [&](uint64_t p) { return (uint64_t)(std::lower_bound(all.begin(), all.end(), p) - all.begin()); }; std::vector<PP> got(t.size(), PP(~0ull, 0)); size_t n = 0;
			if(last) { table_t info; { DiskTable<phase1::entry_7> f("a/t7"); int i = 0; for(auto& p : t) { phase1::entry_7 e; e.y = i++; e.pos = p.first; e.off = p.second; f.write(e); } f.close(); info = f.get_info(); }
				DiskTable<phase2::entry_7> o("a/o7"); phase2::compute_table<phase2::entry_7, phase2::entry_7, phase2::DiskSort7>(7, 1, nullptr, &o, info, L, nullptr); o.close();
				Collect<phase2::entry_7> c; DiskTable<phase2::entry_7> r(o.get_info()); r.read(&c, 1, 100); for(auto& e : c.v) { MC_CHECK(e.y < t.size(), "f7 changed"); n++; got[e.y] = {e.pos, e.pos + e.off}; } }
			else { table_t info; { DiskTable<phase1::tmp_entry_x> f("a/t"); for(auto& p : t) { phase1::tmp_entry_x e; e.pos = p.first; e.off = p.second; f.write(e); } f.close(); info = f.get_info(); }
				bitfield R(t.size()); for(size_t i = 0; i < t.size(); ++i) R.set(i); phase2::DiskSortT o(8, 0, "a/s"); phase2::compute_table<phase1::tmp_entry_x, phase2::entry_x, phase2::DiskSortT>(3, 1, &o, nullptr, info, L, &R);
				Collect<phase2::entry_x> c; o.read(&c, 1, 1); for(auto& e : c.v) { MC_CHECK(e.key < got.size(), "key out of range"); n++; got[e.key] = {e.pos, e.pos + e.off}; } }
			Host h; MC_CHECK(n == t.size(), "%zu of %zu entries kept", n, t.size());
			for(size_t i = 0; i < t.size(); ++i) MC_CHECK(got[i] == PP(rank(t[i].first), rank(t[i].first + t[i].second)), "entry %zu (%llu,+%llu) refers to (%llu,%llu) after renumbering", i, (unsigned long long)t[i].first, (unsigned long long)t[i].second, (unsigned long long)got[i].first, (unsigned long long)got[i].second);
			for(auto p : all) MC_CHECK(L->get(p), "position %llu needed but dropped", (unsigned long long)p); }); }
	return;
#endif
	for(size_t i = 0; i < xs.size(); ++i) for(int sd : scheds(th, th)) { X x = xs[i]; Config c; c.time_cap = th ? 200 : 5; c.mode = sd < 0 ? PREEMPT : DELAY; c.max_bound = sd < 0 ? 1 : th ? x.bt : sd % 2 == 0 ? x.bq : 1; if(sd >= 0) c.sched_default = sd;
		add("C08/table/" + S(i) + (sd < 0 ? "/p" : "/d" + S(sd)), c, [=] { table(x.t, x.u, x.nl, x.nt, x.rc, x.last); }); }
}
void mc::register_scenarios(const std::string& tier) { reg(tier == "thorough"); }
