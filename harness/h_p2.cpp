// C08: phase 2 on synthetic phase-1 tables.
#include "mc.h"
#include <chia/phase2.hpp>
#include <chia/DiskSort.hpp>
#include <chia/settings.h>
#include <set>
#include <array>
using namespace mc;
static std::string S(long v) { return std::to_string(v); }
#ifdef CHIA_K34
#define KT "k34"
#else
#define KT "k32"
#endif
typedef std::pair<uint64_t, uint64_t> PP;
template<typename E> struct Collect : Processor<std::pair<std::vector<E>, size_t>> { std::vector<E> v; void take(std::pair<std::vector<E>, size_t>& b) override { for(auto& e : b.first) v.push_back(e); } };
struct In { uint64_t n1 = 0; std::vector<PP> t[8]; std::vector<uint64_t> y7; };   // t[2..7]: (pos, off) into the table below
struct Want { std::vector<char> used[8]; std::vector<uint64_t> rank[8]; };
static Want expect(const In& I) {
	Want W; W.used[7].assign(I.t[7].size(), 1);
	for(int t = 7; t >= 2; --t) { W.used[t - 1].assign(t == 2 ? I.n1 : I.t[t - 1].size(), 0); for(size_t i = 0; i < I.t[t].size(); ++i) if(W.used[t][i]) { W.used[t - 1][I.t[t][i].first] = 1; W.used[t - 1][I.t[t][i].first + I.t[t][i].second] = 1; } }
	for(int t = 1; t <= 7; ++t) { uint64_t r = 0; for(auto u : W.used[t]) { W.rank[t].push_back(r); r += u; } }
	return W;
}
static void run(const In& I, int k, int nt, int lg, int rc, int wc, int mul) {
	g_read_chunk_size = rc; g_write_chunk_size = wc; phase2::g_thread_multi = mul;
	{ Host h; vfs::add_dir("a"); vfs::add_dir("b"); }
	phase1::output_t in; in.params.k = k;
	{ DiskTable<phase1::tmp_entry_1> t("a/p.p1.table1.tmp"); for(uint64_t i = 0; i < I.n1; ++i) { phase1::tmp_entry_1 e; e.x = i * 5; t.write(e); } t.close(); in.table[0] = t.get_info(); }
	for(int t = 2; t <= 6; ++t) { DiskTable<phase1::tmp_entry_x> f("a/p.p1.table" + S(t) + ".tmp"); for(auto& p : I.t[t]) { phase1::tmp_entry_x e; e.pos = p.first; e.off = p.second; f.write(e); } f.close(); in.table[t - 1] = f.get_info(); }
	{ DiskTable<phase1::entry_7> f("b/p.p1.table7.tmp"); for(size_t i = 0; i < I.t[7].size(); ++i) { phase1::entry_7 e; e.y = I.y7[i]; e.pos = I.t[7][i].first; e.off = I.t[7][i].second; f.write(e); } f.close(); in.table[6] = f.get_info(); }
	phase2::output_t out;
	phase2::compute(in, out, nt, lg, "p", "a/", "b/");
	Want W; { Host h; W = expect(I); }
	MC_CHECK(out.params.k == k, "parameters not passed on");
	MC_CHECK(out.table_1.num_entries == I.n1, "table 1 has %zu entries", out.table_1.num_entries);
	for(uint64_t i = 0; i < I.n1; ++i) MC_CHECK(out.bitfield_1->get(i) == (bool)W.used[1][i], "table 1 entry %llu: %s", (unsigned long long)i, W.used[1][i] ? "needed but dropped" : "kept although nothing refers to it");
	{ Collect<phase1::tmp_entry_1> c; DiskTable<phase1::tmp_entry_1> t(out.table_1); t.read(&c, 1); MC_CHECK(c.v.size() == I.n1, "table 1 was changed"); for(uint64_t i = 0; i < I.n1; ++i) MC_CHECK(c.v[i].x == i * 5, "table 1 was changed"); }
	for(int t = 2; t <= 6; ++t) {
		Collect<phase2::entry_x> c; out.sort[t - 1]->read(&c, 1, 1);
		Host h; std::map<uint64_t, PP> got; uint64_t last = 0, kept = 0;
		for(auto& e : c.v) { MC_CHECK(e.pos >= last, "table %d not delivered in position order", t); last = e.pos; MC_CHECK(got.emplace(e.key, PP(e.pos, e.off)).second, "table %d: key %llu twice", t, (unsigned long long)e.key); }
		for(size_t i = 0; i < I.t[t].size(); ++i) if(W.used[t][i]) { kept++;
			auto it = got.find(W.rank[t][i]); MC_CHECK(it != got.end(), "table %d entry %zu (new number %llu) is missing", t, i, (unsigned long long)W.rank[t][i]);
			uint64_t a = W.rank[t - 1][I.t[t][i].first], b = W.rank[t - 1][I.t[t][i].first + I.t[t][i].second];
			MC_CHECK(it->second.first == a && it->second.first + it->second.second == b, "table %d entry %zu (%llu,+%llu): refers to %llu,%llu after renumbering, should be %llu,%llu", t, i, (unsigned long long)I.t[t][i].first, (unsigned long long)I.t[t][i].second, (unsigned long long)it->second.first, (unsigned long long)(it->second.first + it->second.second), (unsigned long long)a, (unsigned long long)b); }
		MC_CHECK(got.size() == kept, "table %d keeps %zu entries, %llu lead to table 7", t, got.size(), (unsigned long long)kept);
	}
	Collect<phase2::entry_7> c; DiskTable<phase2::entry_7> t7(out.table_7); t7.read(&c, 1);
	Host h; MC_CHECK(out.table_7.num_entries == I.t[7].size() && c.v.size() == I.t[7].size(), "table 7 has %zu of %zu entries", c.v.size(), I.t[7].size());
	for(size_t i = 0; i < c.v.size(); ++i) { uint64_t a = W.rank[6][I.t[7][i].first], b = W.rank[6][I.t[7][i].first + I.t[7][i].second]; MC_CHECK(c.v[i].y == I.y7[i] && c.v[i].pos == a && c.v[i].pos + (uint64_t)c.v[i].off == b, "table 7 entry %zu: (%llu,%llu) should be (%llu,%llu)", i, (unsigned long long)c.v[i].pos, (unsigned long long)(c.v[i].pos + c.v[i].off), (unsigned long long)a, (unsigned long long)b); }
	std::set<std::string> left; for(auto& f : vfs::list()) left.insert(f); for(int t = 2; t <= 7; ++t) MC_CHECK(!left.count((t == 7 ? "b/p.p1.table" : "a/p.p1.table") + S(t) + ".tmp"), "input table %d not removed", t);
	uint64_t o = 7; for(int t = 1; t <= 6; ++t) o = mix(o, W.rank[t].empty() ? 0 : W.rank[t].back()); outcome(o);
}
// tables 2..5 as a ladder: entry i refers to (i, 1) of the table below
static void ladder(In& I, int from, uint64_t n) { for(int t = from; t >= 2; --t) { I.t[t].clear(); for(uint64_t i = 0; i < n; ++i) I.t[t].push_back({i, 1}); n++; } I.n1 = n; }
static void reg(bool th) {
	Config base; base.mode = DELAY; base.fork_exec = true; base.max_bound = 0;
#ifdef H_DATA
	base.races = false; base.fork_exec = false;
	// every table 7 and table 6 over a small table below
	for(int n6 = 2; n6 <= (th ? 4 : 3); ++n6) { Config c = base; c.time_cap = th ? 300 : 40;
		add("C08/small/" KT "/n" + S(n6), c, [=] {
			In I; const int n5 = 4; std::vector<PP> p6, p5; for(int a = 0; a < n6; ++a) for(int b = 1; a + b < n6; ++b) p6.push_back({a, b}); for(int a = 0; a < n5; ++a) for(int b = 1; a + b < n5; ++b) p5.push_back({a, b});
			int n7 = choose(3, "n7"); for(int i = 0; i < n7; ++i) { I.t[7].push_back(p6[choose(p6.size(), "table 7 entry")]); I.y7.push_back(i * 3); }
			for(int i = 0; i < n6; ++i) I.t[6].push_back(p5[choose(p5.size(), "table 6 entry")]);
			ladder(I, 5, n5);
			int cfg = choose(2, "config"); static const int C[3][5] = {{1, 0, 64, 64, 1}, {3, 1, 2, 1, 2}};
			run(I, 17, C[cfg][0], C[cfg][1], C[cfg][2], C[cfg][3], C[cfg][4]); }); }
	// positions straddling word and index boundaries
	for(int bg = 0; bg < 4; ++bg) { Config c = base; c.fork_exec = true; c.time_cap = th ? 300 : 40;
		add("C08/boundary/" KT "/bg" + S(bg), c, [=] {
			static const uint64_t B[] = {0, 64, 128, 960, 1024, 1088, 1984, 2048, 2112, 3072}; const uint64_t N = 3200;
			uint64_t b = B[choose(10, "boundary")]; int level = 7 - choose(3, "level");   // the table holding the interesting references
			In I; uint64_t nb = N; std::vector<PP> v;
			for(int d = -2; d <= 2; ++d) for(uint64_t o : {1, 2, 62, 63, 64, 65, 127, 128, 129, 500, 959, 960, 961, 1022, 1023}) { int64_t p = (int64_t)b + d; if(p >= 0 && p + o < N) v.push_back({(uint64_t)p, o}); }
			if(bg & 1) for(uint64_t i = 0; i + 1 < N; i += 3) v.push_back({i, 1}); if(bg & 2) for(uint64_t i = 0; i + 1000 < N; i += 7) v.push_back({i, i % 900 + 1});
			std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
			I.t[level] = v; ladder(I, level - 1, N);
			uint64_t n = v.size(); for(int t = level + 1; t <= 7; ++t) { for(uint64_t i = 0; i + 1 < n; i += 1 + (t == 7)) I.t[t].push_back({i, 1}); n = I.t[t].size(); }
			for(size_t i = 0; i < I.t[7].size(); ++i) I.y7.push_back(i);
			int cfg = choose(2, "config"); run(I, 17, cfg ? 4 : 1, cfg ? 2 : 0, cfg ? 100 : 65536, cfg ? 64 : 4096, 1); }); }
	{ Config c = base; c.time_cap = th ? 200 : 30;   // sizes and configurations
		add("C08/config/" KT, c, [=] {
			int n = choose(9, "n"), nti = choose(4, "threads"), nt = nti == 3 ? 12 : 1 + nti, rc = 1 + choose(4, "read chunk"), wc = 1 + choose(3, "write chunk"), lg = choose(3, "log buckets"), mul = 1 + (nt & 1); In I; I.n1 = 9;
			uint64_t below = 9; for(int t = 2; t <= 7; ++t) { uint64_t m = t == 7 ? n : t % 2 ? 7 : 9; for(uint64_t i = 0; i < m; ++i) { uint64_t p = (i * t) % (below - 1); I.t[t].push_back({p, 1 + (i + t) % (below - p - 1)}); } below = m; }
			for(size_t i = 0; i < I.t[7].size(); ++i) I.y7.push_back(100 - i);
			run(I, 17, nt, lg, rc, wc, mul); }); }
	{ Config c = base; c.fork_exec = true; c.time_cap = th ? 200 : 30;   // any table can be the largest one
		add("C08/shape/" KT, c, [=] {
			int big = choose(8, "largest table"), sz = choose(3, "size"); static const int Z[] = {70, 140, 1100}; uint64_t n[8]; for(int t = 1; t <= 7; ++t) n[t] = t == big ? Z[sz] : 5 + t % 3;
			In I; I.n1 = n[1]; for(int t = 2; t <= 7; ++t) for(uint64_t i = 0; i < n[t]; ++i) { uint64_t b = n[t - 1], p = (i * (b > 100 ? 213 : 7) + (i % 2 ? b - 3 : 0)) % (b - 1), o = 1 + (i * 11) % std::min<uint64_t>(b - p - 1, 1023); if(i == 0) { p = b - 2; o = 1; } I.t[t].push_back({p, o}); }
			for(size_t i = 0; i < I.t[7].size(); ++i) I.y7.push_back(i * 2 % 100); int cfg = choose(2, "config"); run(I, 17, cfg ? 3 : 1, cfg, cfg ? 9 : 4096, 16, 1); }); }
#else
	for(int cfg = 0; cfg < 3; ++cfg) for(int sd : scheds(th)) { Config c = base; c.sched_default = sd; c.max_bound = th || sd == cfg || sd == 5 + cfg ? 1 : 0; c.time_cap = th ? 600 : 8; c.fork_exec = true;
		add("C08/sched/whole" + S(cfg) + "/d" + S(sd), c, [=] {
			In I; I.t[7] = {{0, 1}, {1, 2}, {0, 3}}; I.y7 = {5, 1, 9}; I.t[6] = {{0, 2}, {1, 1}, {0, 1}, {2, 3}}; ladder(I, 5, 6); if(cfg == 2) { I.t[7].push_back({2, 1}); I.y7.push_back(2); I.t[7].push_back({0, 2}); I.y7.push_back(7); }
			run(I, 17, cfg + 1, cfg & 1, cfg == 2 ? 1 : 2, 1, cfg == 2 ? 2 : 1); }); }
#endif
}
void mc::register_scenarios(const std::string& tier) { reg(tier == "thorough"); }
