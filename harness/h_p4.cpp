// C11: phase 4 on synthetic final tables; the finished plot is decoded by the independent reference.
#include "mc.h"
#include "../ref/ref.h"
#include <chia/phase3.hpp>
#include <chia/phase4.hpp>
#include <chia/DiskSort.hpp>
#include <chia/settings.h>
using namespace mc;
static std::string S(long v) { return std::to_string(v); }
#ifdef CHIA_MC_SCALE
static ref::Fmt FMT = [] { ref::Fmt f; f.epp = MC_EPP; f.delta1 = MC_D1; f.delta = MC_D; f.c1 = MC_C1; f.c2 = MC_C2; f.c3bits = MC_C3B; return f; }();
#else
static ref::Fmt FMT;
#endif
#ifdef CHIA_K34
#define KT "k34"
static const int BIGK = 34;
#else
#define KT "k32"
static const int BIGK = 32;
#endif
typedef std::vector<std::pair<uint64_t, uint64_t>> Ents;   // (f7, position in table 6), in f7 order
static void be_put(std::string& s, uint64_t v, int n) { for(int i = n - 1; i >= 0; --i) s += (char)(v >> (8 * i)); }
// short: the last C3 park holds one or two deltas, which the entropy coder cannot represent (known finding, own scenario)
static bool short_tail(size_t n) { size_t r = n % FMT.c1; return r == 2 || r == 3; }
static void phase(const Ents& E, int k, int nt, int lg, int rc, int wc, bool only_tail = false, const uint64_t gap = 0) {
	g_read_chunk_size = rc; g_write_chunk_size = wc;
	{ Host h; vfs::add_dir("a"); vfs::add_dir("f"); }
	std::string hd; uint64_t p7;
	{ Host h; hd = "Proof of Space Plot"; for(int i = 0; i < 32; ++i) hd += (char)(i * 5 + 1); hd += (char)k; be_put(hd, 4, 2); hd += "v1.0"; be_put(hd, 3, 2); hd += "mem";
		uint64_t hs = hd.size() + 80, ps = 7; p7 = hs + 6 * ps; for(int t = 1; t <= 7; ++t) be_put(hd, hs + (t - 1) * ps + (t == 7 ? gap : 0), 8); be_put(hd, 0, 8); be_put(hd, 0, 8); be_put(hd, 0, 8); for(uint64_t i = hs; i < p7; ++i) hd += (char)(i * 31 + 1);
		vfs::write("f/p.plot.tmp", hd); }
	phase3::output_t in; in.params.k = k; in.header_size = hd.size() - 42; in.final_pointer_7 = p7 + gap; in.num_written_7 = E.size(); in.plot_file_name = "f/p.plot.tmp";
	in.sort_7 = std::make_shared<phase3::DiskSortNP>(k, lg, "a/p.p3s2.t7");
	for(size_t i = 0; i < E.size(); ++i) { size_t j = (i * 7919 + 3) % E.size(); phase3::entry_np e; if(E.size() % 7919 == 0) j = i; e.key = E[j].first; e.pos = E[j].second; in.sort_7->add(e); }
	in.sort_7->finish();
	phase4::output_t out;
	phase4::compute(in, out, nt, lg, "p", "a/", "a/", "f/");
	in.sort_7 = nullptr;
	Host h;
	const size_t n = E.size(); const bool tail = short_tail(n);
	MC_CHECK(out.plot_file_name == "f/p.plot" && vfs::exists("f/p.plot") && !vfs::exists("f/p.plot.tmp"), "the plot was not published under its final name");
	auto s = vfs::read_at("f/p.plot", 0, p7); const uint64_t fsize = vfs::size("f/p.plot");
	if(gap) {   // the tables written here lie beyond a hole: cut it out (pointers included) before decoding
		auto z = vfs::read_at("f/p.plot", p7, std::min<uint64_t>(gap, 1 << 20)) + (gap > 1 << 20 ? vfs::read_at("f/p.plot", p7 + gap - (1 << 20), 1 << 20) : std::string()); for(char c : z) MC_CHECK(!c, "bytes before the last tables were written");
		for(int i = 7; i <= 10; ++i) { size_t o = hd.size() - 42 - 80 + (i - 1) * 8; uint64_t v = ref::be((const uint8_t*)s.data() + o, 8); MC_CHECK(v >= p7 + gap && v <= fsize + (1 << 20), "pointer %d is %llu", i, (unsigned long long)v); std::string b; be_put(b, v - gap, 8); s.replace(o, 8, b); }
	}
	s += vfs::read_at("f/p.plot", p7 + gap, 64 << 20);
	MC_CHECK(s.compare(0, hd.size() - 42 - 32, hd, 0, hd.size() - 42 - 32) == 0 && s.compare(hd.size() - 42, 42, hd, hd.size() - 42, 42) == 0, "phase 4 changed header or tables 1 to 6");
	std::string dec = s; const size_t c3 = ref::c3_size(k, FMT), nc1 = (n + FMT.c1 - 1) / FMT.c1;
	ref::Plot P = ref::decode(dec, FMT, tail ? n - n % FMT.c1 + 1 : n);
	if(n > 0 && tail) { // everything but the deltas of the last park
		P = ref::decode(dec, FMT, n);
		if(only_tail) { MC_CHECK(P.ok(), "n=%zu: the last C3 park of one or two deltas is not decodable: %s", n, P.err.c_str()); }
		else if(!P.ok() && P.err.compare(0, 7, "C3 park") == 0 && P.err.find(S(nc1 - 1) + " with " + S(n % FMT.c1 - 1) + " deltas") != std::string::npos) P.err.clear();   // known finding
	}
	MC_CHECK(P.ok(), "k=%d n=%zu: %s", k, n, P.err.c_str());
	MC_CHECK(P.ptr[7] == p7, "phase 4 moved the table 7 pointer");
	const size_t known = tail && P.f7.size() < n ? n - n % FMT.c1 + 1 : n;
	MC_CHECK(P.p7.size() == n && P.f7.size() >= known, "k=%d: %zu of %zu entries decode", k, P.f7.size(), n);
	for(size_t i = 0; i < known; ++i) MC_CHECK(P.f7[i] == E[i].first, "k=%d n=%zu: entry %zu has f7=%llu in the plot, %llu expected", k, n, i, (unsigned long long)P.f7[i], (unsigned long long)E[i].first);
	Ents a, b = E; for(size_t i = 0; i < n; ++i) a.push_back({E[i].first, P.p7[i]}); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
	MC_CHECK(a == b, "k=%d n=%zu: the table-6 references of some f7 value differ", k, n);
	for(size_t i = 0; i < nc1; ++i) MC_CHECK(P.c1[i] == E[i * FMT.c1].first, "k=%d n=%zu: C1 entry %zu wrong", k, n, i);
	for(size_t i = 0; i < P.c2.size(); ++i) MC_CHECK(P.c2[i] == E[i * FMT.c1 * FMT.c2].first, "k=%d n=%zu: C2 entry %zu wrong", k, n, i);
	const uint64_t end = P.ptr[10] + nc1 * c3;
	MC_CHECK(out.plot_size == end + gap, "reported plot size %llu, the last table ends at %llu", (unsigned long long)out.plot_size, (unsigned long long)end);
	MC_CHECK(s.size() <= end, "file has %zu bytes, the last table ends at %llu", s.size(), (unsigned long long)end);
	const uint8_t* q = (const uint8_t*)s.data();
	for(size_t i = 0, ps = ref::ba((uint64_t)(k + 1) * FMT.epp), np = n ? (n - 1) / FMT.epp + 1 : 1; i < np; ++i) { size_t cnt = std::min<size_t>(FMT.epp, n - i * FMT.epp); for(size_t bit = cnt * (k + 1); bit < ps * 8; ++bit) { size_t o = P.ptr[7] + i * ps + bit / 8; MC_CHECK(o >= s.size() || !(q[o] >> (7 - bit % 8) & 1), "stray bits in P7 park %zu", i); } }
	for(size_t i = 0; i < nc1; ++i) { size_t o = P.ptr[10] + i * c3; if(o + 2 > s.size()) continue; size_t sz = q[o] << 8 | q[o + 1]; for(size_t z = o + 2 + sz; z < o + c3 && z < s.size(); ++z) MC_CHECK(!q[z], "stray bytes behind the deltas of C3 park %zu", i); }
	outcome(hash_bytes(s.data(), s.size()));
}
static Ents entries(int k, size_t n, int pat) {
	static const int D[9][6] = {{1, 1, 1, 1, 1, 1}, {0, 0, 0, 0, 0, 0}, {1, 0, 2, 1, 0, 0}, {0, 3, 0, 0, 1, 5}, {7, 0, 1, 1, 0, 2}, {60, 0, 0, 0, 0, 1}, {0, 0, 0, 0, 90, 1}, {2, 1, 2, 1, 0, 3}, {2, 1, 3, 0, 4, 2}};
	Ents e; uint64_t y = pat % 3 == 0 ? 0 : pat % 3 == 1 ? 77 : 0, tot = 0; for(size_t i = 0; i + 1 < n; ++i) tot += D[pat][i % 6];
	if(pat % 3 == 2) y = (1ull << k) - 1 - std::min<uint64_t>(tot, (1ull << k) - 1);   // the last entry has the largest f7
	for(size_t i = 0; i < n; ++i) { e.push_back({y, pat % 2 ? (1ull << k) - 1 - i * 3 : i * 11 % 97 + (pat % 4 == 2 ? 1ull << k : 0)}); y += D[pat][i % 6]; }
#ifndef CHIA_K34
	if(k == 32) for(auto& x : e) x.second &= 0xFFFFFFFFull;
#endif
	return e;
}
static void reg(bool th) {
	Config base; base.mode = DELAY; base.fork_exec = true; base.max_bound = 0; base.races = true;
#ifdef H_DATA
	base.races = false;
#ifdef H_WIDE
	{ Config c = base; c.races = false; c.time_cap = 120; c.max_steps = 100000000; add("C11/wide", c, [=] {   // a C3 table larger than 4 GB: few parks of some 200 MB
		const int k = 25, n = 22 * MC_C1 + 5; Ents E = entries(k, n, 3); const uint64_t p7 = 500; g_read_chunk_size = 64; g_write_chunk_size = 64; { Host h; vfs::add_dir("a"); }
		FILE* f = fopen("a/plot", "wb"); { phase3::DiskSortNP s(k, 1, "a/np"); for(auto& x : E) { phase3::entry_np e; e.key = x.first; e.pos = x.second; s.add(e); } s.finish(); phase4::compute(f, k, 300, &s, 1, p7, n); } fclose(f);
		Host h; const uint64_t c3 = ref::c3_size(k, FMT); auto hd = vfs::read_at("a/plot", 276, 24); const uint64_t b = ref::be((const uint8_t*)hd.data() + 16, 8); MC_CHECK(b > p7 && b < 100000, "C3 pointer %llu", (unsigned long long)b);
		for(int i = 0; i < 23; ++i) { auto q = vfs::read_at("a/plot", b + i * c3, 200); size_t sz = (uint8_t)q[0] << 8 | (uint8_t)q[1], cnt = std::min(MC_C1, n - i * MC_C1) - 1; ref::bytes o; MC_CHECK(sz && sz < 190 && ref::fse_decode((const uint8_t*)q.data() + 2, sz, cnt, ref::R_C3, o), "C3 park %d of a table beyond 4 GB does not decode", i); for(size_t j = 0; j < cnt; ++j) MC_CHECK(o[j] == E[i * MC_C1 + j + 1].first - E[i * MC_C1 + j].first, "C3 park %d: delta %zu differs", i, j); } }); }
	return;
#endif
#ifdef H_TIGHT
	// C3 parks at the edge of their space: either the park decodes, or the overflow is reported and no plot is published
	for(int nt = 1; nt <= 2; ++nt) { Config c = base; c.fork_exec = true; c.terminate_ok = true; c.time_cap = th ? 300 : 30;
		static bool fits; add("C11/tight/t" + S(nt), c, [=] {
			static const int V[] = {0, 1, 2, 4, 9, 30, 100}; static const int K[] = {32, 19}; int k = K[choose(2, "k")], at = choose(3, "where"); Ents e; uint64_t y = 9; std::vector<unsigned char> d; const int n = MC_C1 + 5;
			int v[3]; for(int& x : v) x = V[choose(7, "delta")]; fits = true;
			for(int i = 0; i < n; ++i) { int x = i % MC_C1 && i / MC_C1 == at % 2 ? (i % MC_C1 <= 3 ? v[i % MC_C1 - 1] : at == 2 ? v[0] : 1) : i % 2; if(i) y += x; e.push_back({y, (uint64_t)i});
				if(i % MC_C1) d.push_back(e[i].first - e[i - 1].first); if(i % MC_C1 == MC_C1 - 1 || i == n - 1) { std::vector<uint8_t> o(d.size() * 8 + 16); Host h; if(Encoding::ANSEncodeDeltas(d, ref::R_C3, o.data()) + 2 > ref::c3_size(k, FMT)) fits = false; d.clear(); } }
			phase(e, k, nt, 1, 4, 2); MC_CHECK(fits, "a C3 park too large for its space was accepted"); },
			[](const char* how) { if(strcmp(how, "return")) { if(fits) fail("the process terminated although every C3 park fits"); if(vfs::exists("f/p.plot")) fail("a plot was published after the error"); } }); }
	return;
#endif
#ifdef CHIA_MC_SCALE
	const int NMAX = MC_C1 * MC_C2 * 2 + 3;
	for(int pat = 0; pat < 8; ++pat) { Config c = base; c.time_cap = th ? 300 : 40;
		add("C11/tables/" KT "/pat" + S(pat), c, [=] {
			static const int KS[] = {17, BIGK, 20, 25}; int k = KS[choose(th ? 4 : 2, "k")]; if(k < 20 && (pat == 5 || pat == 6) ) k = 20;
			int n = choose(NMAX, "entries"); int cfg = th ? choose(4, "config") : (n + pat) % 2 ? 1 : choose(2, "config");
			static const int C[4][4] = {{1, 0, 64, 64}, {9, 2, 2, 1}, {2, 1, 3, 2}, {4, 4, 1, 5}};
			phase(entries(k, n, pat), k, C[cfg][0], C[cfg][1], C[cfg][2], C[cfg][3]); }); }
	// every delta sequence of one checkpoint interval over boundary deltas
	{ Config c = base; c.time_cap = th ? 300 : 40; add("C11/deltas/" KT, c, [=] {
		static const int V[] = {0, 1, 2, 40, 110}; Ents e; uint64_t y = 5; const int m = th ? 5 : 4; e.push_back({y, 1}); for(int i = 0; i < m; ++i) { y += V[choose(5, "delta")]; e.push_back({y, (uint64_t)i + 2}); } for(int i = 0; i < 5; ++i) { y += i & 1; e.push_back({y, (uint64_t)i + 9}); }
		phase(e, BIGK, 2, 1, 4, 2); }); }
	{ Config c = base; c.time_cap = 60; c.terminate_ok = true; static bool must; add("C11/gaps/" KT, c, [=] {   // a gap between f7 values that the delta coding cannot express is reported, never stored wrong; between two checkpoints any gap is fine
		static const uint64_t V[] = {100, 113, 114, 115, 120, 200, 254, 255, 256, 257, 300, 511, 512, 65536, 65537, 1u << 20}; const uint64_t g = V[choose(16, "gap")]; const int at = 1 + choose(2 * MC_C1 + 3, "place"), nt = 1 + choose(2, "threads"); must = g <= 100 || at % MC_C1 == 0;
		Ents e; uint64_t y = 5; for(int i = 0; i < 2 * MC_C1 + 4; ++i) { if(i) y += i == at ? g : i % 2; e.push_back({y, (uint64_t)i + 2}); } phase(e, BIGK, nt, 1, 4, 2); },
		[](const char* how) { if(strcmp(how, "return")) { if(must) fail("the process terminated although every delta can be stored"); if(vfs::exists("f/p.plot")) fail("a plot was published after the error"); } }); }
	{ Config c = base; c.time_cap = 60; add("C11/huge/" KT, c, [=] { static const uint64_t G[] = {(1ull << 31) - 300, (1ull << 32) - 300, 1ull << 32, (1ull << 36) + 12345}; uint64_t g = G[choose(4, "offset")]; int pat = choose(3, "deltas"), n = 4 + choose(2, "entries") * (MC_C1 * MC_C2 + 1); phase(entries(BIGK, n, pat), BIGK, 2, 1, 3, 2, false, g); }); }
	for(int n : {2, 3, MC_C1 + 2, 2 * MC_C1 + 3}) { Config c = base; add("C11/short-tail/" KT "/n" + S(n), c, [=] { phase(entries(17, n, 0), 17, 1, 1, 3, 2, true); }); }
#else
	// real format constants: counts around the park and checkpoint boundaries
	for(int n : th ? std::vector<int>{0, 1, 4, 2047, 2048, 2049, 4096, 4097, 9999, 10000, 10001, 10004, 20000, 20001, 20480} : std::vector<int>{0, 1, 4, 2048, 2049, 10000, 10001, 10004, 20001, 20480}) { Config c = base; c.time_cap = th ? 300 : 40;
		add("C11/full/" KT "/n" + S(n), c, [=] { static const int KS[] = {17, BIGK}; int k = KS[choose(2, "k")]; int pat = choose(th ? 5 : 3, "deltas"); phase(entries(k, n, pat), k, 1 + choose(2, "threads"), 2, 4096, 1024); }); }
#endif
#else
	struct A { int n, nt, lg, rc, k, pat; }; const A as[] = {{6, 1, 0, 2, 17, 2}, {MC_C1 * 2 + 1, 2, 1, 5, 17, 3}, {MC_C1 + 5, 4, 1, 3, 17, 2}, {MC_C1 * MC_C2 + 5, 4, 0, 6, 17, 3},
		{MC_C1 * 2 + 1, 1, 2, 8, 6, 8}, {MC_C1 * 2 + 1, 2, 2, 8, 6, 8}};   // the last two: several sort buckets, so several blocks reach the pipeline
	for(int i = 0; i < 6; ++i) for(int sd : scheds(th)) { Config c = base; c.sched_default = sd; c.max_bound = th ? 2 : 1; c.time_cap = th ? 300 : 15; A a = as[i];
		add("C11/sched/" + S(i) + "/d" + S(sd), c, [=] { phase(entries(a.k, a.n, a.pat), a.k, a.nt, a.lg, a.rc, 2); }); }
#endif
}
void mc::register_scenarios(const std::string& tier) { ref::dtable(ref::R_C3); reg(tier == "thorough"); }
