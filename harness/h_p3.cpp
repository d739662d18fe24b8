// C09 / C10: phase 3 on synthetic tables (whole phase, park stage, and the join stage fed by scripted sorters).
#include "mc.h"
#include "../ref/ref.h"
#ifdef MC_PMAX
#include "../stubs/pmax.h"
#endif
#include <chia/phase3.hpp>
#include <chia/DiskSort.hpp>
#include <chia/settings.h>
#include <set>
#include <cmath>
using namespace mc;
static std::string S(long v) { return std::to_string(v); }
#ifdef CHIA_MC_SCALE
static ref::Fmt FMT = [] { ref::Fmt f; f.epp = MC_EPP; f.delta1 = MC_D1; f.delta = MC_D; f.c1 = MC_C1; f.c2 = MC_C2; f.c3bits = MC_C3B; return f; }();
#else
static ref::Fmt FMT;
#endif
#ifdef CHIA_K34
#define KT "k34"
static const int BIGK = 34;
#else
#define KT "k32"
static const int BIGK = 32;
#endif
typedef std::pair<uint64_t, uint64_t> PP;
template<typename E> struct Collect : Processor<std::pair<std::vector<E>, size_t>> { std::vector<E> v; void take(std::pair<std::vector<E>, size_t>& b) override { for(auto& e : b.first) v.push_back(e); } };

// ------------------------------------------------------------------ whole phase
struct Tables { std::vector<uint64_t> x; std::vector<char> used; std::vector<PP> t[6]; std::vector<std::array<uint64_t, 3>> t7; };   // t[1..5]: (pos, off) into the entries below, in key order; t7: (y, pos, off)
static Tables make(int n1, const int* n, int pat) {
	Tables T; const int drop = pat & 1;
	for(int i = 0, r = 0; r < n1; ++i) { bool u = !drop || i % 3 != 1; T.x.push_back((i * 37 + pat * 5) % 97); T.used.push_back(u); r += u; }
	int below = n1;
	for(int t = 1; t <= 5; ++t) {   // all pairs in some order, every entry below used at least once if possible
		std::vector<PP> all; for(int d = 1; d < below; ++d) for(int p = 0; p + d < below; ++p) all.push_back({p, d});
		int want = std::min<int>(n[t], all.size()); std::vector<PP> pick; int st = pat & 2 ? 3 : 1; std::vector<char> got(all.size());
		for(int i = 0, j = 0; i < want; ++i) { while(got[j % all.size()]) j++; got[j % all.size()] = 1; pick.push_back(all[j % all.size()]); j += st; }
		if(pat & 4) std::reverse(pick.begin(), pick.end());
		T.t[t] = pick; below = pick.size();
	}
	std::vector<std::array<uint64_t, 3>> s; int k7 = n[6];
	for(int d = 1, c = 0; d < below && c < k7; ++d) for(int p = 0; p + d < below && c < k7; ++p, ++c) s.push_back({(uint64_t)(c * 29 + pat) % 61, (uint64_t)p, (uint64_t)d});
	std::stable_sort(s.begin(), s.end(), [](const std::array<uint64_t, 3>& a, const std::array<uint64_t, 3>& b) { return a[1] < b[1]; }); T.t7 = s;
	return T;
}
static ref::Proofs want_proofs(const Tables& T) {
	std::vector<uint64_t> h; for(size_t i = 0; i < T.x.size(); ++i) if(T.used[i]) h.push_back(ref::leaf_hash(T.x[i]));
	for(int t = 1; t <= 5; ++t) { std::vector<uint64_t> g; for(auto& e : T.t[t]) g.push_back(ref::node_hash(h[e.first], h[e.first + e.second])); h.swap(g); }
	ref::Proofs p; for(auto& e : T.t7) p.push_back({e[0], ref::node_hash(h[e[1]], h[e[1] + e[2]])}); std::sort(p.begin(), p.end()); return p;
}
static void whole(const Tables& T, int k, int nt, int lg, int rc, int wc, int memo = 7) {
	g_read_chunk_size = rc; g_write_chunk_size = wc;
	{ Host h; vfs::add_dir("a"); vfs::add_dir("b"); vfs::add_dir("f"); }
	phase2::output_t in; in.params.k = k; in.params.memo.resize(memo); for(int i = 0; i < memo; ++i) in.params.memo[i] = i * 5 + 9; for(int i = 0; i < 32; ++i) in.params.id[i] = i * 3;
	{ DiskTable<phase2::entry_1> t("a/p.p1.table1.tmp"); for(auto x : T.x) { phase2::entry_1 e; e.x = x; t.write(e); } t.close(); in.table_1 = t.get_info(); }
	{ DiskTable<phase2::entry_7> t("b/p.p2.table7.tmp"); for(auto& y : T.t7) { phase2::entry_7 e; e.y = y[0]; e.pos = y[1]; e.off = y[2]; t.write(e); } t.close(); in.table_7 = t.get_info(); }
	in.bitfield_1 = std::make_shared<bitfield>(T.x.size()); for(size_t i = 0; i < T.x.size(); ++i) if(T.used[i]) in.bitfield_1->set(i);
	for(int t = 1; t <= 5; ++t) { in.sort[t] = std::make_shared<phase2::DiskSortT>(k, lg, (t == 1 ? "b/p.p2.t" : "a/p.p2.t") + S(t + 1)); uint64_t key = 0; for(auto& e : T.t[t]) { phase2::entry_x x; x.key = key++; x.pos = e.first; x.off = e.second; in.sort[t]->add(x); } in.sort[t]->finish(); }
	phase3::output_t out;
	phase3::compute(in, out, nt, lg, "p", "a/", "b/", "f/");
	Collect<phase3::entry_np> c; out.sort_7->read(&c, 1);
	Host hh;
	auto s = vfs::read(out.plot_file_name);
	ref::Plot P; const uint8_t* p = (const uint8_t*)s.data(); size_t o = 19 + 32 + 1 + 2 + 4 + 2 + memo;
	MC_CHECK(s.size() >= o + 80 && out.header_size == (int)o + 80, "header size is %d", out.header_size);
	{ std::string hd = "Proof of Space Plot"; for(int i = 0; i < 32; ++i) hd += (char)(i * 3); hd += (char)k; hd += '\0'; hd += (char)4; hd += "v1.0"; hd += (char)(memo >> 8); hd += (char)memo; for(int i = 0; i < memo; ++i) hd += (char)(i * 5 + 9); MC_CHECK(s.compare(0, hd.size(), hd) == 0, "the plot header is wrong (k=%d, memo of %d bytes)", k, memo); }
	for(int i = 1; i <= 10; ++i) P.ptr[i] = ref::be(p + o + (i - 1) * 8, 8);
	P.k = k; MC_CHECK(P.ptr[1] == o + 80, "table 1 starts at %llu", (unsigned long long)P.ptr[1]); MC_CHECK(P.ptr[7] == out.final_pointer_7, "end pointer");
	for(int t = 1; t <= 6; ++t) { uint64_t n = t < 6 ? T.t[t].size() : T.t7.size(); MC_CHECK(ref::decode_table(P, s, FMT, t, n), "table %d: %s", t, P.err.c_str()); }
	MC_CHECK(out.num_written_7 == T.t7.size(), "reports %llu of %zu final entries", (unsigned long long)out.num_written_7, T.t7.size());
	P.p7.clear(); P.f7.clear(); for(auto& e : c.v) { P.f7.push_back(e.key); P.p7.push_back(e.pos); }
	ref::Proofs got; MC_CHECK(ref::proofs_of(P, got), "%s", P.err.c_str());
	auto want = want_proofs(T);
	MC_CHECK(got == want, "%zu entries reach the last table, %zu expected, or they denote different x values", got.size(), want.size());
	outcome(hash_bytes(s.data(), s.size()));
}
// ------------------------------------------------------------------ park stage
#ifdef MC_PMAX
static const uint64_t LIMIT = 1ull << MC_PMAX;   // entries at or beyond this position cannot be referred to: they are left out
#define OV "/overflow"
#else
static const uint64_t LIMIT = ~0ull;
#define OV ""
#endif
static void parks(int k, int t, const std::vector<ref::u128>& all, int nt, int lg, int rc, int wc, const uint64_t begin = 11) {   // all: sorted
	g_read_chunk_size = rc; g_write_chunk_size = wc;
	{ Host h; vfs::add_dir("a"); }
	std::vector<ref::u128> pts(all.begin(), all.begin() + std::min<uint64_t>(all.size(), LIMIT));
	FILE* f = fopen("a/plot", "wb"); uint64_t end = 0; if(!f) throw std::runtime_error("fopen() failed");
	{
		phase3::DiskSortLP R(2 * k - 1, lg, "a/lp"); phase3::DiskSortNP L(k, lg, "a/np");
		for(size_t i = all.size(); i-- > 0;) { phase3::entry_lp e; e.point = all[i]; e.key = (i * 7 + 3) % 251; R.add(e); }
		R.finish();
		uint64_t n = phase3::compute_stage2(t, k, nt, &R, &L, f, begin, &end);
		if(fclose(f)) throw std::runtime_error("fclose() failed");
		MC_CHECK(n == pts.size(), "stage 2 reports %llu of %zu entries", (unsigned long long)n, pts.size());
		Collect<phase3::entry_np> c; L.read(&c, 1);
		std::multiset<PP> a, b; for(auto& e : c.v) a.insert({e.key, e.pos}); for(size_t i = 0; i < pts.size(); ++i) b.insert({(i * 7 + 3) % 251, i});
		MC_CHECK(a == b, "renumbering does not follow line point order (%zu of %zu entries)", a.size(), b.size());
	}
	Host h; const uint64_t size = vfs::size("a/plot"), cut = begin - std::min<uint64_t>(begin, 11);   // decode relative to the table, which may lie beyond 4 GB
	auto s = vfs::read_at("a/plot", cut, 1 << 20); ref::Plot P; P.k = k; P.ptr[t] = begin - cut; P.ptr[t + 1] = end - cut;
	const uint64_t np = (pts.size() + FMT.epp - 1) / FMT.epp, ps = ref::park_size(k, t, FMT);
	MC_CHECK(end == begin + np * ps, "next table starts at %llu, %llu parks end at %llu", (unsigned long long)end, (unsigned long long)np, (unsigned long long)(begin + np * ps));
	MC_CHECK(pts.empty() ? size <= begin : size == end, "file has %llu bytes, the table ends at %llu", (unsigned long long)size, (unsigned long long)end);
	{ auto z = vfs::read_at("a/plot", 0, std::min<uint64_t>(begin, 1 << 20)) + s.substr(0, begin - cut); for(size_t i = 0; i < z.size(); ++i) MC_CHECK(z[i] == 0, "bytes before the table were written"); }
	if(pts.empty()) return;
	MC_CHECK(ref::decode_table(P, s, FMT, t, pts.size()), "%s", P.err.c_str());
	MC_CHECK(P.lp[t] == pts, "decoded line points differ from the sorted line points");
	for(uint64_t i = 0; i < np; ++i) { const uint8_t* q = (const uint8_t*)s.data() + begin - cut + i * ps; size_t n = std::min<uint64_t>(FMT.epp, pts.size() - i * FMT.epp);
		// unused stub bits and everything behind the deltas is zero (byte-identical plots)
		const uint8_t* st = q + ref::ba(2 * k); size_t lim = ref::ba((uint64_t)(FMT.epp - 1) * (k - 3)); for(size_t b = (n - 1) * (k - 3); b < lim * 8; ++b) MC_CHECK(!(st[b / 8] >> (7 - b % 8) & 1), "stray stub bits in park %llu", (unsigned long long)i);
		const uint8_t* de = st + lim; size_t ds = (de[0] | de[1] << 8) & 0x7FFF; for(const uint8_t* z = de + 2 + ds; z < q + ps; ++z) MC_CHECK(!*z, "stray bytes behind the deltas of park %llu", (unsigned long long)i); }
	outcome(hash_bytes(s.data(), s.size()));
}
static std::vector<ref::u128> points(int k, int n, int pat, int first) {
	std::vector<ref::u128> v; ref::u128 top = (((ref::u128)1 << k) - 1) * (((ref::u128)1 << k) - 2) / 2 + ((ref::u128)1 << k) - 2;   // largest line point
	ref::u128 unit = (ref::u128)1 << (k - 3), p = first == 0 ? 0 : first == 1 ? 12345 % unit : first == 2 ? (ref::u128)1 << (2 * k - 3) : (ref::u128)1 << (2 * k - 2);
	static const int D[8][7] = {{0, 0, 0, 0, 0, 0, 0}, {1, 0, 2, 1, 0, 0, 3}, {40, 0, 0, 1, 0, 2, 0}, {0, 5, 4, 3, 2, 1, 0}, {7, 7, 7, 7, 7, 7, 7}, {0, 0, 30, 0, 0, 30, 1}, {1, 1, 1, 1, 1, 1, 2}, {20, 21, 22, 23, 24, 25, 26}};
	for(int i = 0; i < n; ++i) { v.push_back(p); ref::u128 stub = pat % 2 ? unit - 1 - i : i * 3 + 1; p += D[pat][i % 7] * unit + (stub & (unit - 1)); }
	return v;
}
// ------------------------------------------------------------------ join stage with scripted inputs
struct SL { std::vector<std::vector<uint64_t>> blocks; void read(Processor<std::pair<std::vector<phase3::entry_np>, size_t>>* o, int, int = -1) { size_t off = 0; for(auto& b : blocks) { std::pair<std::vector<phase3::entry_np>, size_t> x; x.second = off; for(auto p : b) { phase3::entry_np e; e.key = off++; e.pos = p; x.first.push_back(e); } o->take(x); } } };
struct SR { std::vector<std::vector<PP>> blocks; void read(Processor<std::pair<std::vector<phase2::entry_x>, size_t>>* o, int, int = -1) { size_t off = 0; for(auto& b : blocks) { std::pair<std::vector<phase2::entry_x>, size_t> x; x.second = off; for(auto& p : b) { phase2::entry_x e; e.key = off++; e.pos = p.first; e.off = p.second; x.first.push_back(e); } o->take(x); } } };
static void join(const SL& L0, const SR& R0, int nt) {
	g_read_chunk_size = 8; g_write_chunk_size = 8; { Host h; vfs::add_dir("a"); }
	SL L = L0; SR R = R0; phase3::DiskSortLP out(15, 0, "a/lp");
	phase3::compute_stage1<phase3::entry_np, phase2::entry_x, SL, SR>(2, nt, &L, &R, &out);
	Collect<phase3::entry_lp> c; out.read(&c, 1, 1);
	Host h; std::vector<uint64_t> np; for(auto& b : L0.blocks) for(auto p : b) np.push_back(p);
	std::multiset<PP> want, got; uint64_t key = 0; for(auto& b : R0.blocks) for(auto& e : b) want.insert({key++, (uint64_t)ref::line_point(np[e.first], np[e.first + e.second])});
	for(auto& e : c.v) got.insert({e.key, (uint64_t)e.point});
	MC_CHECK(got == want, "%zu line points produced for %zu entries, or they differ", got.size(), want.size());
}
// the join fed from table 1 and its bitmap of used entries (whole blocks may drop out)
static void join1(const std::vector<int>& used, const SR& R0, int nt, int rc) {
	g_read_chunk_size = rc; g_write_chunk_size = 8; { Host h; vfs::add_dir("a"); }
	std::vector<uint64_t> np; SR R = R0; table_t info; bitfield* u; { Host h; u = new bitfield(used.size()); }
	{ DiskTable<phase2::entry_1> t("a/t1"); for(size_t i = 0; i < used.size(); ++i) { phase2::entry_1 e; e.x = (i * 37 + 5) % 97; t.write(e); if(used[i]) { u->set(i); np.push_back(e.x); } } t.close(); info = t.get_info(); }
	DiskTable<phase2::entry_1> L(info); phase3::DiskSortLP out(15, 0, "a/lp");
	phase3::compute_stage1<phase2::entry_1, phase2::entry_x, phase3::DiskSortNP, SR>(1, nt, nullptr, &R, &out, &L, u);
	Collect<phase3::entry_lp> c; out.read(&c, 1, 1);
	Host h; std::multiset<PP> want, got; uint64_t key = 0; for(auto& b : R0.blocks) for(auto& e : b) want.insert({key++, (uint64_t)ref::line_point(np[e.first], np[e.first + e.second])});
	for(auto& e : c.v) got.insert({e.key, (uint64_t)e.point}); delete u;
	MC_CHECK(got == want, "%zu line points produced for %zu entries, or they differ (table 1 with dropped entries)", got.size(), want.size());
}
static uint64_t cur_delta;
static void reg(bool th) {
	Config base; base.mode = DELAY; base.fork_exec = true; base.max_bound = 0; base.races = true;
#ifdef H_WIDE
	// table larger than 4 GB: few parks, each of some 200 MB of (mostly unused) space
	{ Config c = base; c.races = false; c.time_cap = 120; c.max_steps = 100000000; add("C10/wide", c, [=] {
		const int k = 25, t = th ? 1 + choose(2, "table") : 2, n = 22 * MC_EPP + 2; auto pts = points(k, n, 1, 1); g_read_chunk_size = 64; g_write_chunk_size = 64; { Host h; vfs::add_dir("a"); }
		FILE* f = fopen("a/plot", "wb"); uint64_t end = 0; const uint64_t begin = 11; { phase3::DiskSortLP R(2 * k - 1, 1, "a/lp"); phase3::DiskSortNP L(k, 1, "a/np"); for(int i = 0; i < n; ++i) { phase3::entry_lp e; e.point = pts[i]; e.key = i; R.add(e); } R.finish(); phase3::compute_stage2(t, k, 1, &R, &L, f, begin, &end); } fclose(f);
		Host h; const uint64_t ps = ref::park_size(k, t, FMT), np = 23; ref::Fmt F2 = FMT; F2.delta = F2.delta1 = 64; const uint64_t p2 = ref::park_size(k, t, F2); MC_CHECK(end == begin + np * ps, "next table starts at %llu instead of %llu", (unsigned long long)end, (unsigned long long)(begin + np * ps));
		std::string s; for(uint64_t i = 0; i < np; ++i) s += vfs::read_at("a/plot", begin + i * ps, p2); ref::Plot P; P.k = k; P.ptr[t] = 0; P.ptr[t + 1] = s.size();
		MC_CHECK(ref::decode_table(P, s, F2, t, n), "%s", P.err.c_str()); MC_CHECK(P.lp[t] == pts, "decoded line points of a table beyond 4 GB differ from the sorted line points"); }); }
	return;
#endif
#ifdef H_HUGE
	// a left table with more than 2^32 entries: positions of right parents beyond 32 bits
	{ Config c = base; c.races = false; c.time_cap = 200; c.max_steps = 100000000; add("C09/hugepos/" KT, c, [=] {
		static const uint64_t B = 1 << 20, NB = (1ull << 12) + 2; static auto np = [](uint64_t i) { return (i * 0x9E3779B97F4A7C15ull) >> (64 - BIGK); };
		struct HL { void read(Processor<std::pair<std::vector<phase3::entry_np>, size_t>>* o, int, int = -1) { for(uint64_t b = 0; b < NB; ++b) { std::pair<std::vector<phase3::entry_np>, size_t> x; x.second = b * B; x.first.resize(B); for(uint64_t i = 0; i < B; ++i) { x.first[i].key = b * B + i; x.first[i].pos = np(b * B + i); } o->take(x); } } };
		static std::vector<PP> rs; { Host h; rs.clear(); for(uint64_t b = 0; b < NB; ++b) { const uint64_t e = (b + 1) * B; for(auto p : {PP(b * B + b % 7, 1 + b % 1000), PP(e - 5, 3)}) rs.push_back(p); if(b + 1 < NB) for(auto p : {PP(e - 3, 3), PP(e - 2, 1023), PP(e - 1, 1)}) rs.push_back(p); }
			if(BIGK == 32) { std::vector<PP> v; for(auto& p : rs) if(p.first >> 32 == 0) v.push_back(p); rs = v; } }   // left parents beyond 2^32 are not representable there
		struct HR { void read(Processor<std::pair<std::vector<phase2::entry_x>, size_t>>* o, int, int = -1) { for(size_t i = 0; i < rs.size(); i += 5) { std::pair<std::vector<phase2::entry_x>, size_t> x; x.second = i; for(size_t j = i; j < rs.size() && j < i + 5; ++j) { phase2::entry_x e; e.key = j; e.pos = rs[j].first; e.off = rs[j].second; x.first.push_back(e); } o->take(x); } } };
		g_read_chunk_size = 1000; g_write_chunk_size = 1000; { Host h; vfs::add_dir("a"); } HL L; HR R; phase3::DiskSortLP out(2 * BIGK - 1, 1, "a/lp");
		phase3::compute_stage1<phase3::entry_np, phase2::entry_x, HL, HR>(2, 1, &L, &R, &out);
		Collect<phase3::entry_lp> cc; out.read(&cc, 1, 1); Host h; MC_CHECK(cc.v.size() == rs.size(), "%zu line points for %zu entries", cc.v.size(), rs.size()); std::vector<char> seen(rs.size());
		for(auto& e : cc.v) { MC_CHECK(e.key < rs.size() && !seen[e.key], "key %llu twice or out of range", (unsigned long long)e.key); seen[e.key] = 1; auto& p = rs[e.key]; MC_CHECK((ref::u128)e.point == ref::line_point(np(p.first), np(p.first + p.second)), "entry (%llu,+%llu) is joined with the wrong parents", (unsigned long long)p.first, (unsigned long long)p.second); } outcome(1); }); }
	return;
#endif
#ifdef H_FULL
	// parks of the real size with deltas of the tables' own distributions, up to the largest sizes that occur
	for(int t = 1; t <= 6; ++t) { Config c = base; c.races = false; c.time_cap = th ? 300 : 60; c.max_steps = 100000000;
		add("C10/real/t" + S(t), c, [=] {
			static const int N[] = {2048, 2049, 4096, 5000, 2047, 1024}; const int n = N[choose(th ? 6 : 3, "entries")], sc = choose(5, "spread"), sd = th ? choose(2, "pattern") : 0; static const double F[2][5] = {{0.02, 0.3, 0.7, 0.9, 1.0}, {0.02, 0.3, 0.7, 1.0, 1.6}};
			const double mean = F[t == 1][sc] * ref::R_TABLE[t]; uint64_t s = 88172645463325252ull + sc + sd * 77; ref::u128 p = 12345, unit = (ref::u128)1 << (BIGK - 3); std::vector<ref::u128> v;
			for(int i = 0; i < n; ++i) { v.push_back(p); s ^= s << 13; s ^= s >> 7; s ^= s << 17; double x = ((s >> 11) + 1) / 9007199254740993.0; int d = std::min<int>(60, (int)(-mean * log(x))); p += (ref::u128)d * unit + (s * 0x9E3779B97F4A7C15ull >> 34) % (uint64_t)unit; }
			parks(BIGK, t, v, 4, 1, 1000, 500); }); }
	// parks of the real size (larger than a stdio buffer): every single failed or short write, seek and read
	for(int t : {1, 4}) { Config c = base; c.races = false; c.max_bound = 1; c.time_cap = th ? 300 : 60; c.terminate_ok = true; c.max_steps = 100000000;
		add("C13/parks/t" + S(t), c, [=] {
			{ Host h; vfs::set_fault([](const vfs::Op& o) -> int { if(o.kind == vfs::REMOVE || o.kind == vfs::STAT || o.path != "a/plot") return 0; int n = o.kind == vfs::WRITE ? 3 : 2, r = choose(n, "fault", 1); if(r) add_counter(31, 1); return r == 0 ? 0 : r == 2 ? -1 : o.kind == vfs::WRITE ? ENOSPC : EIO; }); }
			try { parks(BIGK, t, points(BIGK, 2 * 2048 + 5, 1, 1), 2, 1, 4096, 4096); outcome(1); } catch(const std::exception&) { outcome(2); end_exec_ok(); } }, [](const char*) {}); }
	return;
#endif
#ifdef H_DATA
	base.races = false;
	{ Config c = base; c.time_cap = 30; c.terminate_ok = true; add("C10/delta/" KT, c, [=] {   // a distance that does not fit the delta coding: reported, never stored wrong
		static const int KS[] = {17, BIGK}; const int k = KS[choose(2, "k")], t = 1 + choose(6, "table"), at = choose(3, "place"); static const int D[] = {60, 100, 200, 240, 254, 255, 256, 257, 300, 511, 512, 65536}; const uint64_t d = cur_delta = D[choose(12, "delta")];
		std::vector<ref::u128> v; ref::u128 p = 5; for(int i = 0; i < 4; ++i) { v.push_back(p); p += i == at ? ((ref::u128)d << (k - 3)) + 9 : 1000; } if(v.back() >> (2 * k - 1)) return;
		try { parks(k, t, v, 1 + at % 2, 1, 8, 8); outcome(1); } catch(const std::exception&) { MC_CHECK(d >= 255, "a park with a delta of %llu was rejected", (unsigned long long)d); outcome(2); end_exec_ok(); } }, [](const char* how) { if(strcmp(how, "return")) MC_CHECK(cur_delta >= 255, "a park with a delta of %llu was rejected", (unsigned long long)cur_delta); }); }
	for(int t = 1; t <= 6; ++t) { Config c = base; c.time_cap = th ? 300 : 30;
		add("C10/parks" OV "/" KT "/t" + S(t), c, [=] {
			static const int KS[] = {17, BIGK, 25}; int k = KS[choose(th ? 3 : 2, "k")];
			int n = choose(2 * MC_EPP + 3, "entries"); int pat = choose(8, "deltas"), fi = th ? choose(4, "first") : (n + pat) % 4; int cfg = choose(th ? 3 : 2, "config"); if(!th && cfg && BIGK == 34) cfg = 2;
			static const int C[3][4] = {{1, 1, 3, 2}, {9, 2, 2, 1}, {2, 0, 64, 64}};
			parks(k, t, points(k, n, pat, fi), C[cfg][0], C[cfg][1], C[cfg][2], C[cfg][3]); }); }
	{ Config c = base; c.fork_exec = false; c.time_cap = th ? 300 : 30;   // every way the sorted line points can be cut into blocks, relative to the park boundaries
		add("C10/cuts" OV "/" KT, c, [=] { int n = MC_EPP + choose(MC_EPP + 2, "entries"); unsigned cuts = choose(1u << (n - 1), "cuts"); std::vector<ref::u128> v; ref::u128 p = 77; for(int i = 0; i < n; ++i) { if(i) p += cuts >> (i - 1) & 1 ? (16ull << 14) : 12345; v.push_back(p); } parks(17, 1 + n % 6, v, 1 + (cuts & 1), 8, 5, 3); }); }
#ifndef MC_PMAX
	{ Config c = base; c.time_cap = 60; add("C10/huge/" KT, c, [=] { int t = 1 + choose(6, "table"), pat = choose(3, "deltas"), at = choose(4, "begin"); static const uint64_t B[] = {(1ull << 31) - 50, (1ull << 32) - 100, (1ull << 32) + 7, (1ull << 36) + 12345}; parks(BIGK, t, points(BIGK, 2 * MC_EPP + 2, pat, pat), 2, 1, 3, 2, B[at]); }); }
	{ Config c = base; c.time_cap = 60; add("C12/header/" KT, c, [=] { static const int KS[] = {17, BIGK, 25, 31}, ME[] = {112, 128, 0, 1, 7, 255, 256, 257, 300}; static const int N[7] = {0, 6, 9, 4, 4, 4, 4}; int k = KS[choose(4, "k")], m = ME[choose(9, "memo length")]; whole(make(5, N, 2), k, 2, 1, 64, 64, m); }); }
	for(int pat = 0; pat < 8; ++pat) { if(!th && BIGK == 34 && pat % 5 != 1) continue; Config c = base; c.time_cap = th ? 300 : 30;
		add("C09/whole/" KT "/pat" + S(pat), c, [=] {
			int n1 = 4 + (th ? choose(3, "n1") : pat % 3), m = choose(6, "sizes"); static const int N[6][7] = {{0, 6, 6, 6, 6, 6, 6}, {0, 3, 3, 3, 3, 3, 2}, {0, 9, 11, 13, 9, 8, 9}, {0, 6, 9, 4, 4, 4, 4}, {0, 4, 5, 8, 12, 13, 17}, {0, 2, 2, 2, 2, 2, 1}};
			static const int NT[] = {1, 2, 13, 8}; int nt = NT[choose(th ? 4 : 3, "threads")]; int lg = choose(3, "log buckets"); static const int C[3][2] = {{64, 64}, {2, 1}, {3, 2}}; int c = choose(3, "chunks");
			static const int ME[] = {112, 128, 7, 300, 0, 255, 256, 1}; whole(make(n1, N[m], pat), m % 2 ? BIGK : 17, nt, lg, C[c][0], C[c][1], ME[pat]); }); }
#endif
#elif defined(CHIA_MC_SCALE)
	// interleavings of the whole phase on small tables
	for(int sd : scheds(th)) for(int cfg = 0; cfg < 2; ++cfg) { Config c = base; c.sched_default = sd; c.max_bound = th ? 1 : 0; c.time_cap = th ? 600 : 30;
		add("C09/sched/whole" + S(cfg) + "/d" + S(sd), c, [=] { static const int N[2][7] = {{0, 3, 3, 3, 3, 3, 3}, {0, 6, 5, 6, 5, 5, 5}}; whole(make(4, N[cfg], 1 + cfg * 4), 17, cfg ? 8 : 2, 1, 2, 1); }); }
	// interleavings of the park stage
	for(int sd : scheds(th)) for(int cfg = 0; cfg < 3; ++cfg) { Config c = base; c.sched_default = sd; c.max_bound = th ? 2 : 1; c.time_cap = th ? 300 : 20;
		add("C10/sched/" + S(cfg) + "/d" + S(sd), c, [=] { if(cfg == 2) { std::vector<ref::u128> v; for(int i = 0; i < 2 * MC_EPP + 1; ++i) v.push_back(((ref::u128)(i / MC_EPP) << 30) + i % MC_EPP * 20000 + 7); parks(17, 3, v, 4, 2, 4, 2); return; }   // one block per park
			parks(17, 1 + cfg * 5, points(17, cfg ? 9 : 6, 1, 1), cfg ? 4 : 2, 1, 2, 2); }); }
	// the entropy coder used by several threads at once, its table built on first use
	for(int cfg = 0; cfg < 4; ++cfg) for(int sd : scheds(th, true)) { Config c = base; c.time_cap = th ? 200 : 15; c.max_steps = 100000000; if(sd < 0) { c.mode = PREEMPT; c.max_bound = th ? 3 : 2; } else { c.sched_default = sd; c.max_bound = th ? 3 : 2; }
		add("C21/sched/" + S(cfg) + (sd < 0 ? "/p" : "/d" + S(sd)), c, [=] {
			static const double R[4][3] = {{2.7, 2.7, 2.7}, {4.7, 2.75, 4.7}, {1.0, 1.0, 1.0}, {2.45, 2.45, 2.6}}; const int n = cfg < 2 ? 2 : 3; std::vector<std::thread> t; std::vector<std::vector<uint8_t>> out(n), in(n); std::vector<size_t> len(n);
			for(int i = 0; i < n; ++i) { for(int j = 0; j < 5 + i; ++j) in[i].push_back((j * 3 + i) % 5); out[i].resize(in[i].size() * 8); }
			for(int i = 0; i < n; ++i) t.emplace_back([&, i] { len[i] = Encoding::ANSEncodeDeltas(in[i], R[cfg][i], out[i].data()); });
			for(auto& x : t) x.join(); Host h;
			for(int i = 0; i < n; ++i) { ref::bytes o; MC_CHECK(len[i] > 0 && len[i] <= out[i].size() && ref::fse_decode(out[i].data(), len[i], in[i].size(), R[cfg][i], o), "thread %d: the format's decoder rejects the encoding (%zu bytes)", i, len[i]); MC_CHECK(std::equal(in[i].begin(), in[i].end(), o.begin()), "thread %d: decoded deltas differ", i); outcome(hash_bytes(out[i].data(), len[i])); } }); }
	// interleavings of the join stage
	struct J { SL L; SR R; int nt; int bp, bd, bpt, bdt; };
	std::vector<J> js = {
		{{{{5, 3}, {9, 1}}}, {{{{0, 1}, {1, 2}}}}, 1, 1, 2, 2, 3},
		{{{{5, 3}, {9, 1}, {7, 2}}}, {{{{0, 1}}, {{1, 1}, {2, 3}}}}, 1, 1, 2, 2, 3},
		{{{{5, 3, 4}}}, {{{{0, 1}}, {{1, 1}}}}, 8, 1, 2, 2, 3},
		{{{{5, 3}, {9, 1}, {7}}}, {{{{0, 2}}, {{1, 2}}, {{2, 2}}}}, 8, 1, 2, 2, 3},
		{{{{5}, {3}, {9}, {1}, {8}}}, {{{{0, 1}, {0, 4}}, {{3, 1}}}}, 8, 0, 2, 1, 3},
		{{{{5}, {3}, {9}, {1}, {8}}}, {{{{0, 1}}}}, 1, 1, 2, 2, 3},
		{{{{5, 3}, {9, 1}, {7}}}, {{{{0, 1}}, {{0, 2}}, {{1, 2}}}}, 12, 0, 2, 1, 2},
		{{{{5}, {3}, {9}, {1}, {8}}}, {{{{0, 2}}, {{1, 2}}, {{2, 1}}, {{2, 2}}}}, 16, 0, 1, 1, 2},
		{{{{5}, {3}, {9}, {1}, {8}, {4}, {2}, {6}, {7}, {0}, {11}, {12}}}, {{{{0, 1}}, {{0, 11}}, {{1, 10}}}}, 8, 0, 1, 1, 2},   // one merge thread far behind
		{{{{}, {5, 3}, {}, {}, {9, 1}, {}}}, {{{{0, 1}}, {}, {{1, 2}}}}, 8, 0, 1, 1, 2},   // empty blocks
		{{{{5}, {}, {}, {3, 9}}}, {{{}, {{0, 1}, {0, 2}}}}, 1, 0, 1, 1, 3},
	};
	for(size_t i = 0; i < js.size(); ++i) for(int sd : scheds(th, th)) { J j = js[i]; Config c = base; c.time_cap = th ? 300 : 12; if(sd < 0) { c.mode = PREEMPT; c.fork_exec = false; c.max_bound = th ? j.bpt : j.bp; } else { c.sched_default = sd; c.fork_exec = false; c.max_bound = th ? j.bdt : j.bd; }
		add("C09/join/" + S(i) + (sd < 0 ? "/p" : "/d" + S(sd)), c, [=] { join(j.L, j.R, j.nt); }); }
	struct K { std::vector<int> used; SR R; int nt, rc, bd; };
	std::vector<K> ks = { {{1, 0, 0, 0, 0, 1, 1}, {{{{0, 1}}, {{1, 1}}}}, 2, 1, 1}, {{0, 0, 0, 1, 0, 0, 1, 1, 0, 0, 0}, {{{{0, 1}}, {{0, 2}, {1, 1}}}}, 8, 2, 1}, {{1, 1, 0, 0, 0, 0, 0, 0, 1, 0, 1}, {{{{0, 1}}, {{0, 3}}, {{1, 1}, {2, 1}}}}, 12, 2, 1} };
	for(size_t i = 0; i < ks.size(); ++i) for(int sd : scheds(th)) { K j = ks[i]; Config c = base; c.time_cap = th ? 300 : 6; c.sched_default = sd; c.max_bound = th ? 2 : j.bd; add("C09/table1/" + S(i) + "/d" + S(sd), c, [=] { join1(j.used, j.R, j.nt, j.rc); }); }
#endif
}
void mc::register_scenarios(const std::string& tier) { for(int t = 1; t <= 6; ++t) ref::dtable(ref::R_TABLE[t]); ref::dtable(ref::R_C3); reg(tier == "thorough"); }
