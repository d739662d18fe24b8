// C07: F1, Fx and the matching relation of the real code against the independent reference.
#include "native.h"
#include <stdexcept>
#include <chia/phase1.hpp>
#include "../ref/ref.h"
#include <set>
using namespace nat;
typedef unsigned long long ull;
using namespace phase1;
#ifdef CHIA_K34
#define KT "k34"
static const int K_TOP = 34;
#else
#define KT "k32"
static const int K_TOP = 32;
#endif
static std::vector<std::array<uint8_t, 32>> ids(bool th) {
	std::vector<std::array<uint8_t, 32>> v; std::array<uint8_t, 32> a; a.fill(0); v.push_back(a); a.fill(0xFF); v.push_back(a); for(int i = 0; i < 32; ++i) a[i] = i * 37 + 11; v.push_back(a);
	for(int i = 0; i < 32; i += th ? 1 : 5) { a.fill(0); a[i] = 0x80 >> (i % 8); v.push_back(a); } return v;
}
// k-bit values at bit offset x*k of the keystream: slice a precomputed keystream
static void f1_range(int k, const std::array<uint8_t, 32>& id, uint64_t x0, uint64_t n, int step) {
	F1Calculator F(k, id.data()); uint8_t key[32]; key[0] = 1; memcpy(key + 1, id.data(), 31);
	std::vector<entry_1> e(64); uint64_t cb = ~0ull; std::vector<uint8_t> ks;
	auto bit = [&](ref::u128 p) { uint64_t b = (uint64_t)(p / 512); if(b != cb) { if(ks.empty()) ks.resize(64); ref::chacha8_block(key, b, ks.data()); cb = b; } int o = (int)(p % 512); return ks[o / 8] >> (7 - o % 8) & 1; };
	for(uint64_t x = x0; x < x0 + n; x += step) {
		at("k=%d first x=%llu count=%d", k, (ull)x, step); F.compute_block(x, step, e.data());
		for(int i = 0; i < step; ++i) { uint64_t y = 0; for(int b = 0; b < k; ++b) y = y * 2 + bit((ref::u128)(x + i) * k + b); y = y << 6 | (x + i) >> (k - 6); ev();
			N_CHECK(e[i].x == x + i && e[i].y == y, "k=%d x=%llu: f1 gives (%llu, x %llu), the definition %llu", k, (ull)(x + i), (ull)e[i].y, (ull)e[i].x, (ull)y); }
	}
}
template<typename T> struct Nmeta { static const int n = sizeof(((T*)0)->meta); };
template<typename T> static void put(T& e, const ref::Bit& m, uint64_t, int fill) { e.meta.fill(fill); auto p = m.pack(); memcpy(e.meta.data(), p.data(), std::min(p.size(), e.meta.size())); }
static void put(entry_1& e, const ref::Bit&, uint64_t x, int) { e.x = x; }
template<typename S> static void chk(const S& e, const ref::Bit& m, int k, int t, const char* what) { auto p = m.pack(); if(t == 7) return; N_CHECK(e.meta.size() >= p.size(), "k=%d table %d: metadata does not fit", k, t); N_CHECK(!memcmp(e.meta.data(), p.data(), p.size()), "k=%d table %d (%s): metadata differs from the definition", k, t, what); }
static void chk(const entry_7&, const ref::Bit&, int, int, const char*) {}
template<typename T, typename S> static void fx_one(int k, int t, uint64_t yl, uint64_t yr, const ref::Bit& ml, const ref::Bit& mr, uint64_t xl, uint64_t xr, int fill, const char* what) {
	T L, R; S out; memset((void*)&L, fill, sizeof L); memset((void*)&R, fill, sizeof R); memset((void*)&out, fill, sizeof out); L.y = yl; R.y = yr; put(L, ml, xl, fill); put(R, mr, xr, fill);
	at("k=%d table %d %s", k, t, what); FxCalculator<T, S> F(k, t); F.evaluate(L, R, out); ev();
	uint64_t y; ref::Bit m; ref::fx(k, t, yl, ml, mr, y, m);
	N_CHECK((uint64_t)out.y == y, "k=%d table %d (%s): f gives %llu, the definition %llu", k, t, what, (ull)out.y, (ull)y);
	chk(out, m, k, t, what);
}
template<typename T, typename S> static void fx_all(int t, bool th) {
	for(int k = t == 2 ? 8 : 10; k <= K_TOP; ++k) {
		const int nm = ref::meta_mult(t - 1) * k; const uint64_t ym = ((uint64_t)1 << (k + 6)) - 1;
		auto bits = [&](int pat, int one) { ref::Bit b; for(int i = 0; i < nm; ++i) b.b.push_back(pat == 0 ? 0 : pat == 1 ? 1 : pat == 2 ? (i * 7 + i / 3) % 5 < 2 : 0); if(one >= 0) b.b[one] ^= 1; return b; };
		auto xv = [&](const ref::Bit& b) { return t == 2 ? (uint64_t)b.get(0, k) : 0; };
		auto go = [&](uint64_t y, const ref::Bit& a, const ref::Bit& b, const char* w) { for(int fill : {0, 0xFF}) { if(fill && t == 2) continue; if(fill && nm % 8 && false) continue; 
			// unused trailing metadata bytes may hold anything, unused bits of the last used byte are zero
			fx_one<T, S>(k, t, y, y, a, b, xv(a), xv(b), fill, w); } };
		for(int p = 0; p < 3; ++p) for(int q = 0; q < 3; ++q) for(uint64_t y : {(uint64_t)0, ym, (uint64_t)0x123456789ABCDEFull & ym}) go(y, bits(p, -1), bits(q, -1), "pattern");
		for(int i = 0; i < nm; ++i) for(int p = 0; p < (th ? 3 : 1); ++p) { go(5, bits(p, i), bits(2, -1), "left bit"); go(5, bits(2, -1), bits(p, i), "right bit"); }
		for(int i = 0; i < k + 6; ++i) go((uint64_t)1 << i, bits(2, -1), bits(1, -1), "y bit");
	}
	note("all k up to %d; every single metadata bit of either side, every y bit, patterns, trailing bytes 0 and 0xFF", K_TOP);
}
void register_native(const std::string& tier) {
	bool th = tier == "thorough";
	for(int k = 8; k <= K_TOP; ++k) add("C07/f1/" KT "/k" + std::to_string(k), [=] { auto v = ids(th);
		for(size_t j = 0; j < v.size(); ++j) { uint64_t top = (uint64_t)1 << k; if(k <= 12) { f1_range(k, v[j], 0, top, 16); continue; }
			f1_range(k, v[j], 0, 2048, 16); f1_range(k, v[j], top - 2048, 2048, 16); f1_range(k, v[j], top / 2 - 1024, 2048, 16); for(int b = 12; b < k; ++b) f1_range(k, v[j], ((uint64_t)1 << b) - 512, 1024, 16); }
		note("%zu ids; all x for k<=12, otherwise every keystream alignment around every power of two", v.size()); });
	add("C07/fx/" KT "/t2", [=] { fx_all<entry_1, entry_2>(2, th); }); add("C07/fx/" KT "/t3", [=] { fx_all<entry_2, entry_3>(3, th); }); add("C07/fx/" KT "/t4", [=] { fx_all<entry_3, entry_4>(4, th); });
	add("C07/fx/" KT "/t5", [=] { fx_all<entry_4, entry_5>(5, th); }); add("C07/fx/" KT "/t6", [=] { fx_all<entry_5, entry_6>(6, th); }); add("C07/fx/" KT "/t7", [=] { fx_all<entry_6, entry_7>(7, th); });
	// the matching relation, completely: every left residue against a bucket holding every right residue
	for(int part = 0; part < 8; ++part) add("C07/match/" KT "/" + std::to_string(part), [=] {
		initialize(); std::vector<entry_1> L(1), R(ref::BC_); std::vector<match_t<entry_1>> out; FxMatcher<entry_1> M;
		std::vector<uint64_t> groups = {0, 1}; if(part == 0) groups = {0, 1, 2, 1000003, 4503599, 17000000};
		for(uint64_t g : groups) {
			for(int i = 0; i < ref::BC_; ++i) { R[i].y = (g + 1) * ref::BC_ + i; R[i].x = i; }
			for(int r = part; r < ref::BC_; r += 8 * (g > 1 ? 40 : 1)) {
				L[0].y = g * ref::BC_ + r; L[0].x = 7; out.clear(); at("group %llu left residue %d", (ull)g, r);
				M.find_matches(1000, L, R, out); std::vector<char> got(ref::BC_, 0); ev();
				for(auto& m : out) { N_CHECK(m.left.y == L[0].y && m.left.x == 7 && m.right.y == R[m.right.x].y && m.pos == 1000 && m.off == m.right.x + 1, "match of left residue %d: wrong entries or position", r); N_CHECK(!got[m.right.x]++, "match reported twice"); }
				int bl = r / 127, cl = r % 127, par = g % 2, n = 0; std::vector<char> want(ref::BC_, 0); for(int m = 0; m < 64; ++m) { int t = (bl + m) % 119 * 127 + ((2 * m + par) * (2 * m + par) + cl) % 127; n += !want[t]; want[t] = 1; }
				N_CHECK(got == want, "matches of left residue %d in group %llu differ from the definition (%zu instead of %d)", r, (ull)g, out.size(), n);
				if(r % 97 == part) for(int i = 0; i < ref::BC_; ++i) N_CHECK((bool)want[i] == ref::matches(L[0].y, R[i].y), "reference self-check");
			} }
		note("the complete relation for both parities (all 15113 x 15113 residue pairs)"); });
	add("C07/match-dup/" KT, [=] {   // repeated values on both sides and in-bucket positions
		initialize(); FxMatcher<entry_1> M;
		for(int nl = 0; nl <= 4; ++nl) for(int nr = 0; nr <= 5; ++nr) for(int r : {0, 1, 126, 127, 15000, 15112}) for(int g = 0; g < 2; ++g) for(int st = 0; st < 16; ++st) {
			std::vector<entry_1> L, R; std::vector<uint64_t> ys; for(int m : {0, 1, 2, 63}) ys.push_back((g + 1) * (uint64_t)ref::BC_ + (r / 127 + m) % 119 * 127 + ((2 * m + g) * (2 * m + g) + r % 127) % 127);
			std::sort(ys.begin(), ys.end()); for(int i = 0; i < nl; ++i) { entry_1 e; e.y = g * (uint64_t)ref::BC_ + std::min(r + (i >> (st & 1 ? 1 : 0)) * (st & 2 ? 127 : 1), ref::BC_ - 1); e.x = i; L.push_back(e); }
			for(int i = 0; i < nr; ++i) { entry_1 e; e.y = ys[std::min<int>(3, st & 4 ? i / 2 : i % 4 + (st & 8 ? 0 : i / 4))]; e.x = i; R.push_back(e); } auto lt = [](const entry_1& a, const entry_1& b) { return a.y < b.y; }; std::stable_sort(L.begin(), L.end(), lt); std::stable_sort(R.begin(), R.end(), lt);
			std::vector<match_t<entry_1>> out; M.find_matches(50, L, R, out); ev(); std::multiset<std::pair<int, int>> got, want; 
			for(auto& m : out) { int li = m.pos - 50, ri = m.off - (nl - li); N_CHECK(li >= 0 && li < nl && ri >= 0 && ri < nr && L[li].x == m.left.x && R[ri].x == m.right.x, "match refers to (%d,%d) but carries other entries", li, ri); got.insert({li, ri}); }
			for(int i = 0; i < nl; ++i) for(int j = 0; j < nr; ++j) if(ref::matches(L[i].y, R[j].y)) want.insert({i, j});
			N_CHECK(got == want, "%zu matches found in buckets with repeated values, %zu exist", got.size(), want.size());
		} });
	add("C06/dups/" KT, [=] {   // groups dominated by one repeated value
		initialize(); FxMatcher<entry_1> M;
		for(int nr : {1, 255, 256, 257, 511, 512, 600, 1000}) for(int nl : {1, 2, 7}) for(int pre : {0, 1, 300}) for(int g = 0; g < 2; ++g) { if(nr + pre + nl > 1020) continue;
			std::vector<entry_1> L, R; const uint64_t y0 = (uint64_t)(g + 1) * ref::BC_; for(int i = 0; i < nl; ++i) { entry_1 e; e.y = (uint64_t)g * ref::BC_ + 100; e.x = i; L.push_back(e); }
			for(int i = 0; i < pre; ++i) { entry_1 e; e.y = y0 + i / 100; e.x = i; R.push_back(e); } for(int i = 0; i < nr; ++i) { entry_1 e; e.y = y0 + 127 + (100 + (2 + g) * (2 + g)) % 127; e.x = pre + i; R.push_back(e); } entry_1 z; z.y = y0 + 15000; z.x = 9999; R.push_back(z);
			std::vector<match_t<entry_1>> out; M.find_matches(7, L, R, out); ev(); std::multiset<std::pair<uint64_t, uint64_t>> got, want; for(auto& m : out) { got.insert({m.pos, m.off}); uint64_t ri = m.off - (nl - (m.pos - 7)); N_CHECK(ri < R.size() && R[ri].x == m.right.x, "a match of a group with %d equal values carries another entry", nr); }
			for(int i = 0; i < nl; ++i) for(size_t j = 0; j < R.size(); ++j) if(ref::matches(L[i].y, R[j].y)) want.insert({7 + i, j + nl - i});
			N_CHECK(got == want, "%d equal values: %zu matches found, %zu exist", nr, got.size(), want.size()); } });
	add("C06/position-limit/" KT, [=] {   // positions around the largest representable one: dropped exactly when they do not fit
		initialize(); FxMatcher<entry_1> M; const int pmax = K_TOP == 34 ? 35 : 32;
		for(int d = -8; d <= 4; ++d) for(int nl = 1; nl <= 6; ++nl) { std::vector<entry_1> L, R; for(int i = 0; i < nl; ++i) { entry_1 e; e.y = 100; e.x = i; L.push_back(e); } for(int i = 0; i < 2; ++i) { entry_1 e; e.y = (uint64_t)ref::BC_ + 100 + (i ? 127 + 4 : 0); e.x = i; R.push_back(e); }
			uint64_t base = ((uint64_t)1 << pmax) + d; std::vector<match_t<entry_1>> out; M.find_matches(base, L, R, out); ev(); std::multiset<std::pair<uint64_t, int>> got, want; for(auto& m : out) got.insert({m.pos, m.off});
			for(int i = 0; i < nl; ++i) for(int j = 0; j < 2; ++j) if(ref::matches(L[i].y, R[j].y) && base + i < (uint64_t)1 << pmax) want.insert({base + i, nl - i + j});
			N_CHECK(got == want, "left positions from 2^%d%+d: %zu matches kept, %zu are representable", pmax, d, got.size(), want.size()); } });
}
