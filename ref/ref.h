// Independent reference for the Chia proof-of-space definition and plot format. Uses none of the repository's code or constants.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstddef>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <queue>
#include <functional>
#include <algorithm>
extern "C" {
void* ref_FSE_createDTable(unsigned); size_t ref_FSE_buildDTable(void*, const short*, unsigned, unsigned); size_t ref_FSE_decompress_usingDTable(void*, size_t, const void*, size_t, const void*); unsigned ref_FSE_isError(size_t);
}
namespace ref {
typedef unsigned __int128 u128;
typedef std::vector<uint8_t> bytes;

// ---------------------------------------------------------------- BLAKE3 (single chunk, up to 1024 bytes)
static inline uint32_t ror(uint32_t x, int n) { return x >> n | x << (32 - n); }
inline void blake3(const uint8_t* in, size_t len, uint8_t out[32]) {
	static const uint32_t IV[8] = {0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19};
	static const int PERM[16] = {2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8};
	uint32_t cv[8]; for(int i = 0; i < 8; ++i) cv[i] = IV[i];
	size_t nb = len ? (len + 63) / 64 : 1;
	for(size_t b = 0; b < nb; ++b) {
		uint8_t blk[64] = {}; size_t n = len - b * 64 < 64 ? len - b * 64 : 64; if(n) memcpy(blk, in + b * 64, n);
		uint32_t m[16]; for(int i = 0; i < 16; ++i) m[i] = blk[4 * i] | blk[4 * i + 1] << 8 | blk[4 * i + 2] << 16 | (uint32_t)blk[4 * i + 3] << 24;
		uint32_t flags = (b == 0 ? 1 : 0) | (b + 1 == nb ? 2 | 8 : 0);
		uint32_t v[16]; for(int i = 0; i < 8; ++i) v[i] = cv[i]; for(int i = 0; i < 4; ++i) v[8 + i] = IV[i]; v[12] = v[13] = 0; v[14] = n; v[15] = flags;
		auto g = [&](int a, int b, int c, int d, uint32_t x, uint32_t y) { v[a] += v[b] + x; v[d] = ror(v[d] ^ v[a], 16); v[c] += v[d]; v[b] = ror(v[b] ^ v[c], 12); v[a] += v[b] + y; v[d] = ror(v[d] ^ v[a], 8); v[c] += v[d]; v[b] = ror(v[b] ^ v[c], 7); };
		for(int r = 0; r < 7; ++r) {
			g(0, 4, 8, 12, m[0], m[1]); g(1, 5, 9, 13, m[2], m[3]); g(2, 6, 10, 14, m[4], m[5]); g(3, 7, 11, 15, m[6], m[7]);
			g(0, 5, 10, 15, m[8], m[9]); g(1, 6, 11, 12, m[10], m[11]); g(2, 7, 8, 13, m[12], m[13]); g(3, 4, 9, 14, m[14], m[15]);
			uint32_t t[16]; for(int i = 0; i < 16; ++i) t[i] = m[PERM[i]]; memcpy(m, t, sizeof m);
		}
		for(int i = 0; i < 8; ++i) cv[i] = v[i] ^ v[i + 8];
	}
	for(int i = 0; i < 8; ++i) for(int j = 0; j < 4; ++j) out[4 * i + j] = cv[i] >> (8 * j);
}
// ---------------------------------------------------------------- ChaCha8 keystream block (zero IV, 64-bit counter)
inline void chacha8_block(const uint8_t key[32], uint64_t ctr, uint8_t out[64]) {
	uint32_t s[16] = {0x61707865, 0x3320646e, 0x79622d32, 0x6b206574};
	for(int i = 0; i < 8; ++i) s[4 + i] = key[4 * i] | key[4 * i + 1] << 8 | key[4 * i + 2] << 16 | (uint32_t)key[4 * i + 3] << 24;
	s[12] = (uint32_t)ctr; s[13] = ctr >> 32; s[14] = s[15] = 0;
	uint32_t x[16]; memcpy(x, s, sizeof x);
	auto rl = [](uint32_t v, int n) { return v << n | v >> (32 - n); };
	auto q = [&](int a, int b, int c, int d) { x[a] += x[b]; x[d] = rl(x[d] ^ x[a], 16); x[c] += x[d]; x[b] = rl(x[b] ^ x[c], 12); x[a] += x[b]; x[d] = rl(x[d] ^ x[a], 8); x[c] += x[d]; x[b] = rl(x[b] ^ x[c], 7); };
	for(int r = 0; r < 4; ++r) { q(0, 4, 8, 12); q(1, 5, 9, 13); q(2, 6, 10, 14); q(3, 7, 11, 15); q(0, 5, 10, 15); q(1, 6, 11, 12); q(2, 7, 8, 13); q(3, 4, 9, 14); }
	for(int i = 0; i < 16; ++i) { uint32_t v = x[i] + s[i]; for(int j = 0; j < 4; ++j) out[4 * i + j] = v >> (8 * j); }
}
// ---------------------------------------------------------------- bit strings (one byte per bit)
struct Bit { std::vector<uint8_t> b; void put(u128 v, int n) { for(int i = n - 1; i >= 0; --i) b.push_back((v >> i) & 1); } void cat(const Bit& o) { b.insert(b.end(), o.b.begin(), o.b.end()); }
	u128 get(size_t off, int n) const { u128 v = 0; for(int i = 0; i < n; ++i) v = v * 2 + b[off + i]; return v; } Bit sub(size_t off, size_t n) const { Bit r; r.b.assign(b.begin() + off, b.begin() + off + n); return r; }
	bytes pack() const { bytes o((b.size() + 7) / 8, 0); for(size_t i = 0; i < b.size(); ++i) if(b[i]) o[i / 8] |= 0x80 >> (i & 7); return o; }
	static Bit unpack(const uint8_t* p, size_t nbits) { Bit r; r.b.resize(nbits); for(size_t i = 0; i < nbits; ++i) r.b[i] = p[i / 8] >> (7 - i % 8) & 1; return r; } };

// ---------------------------------------------------------------- f functions and matching
enum { EXT = 6, B_ = 119, C_ = 127, BC_ = B_ * C_ };
inline uint64_t f1(int k, const uint8_t id[32], uint64_t x) {
	uint8_t key[32]; key[0] = 1; memcpy(key + 1, id, 31);
	u128 bit0 = (u128)x * k; uint64_t blk = (uint64_t)(bit0 / 512); int off = (int)(bit0 % 512);
	uint8_t ks[128]; chacha8_block(key, blk, ks); chacha8_block(key, blk + 1, ks + 64);
	uint64_t y = 0; for(int i = 0; i < k; ++i) { int p = off + i; y = y * 2 + (ks[p / 8] >> (7 - p % 8) & 1); }
	return y << EXT | (k >= EXT ? x >> (k - EXT) : 0);
}
inline int meta_mult(int table) { static const int M[8] = {0, 1, 2, 4, 4, 3, 2, 0}; return M[table]; }   // metadata of a table-t entry, in units of k bits
// evaluate f_t (t = 2..7) on the pair (l, r) of table t-1 entries
inline void fx(int k, int t, uint64_t yl, const Bit& ml, const Bit& mr, uint64_t& y, Bit& m) {
	Bit in; in.put(yl, k + EXT); in.cat(ml); in.cat(mr);
	bytes p = in.pack(); uint8_t h[32]; blake3(p.data(), p.size(), h);
	Bit hb = Bit::unpack(h, 256);
	y = (uint64_t)hb.get(0, t < 7 ? k + EXT : k);
	if(t < 4) { m = ml; m.cat(mr); } else if(t < 7) m = hb.sub(k + EXT, (size_t)meta_mult(t) * k); else m = Bit();
}
inline bool matches(uint64_t yl, uint64_t yr) {
	if(yl / BC_ + 1 != yr / BC_) return false;
	int bl = yl % BC_ / C_, cl = yl % BC_ % C_, br = yr % BC_ / C_, cr = yr % BC_ % C_, par = (yl / BC_) % 2;
	int m = ((br - bl) % B_ + B_) % B_;
	if(m >= 64) return false;
	int s = (2 * m + par) * (2 * m + par) % C_;
	return ((cr - cl) % C_ + C_) % C_ == s;
}
struct Ent { uint64_t y; Bit m; uint64_t l, r; uint64_t x; };     // l, r: indices into the previous table
typedef std::vector<Ent> Table;
inline Table table1(int k, const uint8_t id[32]) { Table t; for(uint64_t x = 0; x < (1ull << k); ++x) { Ent e; e.x = x; e.l = e.r = 0; e.y = f1(k, id, x); e.m.put(x, k); t.push_back(e); } return t; }
inline Table next(int k, int t, const Table& L) {
	std::map<uint64_t, std::vector<uint64_t>> g; for(uint64_t i = 0; i < L.size(); ++i) g[L[i].y / BC_].push_back(i);
	Table R;
	for(auto& a : g) { auto b = g.find(a.first + 1); if(b == g.end()) continue;
		for(auto i : a.second) for(auto j : b->second) if(matches(L[i].y, L[j].y)) { Ent e; e.x = 0; e.l = i; e.r = j; fx(k, t, L[i].y, L[i].m, L[j].m, e.y, e.m); R.push_back(e); } }
	return R;
}
inline uint64_t mix(uint64_t a, uint64_t b) { uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0xD1B54A32D192ED03ull + (a << 6) + (a >> 2)); x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 29; x *= 0x94D049BB133111EBull; x ^= x >> 32; return x; }
// order-independent hash of the binary tree of x values below an entry
inline uint64_t leaf_hash(uint64_t x) { return mix(0x1EAF, x); }
inline uint64_t node_hash(uint64_t a, uint64_t b) { return a < b ? mix(mix(77, a), b) : mix(mix(77, b), a); }
typedef std::vector<std::pair<uint64_t, uint64_t>> Proofs;   // sorted (f7, tree hash)
struct Forward { std::vector<Table> t; Proofs proofs; };
inline Forward forward(int k, const uint8_t id[32]) {
	Forward F; F.t.resize(8); F.t[1] = table1(k, id); std::vector<uint64_t> h; for(auto& e : F.t[1]) h.push_back(leaf_hash(e.x));
	for(int i = 2; i <= 7; ++i) { F.t[i] = next(k, i, F.t[i - 1]); std::vector<uint64_t> n; for(auto& e : F.t[i]) n.push_back(node_hash(h[e.l], h[e.r])); h.swap(n); }
	for(size_t i = 0; i < F.t[7].size(); ++i) F.proofs.push_back({F.t[7][i].y, h[i]});
	std::sort(F.proofs.begin(), F.proofs.end()); return F;
}
// ---------------------------------------------------------------- entropy coder model
inline std::vector<short> norm_count(double Rv) {
	const double E = 2.718281828459; std::vector<double> pdf; int n = 0; double p = 1 - pow((E - 1) / E, 1.0 / Rv);
	while(p > 1e-50 && n < 255) { pdf.push_back(p); n++; p = (pow(E, 1.0 / Rv) - 1) * pow(E - 1, 1.0 / Rv); p /= pow(E, ((n + 1) / Rv)); }
	std::vector<short> a(n, 1);
	auto cmp = [&](int i, int j) { return pdf[i] * (log2(a[i] + 1) - log2(a[i])) < pdf[j] * (log2(a[j] + 1) - log2(a[j])); };
	std::priority_queue<int, std::vector<int>, decltype(cmp)> q(cmp); for(int i = 0; i < n; ++i) q.push(i);
	for(int left = (1 << 14) - n; left > 0; --left) { int i = q.top(); q.pop(); a[i]++; q.push(i); }
	for(auto& v : a) if(v == 1) v = -1;
	return a;
}
inline const void* dtable(double Rv) { static std::map<double, void*> m; auto& d = m[Rv]; if(!d) { auto c = norm_count(Rv); d = ref_FSE_createDTable(14); ref_FSE_buildDTable(d, c.data(), c.size() - 1, 14); } return d; }
inline bool fse_decode(const uint8_t* in, size_t len, size_t n, double Rv, bytes& out) { out.assign(n, 0); if(!n) return true; size_t r = ref_FSE_decompress_usingDTable(out.data(), n, in, len, dtable(Rv)); return !ref_FSE_isError(r) && r == n; }
static const double R_TABLE[7] = {0, 4.7, 2.75, 2.75, 2.7, 2.6, 2.45}; static const double R_C3 = 1.0;

inline u128 line_point(uint64_t a, uint64_t b) { uint64_t x = a > b ? a : b, y = a > b ? b : a; return (u128)x * (x - 1) / 2 + y; }
inline void from_line_point(u128 p, uint64_t& x, uint64_t& y) { u128 lo = 0, hi = (u128)1 << 63; while(lo < hi) { u128 m = (lo + hi + 1) / 2; if(m * (m - 1) / 2 <= p) lo = m; else hi = m - 1; } x = (uint64_t)lo; y = (uint64_t)(p - lo * (lo - 1) / 2); }

// ---------------------------------------------------------------- plot format
struct Fmt { uint32_t epp = 2048; double delta1 = 5.6, delta = 3.5; uint32_t c1 = 10000, c2 = 10000; double c3bits = 2.4; };   // parks/checkpoints (scaled down in the scaled build)
static inline uint32_t ba(uint64_t bits) { return (bits + 7) / 8; }
struct Plot {
	std::string err; int k = 0; bytes id, memo; std::string desc; uint64_t ptr[11] = {}; size_t header = 0;
	std::vector<u128> lp[7];             // line points of tables 1..6
	std::vector<uint64_t> p7;            // table-6 positions
	std::vector<uint64_t> f7;            // table-7 values
	std::vector<uint64_t> c1, c2;
	bool ok() const { return err.empty(); }
};
inline uint32_t park_size(int k, int t, const Fmt& f) { return ba(2 * k) + ba((uint64_t)(f.epp - 1) * (k - 3)) + ba((uint64_t)((f.epp - 1) * (t == 1 ? f.delta1 : f.delta))); }
inline uint32_t c3_size(int k, const Fmt& f) { return k < 20 ? f.c1 : ba((uint64_t)(f.c3bits * f.c1)); }
static inline uint64_t be(const uint8_t* p, int n) { uint64_t v = 0; for(int i = 0; i < n; ++i) v = v << 8 | p[i]; return v; }
// one park of table t holding n entries
inline bool read_park(const uint8_t* p, int k, int t, size_t n, const Fmt& f, std::vector<u128>& out, std::string& err) {
	Bit b = Bit::unpack(p, 2 * k); u128 v = b.get(0, 2 * k); out.push_back(v);
	const uint8_t* st = p + ba(2 * k); const uint8_t* de = st + ba((uint64_t)(f.epp - 1) * (k - 3));
	uint32_t sz = de[0] | de[1] << 8; bytes d;
	const size_t maxd = park_size(k, t, f) - (de - p) - 2;
	if((sz & 0x7FFF) > maxd) { err = "park delta section larger than its park"; return false; }
	if(sz & 0x8000) { if((sz & 0x7FFF) != n - 1) { err = "raw park with " + std::to_string(sz & 0x7FFF) + " deltas for " + std::to_string(n) + " entries"; return false; } d.assign(de + 2, de + 2 + n - 1); }
	else if(!fse_decode(de + 2, sz, n - 1, R_TABLE[t], d)) { err = "park deltas of table " + std::to_string(t) + " do not decode"; return false; }
	for(size_t i = 0; i + 1 < n; ++i) { size_t off = i * (k - 3); u128 s = 0; for(int j = 0; j < k - 3; ++j, ++off) s = s * 2 + (st[off / 8] >> (7 - off % 8) & 1); v += ((u128)d[i] << (k - 3)) | s; out.push_back(v); }
	return true;
}
// counts: number of entries per table 1..7 (the format itself does not store them; they follow from the tables above)
inline Plot decode(const std::string& s, const Fmt& f, uint64_t n7) {
	Plot P; const uint8_t* p = (const uint8_t*)s.data(); size_t n = s.size(), o = 0;
	auto bad = [&](const std::string& e) { P.err = e; return P; };
	const char* magic = "Proof of Space Plot";
	if(n < 60 || memcmp(p, magic, 19)) return bad("bad magic"); o = 19;
	P.id.assign(p + o, p + o + 32); o += 32; P.k = p[o++];
	size_t dl = be(p + o, 2); o += 2; if(o + dl + 2 > n) return bad("short header"); P.desc.assign((const char*)p + o, dl); o += dl;
	size_t ml = be(p + o, 2); o += 2; if(o + ml + 80 > n) return bad("short header"); P.memo.assign(p + o, p + o + ml); o += ml;
	for(int i = 1; i <= 10; ++i, o += 8) P.ptr[i] = be(p + o, 8);
	P.header = o; const int k = P.k; if(k < 4 || k > 50) return bad("bad k");
	if(P.ptr[1] != o) return bad("table 1 does not start right after the header");
	for(int i = 1; i < 10; ++i) if(P.ptr[i] > P.ptr[i + 1]) return bad("table pointers not increasing (" + std::to_string(i) + ")");
	const int kb = ba(k);
	// P7
	uint64_t np7 = n7 ? (n7 - 1) / f.epp + 1 : 1, p7s = ba((uint64_t)(k + 1) * f.epp);
	uint64_t nc1 = (n7 + f.c1 - 1) / f.c1, nc2 = (nc1 + f.c2 - 1) / f.c2;
	if(P.ptr[8] != P.ptr[7] + np7 * p7s) return bad("C1 pointer wrong");
	if(P.ptr[9] != P.ptr[8] + (nc1 + 1) * kb) return bad("C2 pointer wrong");
	if(P.ptr[10] != P.ptr[9] + (nc2 + 1) * kb) return bad("C3 pointer wrong");
	if(n7 && P.ptr[10] > n) return bad("file ends before the C3 table");
	auto rd = [&](uint64_t off, size_t len) { bytes b(len, 0); for(size_t i = 0; i < len; ++i) if(off + i < n) b[i] = p[off + i]; return b; };
	for(uint64_t i = 0; i < n7; ++i) { if(i % f.epp == 0 && P.ptr[7] + (i / f.epp + 1) * p7s > n) return bad("file ends inside P7"); uint64_t bit = (P.ptr[7] + i / f.epp * p7s) * 8 + (i % f.epp) * (k + 1); uint64_t v = 0; for(int j = 0; j < k + 1; ++j, ++bit) v = v * 2 + (p[bit / 8] >> (7 - bit % 8) & 1); P.p7.push_back(v); }
	for(uint64_t i = 0; i < nc1; ++i) { bytes b = rd(P.ptr[8] + i * kb, kb); Bit t = Bit::unpack(b.data(), k); P.c1.push_back((uint64_t)t.get(0, k)); }
	for(uint64_t i = 0; i < nc2; ++i) { bytes b = rd(P.ptr[9] + i * kb, kb); Bit t = Bit::unpack(b.data(), k); P.c2.push_back((uint64_t)t.get(0, k)); }
	{ bytes z = rd(P.ptr[8] + nc1 * kb, kb); for(auto c : z) if(c) return bad("C1 table not terminated by zero"); z = rd(P.ptr[9] + nc2 * kb, kb); for(auto c : z) if(c) return bad("C2 table not terminated by zero"); }
	uint32_t c3s = c3_size(k, f);
	for(uint64_t i = 0; i < nc1; ++i) {
		uint64_t cnt = std::min<uint64_t>(f.c1, n7 - i * f.c1); uint64_t v = P.c1[i]; P.f7.push_back(v);
		bytes pk = rd(P.ptr[10] + i * c3s, c3s); size_t sz = pk[0] << 8 | pk[1]; bytes d;
		if(sz + 2 > c3s) return bad("C3 park size field too large");
		if(cnt > 1 && !fse_decode(pk.data() + 2, sz, cnt - 1, R_C3, d)) return bad("C3 park " + std::to_string(i) + " with " + std::to_string(cnt - 1) + " deltas does not decode");
		for(uint64_t j = 0; j + 1 < cnt; ++j) { v += d[j]; P.f7.push_back(v); }
	}
	for(uint64_t i = 0; i < nc2; ++i) if(P.c2[i] != P.c1[i * f.c2]) return bad("C2 checkpoint wrong");
	return P;
}
inline bool decode_table(Plot& P, const std::string& s, const Fmt& f, int t, uint64_t cnt) {
	const uint32_t ps = park_size(P.k, t, f); uint64_t np = (cnt + f.epp - 1) / f.epp;
	if(P.ptr[t] + np * ps != P.ptr[t + 1]) { P.err = "table " + std::to_string(t) + " occupies " + std::to_string(P.ptr[t + 1] - P.ptr[t]) + " bytes, " + std::to_string(np) + " parks need " + std::to_string(np * ps); return false; }
	if(P.ptr[t + 1] > s.size()) { P.err = "file ends inside table " + std::to_string(t); return false; }
	for(uint64_t i = 0; i < np; ++i) if(!read_park((const uint8_t*)s.data() + P.ptr[t] + i * ps, P.k, t, std::min<uint64_t>(f.epp, cnt - i * f.epp), f, P.lp[t], P.err)) return false;
	for(size_t i = 1; i < P.lp[t].size(); ++i) if(P.lp[t][i] < P.lp[t][i - 1]) { P.err = "line points not sorted"; return false; }
	return true;
}
// Complete decode: the entry counts of tables 6..1 are the largest references + 1 from above rounded to what the pointers allow.
// n[t] given: exact number of entries of table t (1..7).
inline bool decode_all(Plot& P, const std::string& s, const Fmt& f, const uint64_t n[8]) {
	P = decode(s, f, n[7]); if(!P.ok()) return false;
	for(int t = 6; t >= 1; --t) if(!decode_table(P, s, f, t, n[t])) return false;
	return true;
}
// proofs contained in a decoded plot
inline bool proofs_of(Plot& P, Proofs& out) {
	std::vector<uint64_t> h;
	for(int t = 1; t <= 6; ++t) { std::vector<uint64_t> g; for(auto lp : P.lp[t]) { uint64_t x, y; from_line_point(lp, x, y);
		if(t == 1) g.push_back(node_hash(leaf_hash(x), leaf_hash(y)));
		else { if(x >= h.size()) { P.err = "line point of table " + std::to_string(t) + " refers to entry " + std::to_string(x) + " of " + std::to_string(h.size()); return false; } g.push_back(node_hash(h[x], h[y])); } }
		h.swap(g); }
	out.clear();
	for(size_t i = 0; i < P.p7.size(); ++i) { if(P.p7[i] >= h.size()) { P.err = "P7 entry refers to table-6 entry " + std::to_string(P.p7[i]) + " of " + std::to_string(h.size()); return false; } out.push_back({P.f7[i], h[P.p7[i]]}); }
	std::sort(out.begin(), out.end());
	return true;
}
}
