// C16: every temporary record type: write -> read is the identity, only its own bytes are touched.
#include "native.h"
#include <chia/phase1.h>
#include <chia/phase2.h>
#include <chia/phase3.h>
typedef __uint128_t u128;
using namespace nat;
#ifdef CHIA_K34
enum { YB = 40, XB = 34, PB = 35, Y7B = 34, LPB = 67 };
#define KN "k34"
#else
enum { YB = 38, XB = 32, PB = 32, Y7B = 32, LPB = 63 };
#define KN "k32"
#endif
enum { OB = 10 };
typedef std::vector<u128> V;   // field values
struct Field { const char* name; int bits; };
template<class T> struct Acc { std::vector<Field> f; std::function<void(T&, const V&)> set; std::function<V(const T&)> get; };

template<class T> static void one(const Acc<T>& a, const V& v) {
	for(int fill : {0x00, 0xFF, 0xA5}) {
		const size_t D = T::disk_size;
		uint8_t raw[3 * 64]; memset(raw, fill, sizeof raw);
		uint8_t* buf = raw + 64;
		T e; memset((void*)&e, fill, sizeof e); a.set(e, v);
		size_t n = e.write(buf);
		N_CHECK(n == D, "write() returned %zu, disk_size is %zu", n, D);
		for(int i = 0; i < 3 * 64; ++i) if(i < 64 || i >= 64 + (int)D) N_CHECK(raw[i] == fill, "write() changed the byte at offset %d outside the %zu byte record", i - 64, D);
		uint8_t copy[64]; memcpy(copy, buf, 64);
		T r; memset((void*)&r, ~fill, sizeof r);
		n = r.read(buf);
		N_CHECK(n == D, "read() returned %zu", n);
		N_CHECK(memcmp(copy, buf, 64) == 0, "read() changed the buffer");
		V g = a.get(r);
		for(size_t i = 0; i < v.size(); ++i) N_CHECK(g[i] == v[i], "field %s: wrote %llx%016llx, read back %llx%016llx (record %s)", a.f[i].name, (unsigned long long)(v[i] >> 64), (unsigned long long)v[i], (unsigned long long)(g[i] >> 64), (unsigned long long)g[i], __PRETTY_FUNCTION__);
		// the following record in the buffer must not influence this one
		memset(buf + D, ~fill, 64 - 0); T r2; memset((void*)&r2, fill, sizeof r2); r2.read(buf); V g2 = a.get(r2);
		for(size_t i = 0; i < v.size(); ++i) N_CHECK(g2[i] == v[i], "field %s: value read depends on bytes outside the record", a.f[i].name);
		// neighbours: three records side by side written in any order
		uint8_t tri[3 * 64]; memset(tri, fill, sizeof tri); T z; memset((void*)&z, 0xFF, sizeof z); { V m; for(auto& f : a.f) m.push_back((((u128)1) << f.bits) - 1); a.set(z, m); }
		e.write(tri + D); z.write(tri); z.write(tri + 2 * D); T r3; memset((void*)&r3, 0x11, sizeof r3); r3.read(tri + D); V g3 = a.get(r3);
		for(size_t i = 0; i < v.size(); ++i) N_CHECK(g3[i] == v[i], "field %s: damaged by writing a neighbouring record", a.f[i].name);
	}
	ev();
}
template<class T> static void run(Acc<T> a, bool th) {
	V lo, hi; for(auto& f : a.f) { lo.push_back(0); hi.push_back(((u128)1 << f.bits) - 1); }
	one(a, lo); one(a, hi);
	struct B { int f, b; }; std::vector<B> bits; for(size_t i = 0; i < a.f.size(); ++i) for(int b = 0; b < a.f[i].bits; ++b) bits.push_back({(int)i, b});
	for(size_t i = 0; i < bits.size(); ++i) for(size_t j = i; j < bits.size(); ++j) {   // all records with <= 2 bits set and <= 2 bits clear
		V v = lo, w = hi; v[bits[i].f] |= (u128)1 << bits[i].b; v[bits[j].f] |= (u128)1 << bits[j].b; w[bits[i].f] &= ~((u128)1 << bits[i].b); w[bits[j].f] &= ~((u128)1 << bits[j].b);
		one(a, v); one(a, w);
		if(th) { V x = lo; for(size_t k = i; k <= j; ++k) x[bits[k].f] |= (u128)1 << bits[k].b; one(a, x); V y = hi; for(size_t k = i; k <= j; ++k) y[bits[k].f] &= ~((u128)1 << bits[k].b); one(a, y); }
	}
	// each narrow field exhaustively against boundary values of the others
	for(size_t i = 0; i < a.f.size(); ++i) for(int s = 0; s < 4; ++s) {
		const int sh = a.f[i].bits <= 12 ? 0 : -1; 
		if(sh == 0) for(uint32_t x = 0; x < 1u << a.f[i].bits; ++x) { V v = s & 1 ? hi : lo; if(s & 2) for(size_t k = 0; k < v.size(); ++k) v[k] = ((u128)0x5555555555555555ull << 64 | 0x9999999999999999ull) & hi[k]; v[i] = x; one(a, v); }
		else for(int p = 0; p + 8 <= a.f[i].bits + 7; p += 4) for(int x = 0; x < 256; ++x) { V v = s & 1 ? hi : lo; if(s & 2) for(size_t k = 0; k < v.size(); ++k) v[k] = ((u128)0x5555555555555555ull << 64 | 0x9999999999999999ull) & hi[k]; v[i] = (((u128)x << p) | ((s & 1) ? ~((u128)255 << p) : 0)) & hi[i]; one(a, v); }
	}
	note("all records with at most two bits set or clear, every byte-wide window of every field, every offset value; 3 background fills");
}
template<class T, int N> static Acc<T> xm() {
	Acc<T> a; a.f = {{"y", YB}, {"pos", PB}, {"off", OB}}; 
	static char nm[32][8]; for(int i = 0; i < N; ++i) { snprintf(nm[i], 8, "meta%d", i); a.f.push_back({nm[i], 8}); }
	a.set = [](T& e, const V& v) { e.y = v[0]; e.pos = v[1]; e.off = v[2]; for(int i = 0; i < N; ++i) e.meta[i] = v[3 + i]; };
	a.get = [](const T& e) { V v{e.y, e.pos, e.off}; for(int i = 0; i < N; ++i) v.push_back(e.meta[i]); return v; };
	return a;
}
void register_native(const std::string& tier) {
	bool th = tier == "thorough";
	using namespace phase1;
	add("C16/" KN "/phase1.entry_1", [=] { Acc<entry_1> a; a.f = {{"y", YB}, {"x", XB}}; a.set = [](entry_1& e, const V& v) { e.y = v[0]; e.x = v[1]; }; a.get = [](const entry_1& e) { return V{e.y, e.x}; }; run(a, th); });
#define XM(T) add("C16/" KN "/phase1." #T, [=] { run(xm<T, sizeof(T().meta)>(), th); });
	XM(entry_2) XM(entry_3) XM(entry_4) XM(entry_5) XM(entry_6)
	add("C16/" KN "/phase1.entry_7", [=] { Acc<entry_7> a; a.f = {{"y", Y7B}, {"pos", PB}, {"off", OB}}; a.set = [](entry_7& e, const V& v) { e.y = v[0]; e.pos = v[1]; e.off = v[2]; }; a.get = [](const entry_7& e) { return V{e.y, e.pos, e.off}; }; run(a, th);
		for(int i = 0; i < 3; ++i) { entry_7 s; s.y = i * 77; s.pos = i * 1234567; s.off = i * 300; entry_7 t; t.assign(s); N_CHECK(t.y == s.y && t.pos == s.pos && t.off == s.off, "assign"); } });
	add("C16/" KN "/phase1.tmp_entry_1", [=] { Acc<tmp_entry_1> a; a.f = {{"x", XB}}; a.set = [](tmp_entry_1& e, const V& v) { e.x = v[0]; }; a.get = [](const tmp_entry_1& e) { return V{e.x}; }; run(a, th);
		for(int b = 0; b < XB; ++b) { entry_1 s; s.y = 5; s.x = (uint64_t)1 << b; tmp_entry_1 t; t.assign(s); N_CHECK(t.x == s.x, "tmp_entry_1::assign loses bit %d", b); } });
	add("C16/" KN "/phase1.tmp_entry_x", [=] { Acc<tmp_entry_x> a; a.f = {{"pos", PB}, {"off", OB}}; a.set = [](tmp_entry_x& e, const V& v) { e.pos = v[0]; e.off = v[1]; }; a.get = [](const tmp_entry_x& e) { return V{e.pos, e.off}; }; run(a, th);
		for(int b = 0; b < PB; ++b) for(int o = 0; o < 1024; ++o) { entry_4 s; s.y = 5; s.pos = (uint64_t)1 << b; s.off = o; tmp_entry_x t; t.assign(s); N_CHECK(t.pos == s.pos && t.off == s.off, "tmp_entry_x::assign"); phase2::entry_x p; p.assign(t); N_CHECK(p.pos == s.pos && p.off == s.off, "phase2::entry_x::assign"); } });
	add("C16/" KN "/phase2.entry_x", [=] { typedef phase2::entry_x T; Acc<T> a; a.f = {{"key", PB}, {"pos", PB}, {"off", OB}}; a.set = [](T& e, const V& v) { e.key = v[0]; e.pos = v[1]; e.off = v[2]; }; a.get = [](const T& e) { return V{e.key, e.pos, e.off}; }; run(a, th); });
	add("C16/" KN "/phase3.entry_lp", [=] { typedef phase3::entry_lp T; Acc<T> a; a.f = {{"point", LPB}, {"key", PB}}; a.set = [](T& e, const V& v) { e.point = v[0]; e.key = v[1]; }; a.get = [](const T& e) { return V{e.point, e.key}; }; run(a, th); });
	add("C16/" KN "/phase3.entry_np", [=] { typedef phase3::entry_np T; Acc<T> a; a.f = {{"key", PB}, {"pos", PB}}; a.set = [](T& e, const V& v) { e.key = v[0]; e.pos = v[1]; }; a.get = [](const T& e) { return V{e.key, e.pos}; }; run(a, th); });
}
