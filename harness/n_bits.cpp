// C17: bit strings against a plain vector<bool> reference. Every operation moves bits, so single-bit contents (plus all-zero,
// all-one and a mixed pattern) at every length/offset determine it.
#include "native.h"
#include <chia/bits.hpp>
using namespace nat;
typedef std::string BS;   // '0'/'1' characters
static BS of(unsigned __int128 v, int n) { BS s(n, '0'); for(int i = 0; i < n; ++i) s[n - 1 - i] = '0' + (int)((v >> i) & 1); return s; }
static uint64_t val(const BS& s) { uint64_t v = 0; for(char c : s) v = v * 2 + (c == '1'); return v; }
static std::vector<uint8_t> bytes(const BS& s) { std::vector<uint8_t> b((s.size() + 7) / 8, 0); for(size_t i = 0; i < s.size(); ++i) if(s[i] == '1') b[i / 8] |= 0x80 >> (i % 8); return b; }
static BS pattern(int kind, int n) {   // 0 zeros, 1 ones, 2 mixed, 3 + i: single bit i, 3 + n + i: single zero at i
	BS s(n, kind == 1 || kind >= 3 + n ? '1' : '0');
	if(kind == 2) { uint32_t x = 99; for(auto& c : s) { x = x * 1664525 + 1013904223; c = '0' + (x >> 31); } }
	else if(kind >= 3 + n) s[kind - 3 - n] = '0'; else if(kind >= 3) s[kind - 3] = '1';
	return s;
}
template<class B> static void same(const B& b, const BS& w, const char* what) {
	N_CHECK(b.GetSize() == w.size(), "%s: size %u, expected %zu", what, b.GetSize(), w.size());
	N_CHECK(b.ToString() == w, "%s: is %s, expected %s", what, b.ToString().c_str(), w.c_str());
	uint8_t buf[2200]; const int fill = w.size() % 2 ? 0xFF : 0x5A; memset(buf, fill, sizeof buf);
	b.ToBytes(buf + 16); auto e = bytes(w);
	N_CHECK(memcmp(buf + 16, e.data(), e.size()) == 0, "%s: ToBytes() of %s is wrong", what, w.c_str());
	for(size_t i = 0; i < sizeof buf; ++i) if(i < 16 || i >= 16 + e.size()) N_CHECK(buf[i] == fill, "%s: ToBytes() of %zu bits touched byte %d", what, w.size(), (int)i - 16);
	if(w.size() && w.size() <= 64) N_CHECK(b.GetValue() == val(w), "%s: GetValue() of %s", what, w.c_str());
	ev();
}
template<class B> static B make(const BS& w) { B b; for(size_t i = 0; i < w.size(); i += 13) { int n = std::min<size_t>(13, w.size() - i); b.AppendValue(val(w.substr(i, n)), n); } return b; }

template<class B> static void construct(int maxn) {
	for(int n = 0; n <= maxn; ++n) for(int k = 0; k < 3 + 2 * n; ++k) {
		BS w = pattern(k, n);
		if(n <= 128) { unsigned __int128 v = 0; for(char c : w) v = v * 2 + (c == '1'); same(B(v, n), w, "Bits(value,size)"); }
		if(n % 8 == 0 && n) { auto by = bytes(w); for(int z = 0; z <= 130; z += (z < 20 ? 1 : 37)) { BS x = BS(z, '0') + w; same(B(by.data(), by.size(), x.size()), x, "Bits(bytes)"); } }
		B b = make<B>(w); same(b, w, "append of 13-bit pieces");
		B c(b); same(c, w, "copy"); B d = make<B>(BS("10101")); d = b; same(d, w, "assignment");
		for(int z : {0, 1, 5, 63, 64, 65, 128}) same(B(b, n + z), BS(z, '0') + w, "Bits(other,size)");
	}
}
template<class B> static void append(const std::vector<int>& lens, int depth, int content) {
	std::function<void(const B&, const BS&, int)> rec = [&](const B& b, const BS& w, int d) {
		if(d == depth) return;
		for(int n : lens) { int nk = std::min(content, 3 + 2 * n); for(int kk = 0; kk < nk; ++kk) { int k = kk < 3 ? kk : (kk == 3 ? 3 : kk == 4 ? 3 + n - 1 : 3 + n); if(n == 0 && kk) continue;
			BS a = pattern(k, n); B c = b; unsigned __int128 v = 0; for(char ch : a) v = v * 2 + (ch == '1'); c.AppendValue(v, n); same(c, w + a, "AppendValue"); rec(c, w + a, d + 1); } }
	};
	rec(B(), BS(), 0);
}
template<class B> static void concat(int maxn, int step) {
	for(int n = 0; n <= maxn; n += 1) for(int m = 0; m <= maxn; m += step) for(int k = 0; k < 3; ++k) {
		BS w = pattern(2 - k, n), x = pattern(k == 2 ? 1 : 2, m); B a = make<B>(w), b = make<B>(x);
		same(a + b, w + x, "operator+"); B c = a; c += b; same(c, w + x, "operator+="); same(a, w, "left operand changed"); same(b, x, "right operand changed");
		N_CHECK((a == b) == (w == x), "operator=="); if(n == m) { N_CHECK((a < b) == (w < x), "operator<"); N_CHECK((a > b) == (w > x), "operator>"); }
		ParkBits p; p += a; same(p, w, "ParkBits += Bits"); p += make<Bits>(x.substr(0, std::min(m, 200))); same(p, w + x.substr(0, std::min(m, 200)), "ParkBits += Bits");
	}
}
template<class B> static void slice(int maxn) {
	for(int n = 0; n <= maxn; ++n) for(int k : {1, 2, 3, 3 + n / 2, 3 + n - 1}) {
		if(k >= 3 + n && k > 2) continue;
		BS w = pattern(k, n); B b = make<B>(w);
		for(int s = 0; s <= n; ++s) { for(int e = s; e <= n; ++e) {
			same(b.Slice(s, e), w.substr(s, e - s), "Slice");
			if(e > s && e - s <= 63 && (e / 64 == s / 64 || e / 64 == s / 64 + 1) && !(e / 64 != s / 64 && false)) N_CHECK(b.SliceBitsToInt(s, e) == val(w.substr(s, e - s)), "SliceBitsToInt(%d,%d) of %s is %llx", s, e, w.c_str(), (unsigned long long)b.SliceBitsToInt(s, e));
		} same(b.Slice(s), w.substr(s), "Slice(start)"); same(b.Slice(s, n + 9), w.substr(s), "Slice beyond the end"); }
	}
}
static std::vector<uint8_t> rawbits(const uint64_t* p, int words) { std::vector<uint8_t> b(words * 8); memcpy(b.data(), p, b.size()); return b; }
static BS str(const uint64_t* p, int words) { auto b = rawbits(p, words); BS s; for(auto x : b) for(int i = 7; i >= 0; --i) s += '0' + ((x >> i) & 1); return s; }
static void setstr(uint64_t* p, int words, const BS& s) { auto b = bytes(s); b.resize(words * 8); memcpy(p, b.data(), b.size()); }
void register_native(const std::string& tier) {
	bool th = tier == "thorough";
	add("C17/construct/small", [=] { construct<Bits>(th ? 320 : 200); });
	add("C17/construct/park", [=] { construct<ParkBits>(th ? 320 : 150); });
	add("C17/construct/large", [=] { construct<LargeBits>(th ? 320 : 150); });
	add("C17/append/2", [=] { std::vector<int> l; for(int i = 0; i <= 64; ++i) l.push_back(i); append<Bits>(l, 2, 6); note("all pairs of append lengths 0..64"); });
	add("C17/append/3", [=] { std::vector<int> l; for(int i = 0; i <= 64; i += (th ? 1 : 3)) l.push_back(i); l.push_back(64); l.push_back(1); append<ParkBits>(l, 3, th ? 3 : 2); });
	add("C17/append/4", [=] { append<Bits>({0, 1, 2, 7, 8, 9, 31, 32, 33, 63, 64}, 4, th ? 6 : 3); });
	add("C17/append/6", [=] { append<Bits>({0, 1, 32, 63, 64}, th ? 7 : 6, 2); });
	add("C17/append/wide", [=] { append<Bits>({1, 63, 64, 65, 80, 100, 127, 128}, 3, 6); note("appends of up to 128 bits"); });
	add("C17/append/long", [=] { for(int len : {1, 3, 7, 13, 29, 30, 31, 32, 33, 34, 35, 63, 64}) { ParkBits b; BS w; int n = 0; for(int i = 0; w.size() + len <= 2048 * 64 && i < 2048; ++i) { BS a = pattern(2, 64).substr(i % (65 - len), len); b.AppendValue(val(a), len); w += a; n++; } auto e = bytes(w); std::vector<uint8_t> buf(e.size() + 64, 0xCC); b.ToBytes(buf.data() + 32); N_CHECK(b.GetSize() == w.size() && memcmp(buf.data() + 32, e.data(), e.size()) == 0, "%d appends of %d bits", n, len); for(int i = 0; i < 32; ++i) N_CHECK(buf[i] == 0xCC && buf[32 + e.size() + i] == 0xCC, "ToBytes writes outside"); ev(n); } });
	add("C17/concat/park", [=] { for(int words : {1, 2, 100, 255, 256, 257, 258, 300, 511, 512, 513, 900}) for(int rem : {0, 1, 33, 63}) for(int pre : {0, 7, 64, 70}) { BS x = pattern(2, words * 64 + rem), w = pattern(2, pre); ParkBits a = make<ParkBits>(w), b = make<ParkBits>(x); a += b; w += x; auto e = bytes(w); std::vector<uint8_t> buf(e.size() + 64, 0xCC); a.ToBytes(buf.data() + 32); N_CHECK(a.GetSize() == w.size() && memcmp(buf.data() + 32, e.data(), e.size()) == 0, "%d bits += %zu bits", pre, x.size()); ev(); } });
	add("C17/concat/small", [=] { concat<Bits>(th ? 200 : 140, th ? 1 : 3); });
	add("C17/concat/large", [=] { concat<LargeBits>(th ? 200 : 130, th ? 1 : 7); });
	add("C17/slice/small", [=] { slice<Bits>(th ? 200 : 131); });
	add("C17/slice/large", [=] { slice<LargeBits>(th ? 200 : 130); });
	add("C17/write_bits", [=] {
		for(int off = 0; off < 192; ++off) for(int n = 1; n <= 64; ++n) for(int k = 0; k < (th ? 3 + 2 * n : 3 + n); ++k) for(int bg = 0; bg < 2; ++bg) {
			BS v = pattern(k, n), w(320, '0' + bg); for(int i = 0; i < n; ++i) w[off + i] = '0';
			uint64_t d[5]; setstr(d, 5, w); int r = write_bits(d, val(v), off, n);
			w.replace(off, n, v); N_CHECK(r == off + n, "write_bits returned %d for offset %d size %d", r, off, n); N_CHECK(str(d, 5) == w, "write_bits(value %s, offset %d, %d bits) wrote the wrong bits", v.c_str(), off, n); ev();
		} });
	add("C17/append_bits", [=] {
		for(int off = 0; off < 130; ++off) for(int n = 0; n <= 256; ++n) for(int k : {1, 2, 3, 3 + n / 2, 3 + n - 1}) for(int bg = 0; bg < 2; ++bg) {
			if(k > 2 && (n == 0 || k >= 3 + n)) continue; if(!th && off > 20 && off % 7 && off % 64 > 1 && off % 64 < 62) continue;
			BS v = pattern(k, n), s = v + BS(320 - n, '1'), w(512, '0' + bg); for(int i = 0; i < n; ++i) w[off + i] = '0';
			uint64_t src[5], d[8]; setstr(src, 5, s); setstr(d, 8, w); int r = append_bits(d, src, off, n);
			w.replace(off, n, v); N_CHECK(r == off + n, "append_bits returned %d", r); N_CHECK(str(d, 8) == w, "append_bits(offset %d, %d bits) of %s wrote the wrong bits", off, n, v.c_str()); N_CHECK(str(src, 5) == s, "append_bits changed its source"); ev();
		} });
	add("C17/slice_bits", [=] {
		for(int off = 0; off < 200; ++off) for(int n = 0; n <= 250; ++n) for(int k : {1, 2, 3, 3 + n / 2, 3 + n - 1}) {
			if(k > 2 && (n == 0 || k >= 3 + n)) continue; if(!th && off > 70 && off % 5) continue;
			BS v = pattern(k, n), s(512, '1'); s.replace(off, n, v); uint64_t src[8], d[5] = {}; setstr(src, 8, s);
			int r = slice_bits(d, src, off, n); BS w = v + BS(320 - n, '0');
			N_CHECK(r == n, "slice_bits returned %d for %d bits", r, n); N_CHECK(str(d, 5) == w, "slice_bits(offset %d, %d bits): wrong bits", off, n); ev();
		} });
	add("C17/slice_int", [=] {
		uint8_t* page = (uint8_t*)mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		for(int off = 0; off < 520; ++off) for(int n = 1; n <= 128; ++n) for(int k = 0; k < 4; ++k) {
			BS v = pattern(k == 3 ? 3 + n - 1 : k, n), s(1024, k & 1 ? '0' : '1'); s.replace(off, n, v); auto b = bytes(s);
			if(n <= 64 && (off % 8 + n <= 64 || off + n <= 64)) N_CHECK(Util::SliceInt64FromBytes(b.data(), off, n) == val(v), "SliceInt64FromBytes(offset %d, %d bits) of %s", off, n, v.c_str());
			if(n <= 64) N_CHECK(Util::SliceInt64FromBytesFull(b.data(), off, n) == val(v), "SliceInt64FromBytesFull(offset %d, %d bits) of %s", off, n, v.c_str());
			unsigned __int128 e = 0; for(char c : v) e = e * 2 + (c == '1'); N_CHECK(Util::SliceInt128FromBytes(b.data(), off, n) == e, "SliceInt128FromBytes(offset %d, %d bits)", off, n); ev();
		} });
	add("C17/ints", [=] {
		for(int k = 0; k < 3 + 256; ++k) { if(k < 3 + 32) { BS s = pattern(k, 16); uint8_t b[4] = {9, 9, 9, 9}; Util::IntToTwoBytes(b + 1, val(s)); N_CHECK(b[0] == 9 && b[3] == 9 && !memcmp(b + 1, bytes(s).data(), 2) && Util::TwoBytesToInt(b + 1) == val(s), "IntToTwoBytes"); uint8_t l[4] = {9, 9, 9, 9}; Util::IntToTwoBytesLE(l + 1, val(s)); N_CHECK(l[0] == 9 && l[3] == 9 && l[1] == b[2] && l[2] == b[1], "IntToTwoBytesLE"); }
			if(k < 3 + 128) { BS s = pattern(k, 64); uint8_t b[10] = {9}; b[9] = 9; Util::IntToEightBytes(b + 1, val(s)); N_CHECK(b[0] == 9 && b[9] == 9 && !memcmp(b + 1, bytes(s).data(), 8) && Util::EightBytesToInt(b + 1) == val(s), "IntToEightBytes"); int pc = 0; for(char c : s) pc += c == '1'; N_CHECK((int)Util::PopCount(val(s)) == pc, "PopCount"); }
			BS s = pattern(k, 128); unsigned __int128 v = 0; for(char c : s) v = v * 2 + (c == '1'); uint8_t b[18] = {9}; b[17] = 9; Util::IntTo16Bytes(b + 1, v); N_CHECK(b[0] == 9 && b[17] == 9 && !memcmp(b + 1, bytes(s).data(), 16), "IntTo16Bytes"); size_t nb = s.find('1') == BS::npos ? 0 : 128 - s.find('1'); N_CHECK(Util::GetSizeBits(v) == nb, "GetSizeBits"); ev(); }
		for(uint32_t i = 0; i < 100000; ++i) N_CHECK(Util::ByteAlign(i) % 8 == 0 && Util::ByteAlign(i) >= i && Util::ByteAlign(i) < i + 8, "ByteAlign(%u)", i);
		for(uint32_t i = 0; i < 65536; ++i) { uint8_t b[2]; Util::IntToTwoBytes(b, i); N_CHECK(b[0] == i >> 8 && b[1] == (i & 255) && Util::TwoBytesToInt(b) == i, "TwoBytes %u", i); ev(); }
	});
}
