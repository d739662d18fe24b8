// C21: the entropy coder, driven through Encoding::ANSEncodeDeltas / ANSDecodeDeltas, against a pristine decoder of the plot format.
#include "native.h"
#include "../ref/ref.h"
#include <chia/encoding.hpp>
using namespace nat;
static const double RS[] = {4.7, 2.75, 2.7, 2.6, 2.45, 1.0};
static std::string show(const std::vector<unsigned char>& d) { std::string s; for(size_t i = 0; i < d.size() && i < 12; ++i) s += std::to_string(d[i]) + " "; if(d.size() > 12) s += ".."; return s; }
static void one(double R, const std::vector<unsigned char>& d) {
	static std::vector<uint8_t> buf(8 * 10000 + 64);
	const size_t cap = d.size() * 8, front = 16;
	memset(buf.data(), 0xA7, front); memset(buf.data() + front, 0x11, cap); memset(buf.data() + front + cap, 0xA7, 32);
	at("R=%.2f n=%zu [%s]", R, d.size(), show(d).c_str()); ev();
	std::vector<unsigned char> in = d;
	size_t n = Encoding::ANSEncodeDeltas(in, R, buf.data() + front);
	for(size_t i = 0; i < front; ++i) N_CHECK(buf[i] == 0xA7, "R=%.2f n=%zu [%s]: byte before the output changed", R, d.size(), show(d).c_str());
	for(size_t i = 0; i < 32; ++i) N_CHECK(buf[front + cap + i] == 0xA7, "R=%.2f n=%zu [%s]: byte %zu past the reserved space changed", R, d.size(), show(d).c_str(), i);
	if(d.size() <= 2) { N_CHECK(n == 0, "R=%.2f n=%zu: an encoding of %zu bytes was produced for too short an input", R, d.size(), n); return; }
	N_CHECK(n > 0 && n <= cap, "R=%.2f n=%zu [%s]: encoder returned %zu (0x%zx)", R, d.size(), show(d).c_str(), n, n);
	ref::bytes o; N_CHECK(ref::fse_decode(buf.data() + front, n, d.size(), R, o), "R=%.2f n=%zu [%s]: the format's decoder rejects the encoding", R, d.size(), show(d).c_str());
	for(size_t i = 0; i < d.size(); ++i) N_CHECK(o[i] == d[i], "R=%.2f n=%zu [%s]: delta %zu decodes to %d instead of %d", R, d.size(), show(d).c_str(), i, o[i], d[i]);
	std::vector<uint8_t> r = Encoding::ANSDecodeDeltas(buf.data() + front, n, d.size(), R);
	N_CHECK(r.size() == d.size() && !memcmp(r.data(), d.data(), r.size()), "R=%.2f n=%zu [%s]: the plotter's own decoder disagrees", R, d.size(), show(d).c_str());
}
void register_native(const std::string& tier) {
	const bool th = tier == "thorough";
	for(double R : RS) {
		char rn[16]; snprintf(rn, sizeof rn, "R%.2f", R); std::string nm = rn;
		add("C21/model/" + nm, [=] {   // the model must be the format's: same counts
			auto a = Encoding::CreateNormalizedCount(R); auto b = ref::norm_count(R); ev(b.size());
			N_CHECK(a.size() == b.size(), "R=%.2f: alphabet of %zu symbols, format has %zu", R, a.size(), b.size());
			for(size_t i = 0; i < a.size(); ++i) N_CHECK(a[i] == b[i], "R=%.2f: normalised count of symbol %zu is %d, format has %d", R, i, a[i], b[i]);
		});
		add("C21/short/" + nm, [=] {   // all sequences over boundary symbols
			const int N = ref::norm_count(R).size(); std::vector<unsigned char> S; auto c = ref::norm_count(R); int fr = 0; while(fr < N && c[fr] != -1) ++fr;
			for(int s : {0, 1, 2, 3, 7, fr - 1, fr, fr + 1, N / 2, N - 2, N - 1}) if(s >= 0 && s < N && std::find(S.begin(), S.end(), s) == S.end()) S.push_back(s);
			for(int len = 0; len <= (th ? 6 : 5); ++len) { uint64_t tot = 1; for(int i = 0; i < len; ++i) tot *= S.size();
				for(uint64_t x = 0; x < tot; ++x) { std::vector<unsigned char> d; uint64_t y = x; for(int i = 0; i < len; ++i) { d.push_back(S[y % S.size()]); y /= S.size(); } one(R, d); } }
		});
		add("C21/pairs/" + nm, [=] {   // every ordered symbol pair in several surroundings
			const int N = ref::norm_count(R).size();
			for(int a = 0; a < N; ++a) for(int b = 0; b < N; ++b) for(int pat = 0; pat < (th ? 6 : 3); ++pat) {
				std::vector<unsigned char> d; if(pat == 0) d = {(unsigned char)a, (unsigned char)b, 0}; else if(pat == 1) d = {0, (unsigned char)a, (unsigned char)b, 1}; else if(pat == 2) for(int i = 0; i < 9; ++i) d.push_back(i & 1 ? a : b); else for(int i = 0; i < 3 + 7 * pat; ++i) d.push_back(i % pat ? a : b);
				one(R, d);
			}
		});
		add("C21/length/" + nm, [=] {   // every length x patterns
			const int N = ref::norm_count(R).size(); const size_t top = R == 1.0 ? 9999 : 2047;
			for(size_t len = 0; len <= top; ++len) { if(!th && len > 520 && len < top - 40 && len % (R == 1.0 ? 53 : 7)) continue;
				for(int pat = 0; pat < 6; ++pat) { std::vector<unsigned char> d(len); uint32_t s = 12345 + len;
					for(size_t i = 0; i < len; ++i) { s = s * 1664525 + 1013904223; int v = 0; switch(pat) { case 0: v = 0; break; case 1: v = N - 1; break; case 2: v = i % N; break; case 3: v = __builtin_clz(s | 1) / (R > 4 ? 1 : 2); break; case 4: v = i % 3 ? 0 : N - 1; break; case 5: v = (s >> 20) % N; } d[i] = std::min(v, N - 1); }
					one(R, d); } }
		});
	}
	add("C21/alternating-tables", [=] { for(int a = 0; a < 6; ++a) for(int b = 0; b < 6; ++b) for(int c = 0; c < 6; ++c) { one(RS[a], {1, 2, 3, 0}); one(RS[b], {0, 0, 5, 1}); one(RS[c], {2, 1, 1}); } });
}
