// C10: one park at the edge of its space. Every delta vector over a small alphabet: either the park decodes to exactly what was put in, or the overflow is reported; never a write outside the park.
#include "native.h"
#include "../ref/ref.h"
#include <chia/phase3.hpp>
using namespace nat;
static ref::Fmt FMT = [] { ref::Fmt f; f.epp = MC_EPP; f.delta1 = MC_D1; f.delta = MC_D; return f; }();
static void one(int k, int t, uint64_t first, const std::vector<uint8_t>& d) {
	ev(); std::string nm; for(auto x : d) nm += std::to_string(x) + " ";
	at("k=%d table %d deltas [%s]", k, t, nm.c_str());
	const size_t ps = ref::park_size(k, t, FMT), sl = k - 3; std::vector<ref::u128> pts{first}; ParkBits stubs;
	for(size_t i = 0; i < d.size(); ++i) { uint64_t stub = (0x1234567 * (i + 1)) & ((1ull << sl) - 1); stubs.AppendValue(stub, sl); pts.push_back(pts.back() + ((ref::u128)d[i] << sl) + stub); }
	std::vector<uint8_t> enc(d.size() * 8 + 16); std::vector<unsigned char> dd = d; size_t n = Encoding::ANSEncodeDeltas(dd, ref::R_TABLE[t], enc.data()); if(!n) n = d.size();
	const size_t used = ref::ba(2 * k) + ref::ba((uint64_t)(FMT.epp - 1) * sl) + 2 + n;
	uint8_t* buf = new uint8_t[ps]; memset(buf, 0x5A, ps); bool threw = false;
	try { phase3::WritePark(first, d, stubs, k, t, buf, ps); } catch(const std::exception&) { threw = true; }
	if(used > ps) N_CHECK(threw, "k=%d table %d deltas [%s]: a park of %zu bytes accepted in %zu bytes of space", k, t, nm.c_str(), used, ps);
	else {
		N_CHECK(!threw, "k=%d table %d deltas [%s]: a park of %zu bytes rejected although there is space for %zu", k, t, nm.c_str(), used, ps);
		std::string s((char*)buf, ps); ref::Plot P; P.k = k; P.ptr[t] = 0; P.ptr[t + 1] = ps;
		N_CHECK(ref::decode_table(P, s, FMT, t, pts.size()), "k=%d table %d deltas [%s]: %s", k, t, nm.c_str(), P.err.c_str());
		N_CHECK(P.lp[t] == pts, "k=%d table %d deltas [%s]: decoded line points differ", k, t, nm.c_str());
		for(size_t i = used; i < ps; ++i) N_CHECK(!buf[i], "k=%d table %d deltas [%s]: stray byte behind the deltas", k, t, nm.c_str());
	}
	delete[] buf;
}
void register_native(const std::string& tier) {
	const bool th = tier == "thorough";
	for(int t = 1; t <= 6; ++t) add("C10/tight/t" + std::to_string(t), [=] {
		static const uint8_t A[] = {0, 1, 2, 5, 9, 17, 33, 60, 100, 180, 254};
		for(int k : {20, 32}) for(int n = 0; n < MC_EPP; ++n) { std::vector<int> i(n); for(;;) { std::vector<uint8_t> d; for(int x : i) d.push_back(A[x]); one(k, t, 123456 + n, d); int j = 0; while(j < n && ++i[j] == 11) i[j++] = 0; if(j == n) break; } } });
	(void)th;
}
