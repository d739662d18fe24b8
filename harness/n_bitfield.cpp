// C08: bitfield and its rank index, enumerated natively against a sorted list of set positions.
#include "native.h"
#include <stdexcept>
#include <chia/bitfield_index.hpp>
#include <algorithm>
using namespace nat;
typedef unsigned long long ull;
static void all(uint64_t size, const std::vector<uint64_t>& set, uint64_t maxoff) {   // set: sorted
	bitfield b(size); for(auto p : set) b.set(p);
	N_CHECK((uint64_t)b.size() >= size, "bitfield of %llu bits reports %llu", (ull)size, (ull)b.size());
	bitfield_index ix(b);
	for(size_t i = 0; i < set.size(); ++i) {
		N_CHECK(b.get(set[i]), "bit %llu was set but reads as clear", (ull)set[i]);
		if(set[i] + 1 < size && (i + 1 == set.size() || set[i + 1] != set[i] + 1)) N_CHECK(!b.get(set[i] + 1), "bit %llu was never set", (ull)set[i] + 1);
		if(set[i] && (i == 0 || set[i - 1] != set[i] - 1)) N_CHECK(!b.get(set[i] - 1), "bit %llu was never set", (ull)set[i] - 1);
		for(size_t j = i; j < set.size() && set[j] - set[i] <= maxoff; ++j) { at("size %llu pos %llu off %llu", (ull)size, (ull)set[i], (ull)(set[j] - set[i])); auto r = ix.lookup(set[i], set[j] - set[i]); ev();
			N_CHECK(r.first == i && r.second == j - i, "%zu positions set: (%llu,+%llu) is numbered (%llu,+%llu), should be (%zu,+%zu)", set.size(), (ull)set[i], (ull)(set[j] - set[i]), (ull)r.first, (ull)r.second, i, j - i); }
	}
}
void register_native(const std::string& tier) {
	bool th = tier == "thorough";
	add("C08/bitfield/window", [=] {   // every pattern of a window over the interesting boundaries, with several surroundings
		const int W = th ? 12 : 9;
		for(uint64_t at : {0, 60, 124, 956, 1020, 1084, 2044}) for(int bg = 0; bg < 4; ++bg) for(int m = 0; m < 1 << W; ++m) {
			std::vector<uint64_t> s; for(uint64_t i = 0; i < at; ++i) if(bg == 1 || (bg == 2 && i % 5 == 0) || (bg == 3 && i % 64 == 63)) s.push_back(i); for(int i = 0; i < W; ++i) if(m >> i & 1) s.push_back(at + i);
			std::vector<uint64_t> t(s.begin() + (s.size() > 40 ? s.size() - 40 : 0), s.end()); size_t base = s.size() - t.size();
			bitfield b(at + W); for(auto p : s) b.set(p); bitfield_index ix(b);
			for(size_t i = 0; i < t.size(); ++i) for(size_t j = i; j < t.size(); ++j) { auto r = ix.lookup(t[i], t[j] - t[i]); ev(); N_CHECK(r.first == base + i && r.second == j - i, "(%llu,+%llu) is numbered (%llu,+%llu), should be (%zu,+%zu)", (ull)t[i], (ull)(t[j] - t[i]), (ull)r.first, (ull)r.second, base + i, j - i); }
		} });
	add("C08/bitfield/sizes", [=] { for(uint64_t n = 1; n <= 2200; n += n < 200 || (n > 900 && n < 1200) ? 1 : 37) for(int st : {1, 3, 63, 64, 65}) { std::vector<uint64_t> s; for(uint64_t i = 0; i < n; i += st) s.push_back(i); if(s.back() != n - 1) s.push_back(n - 1); if(s.size() > 300) s.erase(s.begin() + 100, s.end() - 100); all(n, s, 1023); } });
	add("C08/bitfield/large", [=] {   // positions up to and beyond 2^32
		const uint64_t n = (1ull << 32) + (1 << 21); std::vector<uint64_t> s;
		for(int e = 10; e <= 32; ++e) for(int d = -70; d <= 70; d += d > -4 && d < 4 ? 1 : 11) s.push_back((1ull << e) + d); for(uint64_t i = 0; i < 2000; ++i) s.push_back((1ull << 32) + 100 + i * 3); for(uint64_t i = 0; i < 1000; ++i) s.push_back((3ull << 30) + i); s.push_back(n - 1);
		std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end()); all(n, s, 1023); });
	add("C08/bitfield/dense", [=] {   // more than 2^32 positions in use: new positions beyond 32 bits
		const uint64_t n = (1ull << 32) + (1 << 16); bitfield b(n); cookie_io_functions_t io = {}; io.read = [](void*, char* d, size_t m) -> ssize_t { memset(d, 0xFF, m); return m; };
		FILE* f = fopencookie(nullptr, "r", io); b.read(f); fclose(f); bitfield_index ix(b);
		for(uint64_t e : {1ull << 10, 1ull << 31, 1ull << 32, (1ull << 32) + 1024, (1ull << 32) + 5000, (ull)n - 3000}) for(uint64_t p = e - 70; p < e + 70; ++p) for(uint64_t o : {0, 1, 63, 64, 255, 256, 1000, 1023}) { auto r = ix.lookup(p, o); ev(); N_CHECK(r.first == p && r.second == o, "every position set: (%llu,+%llu) is numbered (%llu,+%llu)", (ull)p, (ull)o, (ull)r.first, (ull)r.second); } });
	add("C08/bitfield/clear", [=] { bitfield b(200); for(int i = 0; i < 200; ++i) b.set(i); b.clear(); for(int i = 0; i < 200; ++i) { N_CHECK(!b.get(i), "bit %d survives clear", i); ev(); } });
}
