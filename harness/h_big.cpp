// C05 beyond 4 GB / 2^32 entries (C04 too, thorough): sparse virtual files, default schedule, uninstrumented -O2.
#include "mc.h"
#include <chia/chia.h>
#include <chia/DiskSort.hpp>
#include <chia/DiskTable.h>
#include <cstring>
#include <algorithm>
using namespace mc;
typedef unsigned long long ull;
static std::string S(int v) { return std::to_string(v); }

struct Wide {    // 1 MB on disk, so a few thousand entries pass 4 GB
	uint64_t v = 0; static constexpr size_t disk_size = 1 << 20;
	size_t write(uint8_t* b) const { memset(b, 0, disk_size); memcpy(b, &v, 8); return disk_size; }
	size_t read(const uint8_t* b) { memcpy(&v, b, 8); return disk_size; }
};
struct Byte {
	uint8_t v; static constexpr size_t disk_size = 1;
	size_t write(uint8_t* b) const { *b = v; return 1; }
	size_t read(const uint8_t* b) { v = *b; return 1; }
};
struct KeyWide { uint64_t operator()(const Wide& e) const { return e.v; } };
struct KeyByte { uint64_t operator()(const Byte& e) const { return e.v; } };

template<class T, class F> struct Sink : Processor<std::pair<std::vector<T>, size_t>> {
	uint64_t n = 0; F f; Sink(F f) : f(f) {}
	void take(std::pair<std::vector<T>, size_t>& b) override { MC_CHECK(b.second == n, "block labelled with offset %llu but %llu entries were emitted before it", (ull)b.second, (ull)n); f(b.first, n); n += b.first.size(); }
};
template<class T, class F> Sink<T, F> sink(F f) { return Sink<T, F>(f); }

void mc::register_scenarios(const std::string& tier) {
	bool th = tier == "thorough";
	Config c; c.mode = DELAY; c.max_bound = 0; c.time_cap = 200; c.races = false; c.fork_exec = true;
	for(int nt = 1; nt <= (th ? 3 : 1); ++nt) {
		add("C05/huge/bytes/t" + S(nt), c, [=] {
			g_read_chunk_size = 16; g_write_chunk_size = 1; const uint64_t N = 4096 + 2 * 4096 * 0 + 37;
			{ Host h; vfs::add_dir("t"); for(uint64_t i = 0; i < N; ++i) { uint64_t v = i * 0x9E3779B97F4A7C15ull + 1; vfs::write_at("t/table", i << 20, std::string((char*)&v, 8)); } vfs::write_at("t/table", (N << 20) - 1, std::string(1, 0)); }
			DiskTable<Wide> r("t/table", N);
			auto k = sink<Wide>([&](std::vector<Wide>& v, uint64_t o) { for(size_t i = 0; i < v.size(); ++i) MC_CHECK(v[i].v == (o + i) * 0x9E3779B97F4A7C15ull + 1, "entry %llu of a table of %llu bytes reads back with different contents", (ull)(o + i), (ull)(N << 20)); });
			r.read(&k, nt); MC_CHECK(k.n == N, "%llu of %llu entries", (ull)k.n, (ull)N); outcome(1);
		});
		add("C05/huge/entries/t" + S(nt), c, [=] {
			g_read_chunk_size = 16; g_write_chunk_size = 1; const uint64_t N = (1ull << 32) + 5;
			{ Host h; vfs::add_dir("t"); vfs::write_at("t/table", 0, "a"); vfs::write_at("t/table", N - 6, "bcdefg"); vfs::write_at("t/table", 1ull << 31, "h"); }
			DiskTable<Byte> r("t/table", N);
			MC_CHECK(r.get_info().num_entries == N, "table reports %llu of %llu entries", (ull)r.get_info().num_entries, (ull)N);
			auto at = [](uint64_t i) -> int { return i == 0 ? 'a' : i == 1ull << 31 ? 'h' : i >= (1ull << 32) - 1 ? 'b' + (int)(i - ((1ull << 32) - 1)) : 0; };
			auto k = sink<Byte>([&](std::vector<Byte>& v, uint64_t o) { if(v.empty()) return; for(size_t i : {(size_t)0, v.size() - 1}) MC_CHECK(v[i].v == at(o + i), "entry %llu reads back as %d", (ull)(o + i), v[i].v); for(size_t i = 0; i < v.size() && v.size() < 100; ++i) MC_CHECK(v[i].v == at(o + i), "entry %llu reads back as %d", (ull)(o + i), v[i].v); });
			r.read(&k, nt, 1 << 24); MC_CHECK(k.n == N, "%llu of %llu entries", (ull)k.n, (ull)N); outcome(1);
		});
	}
	// appending to a table that is already past 4 GB, and reading it back through get_info()
	add("C05/huge/write", c, [=] {
		g_read_chunk_size = 8; g_write_chunk_size = 4; const uint64_t N = 4096 + 5; { Host h; vfs::add_dir("t"); }
		DiskTable<Wide> w("t/table"); for(uint64_t i = 0; i < N; ++i) { Wide e; e.v = i + 1; w.write(e); } w.close();
		DiskTable<Wide> r(w.get_info());
		auto k = sink<Wide>([&](std::vector<Wide>& v, uint64_t o) { for(size_t i = 0; i < v.size(); ++i) MC_CHECK(v[i].v == o + i + 1, "entry %llu reads back as %llu", (ull)(o + i), (ull)v[i].v); });
		r.read(&k, 2); MC_CHECK(k.n == N, "%llu of %llu entries", (ull)k.n, (ull)N); outcome(1);
	});
	// one bucket file of more than 4 GB: written, read with the files kept, and opened again read-only
	for(int lg = 0; lg <= (th ? 1 : 0); ++lg) add("C04/huge/bytes/b" + S(lg), c, [=] {
		g_read_chunk_size = 8; g_write_chunk_size = 4; const uint64_t N = (4096 << lg) + 5; { Host h; vfs::add_dir("t"); }
		auto key = [=](uint64_t i) { return (i * 2654435761u + 7) % (1u << 20); };
		std::vector<uint64_t> want; for(uint64_t i = 0; i < N; ++i) want.push_back(key(i)); std::sort(want.begin(), want.end());
		auto once = [&](DiskSort<Wide, KeyWide>& s, const char* what) {
			std::vector<uint64_t> got; auto k = sink<Wide>([&](std::vector<Wide>& v, uint64_t o) { for(auto& e : v) got.push_back(e.v); });
			s.read(&k, 1, 2); MC_CHECK(got == want, "%s: bucket file beyond 4 GB: %llu of %llu entries, or different ones", what, (ull)got.size(), (ull)N);
		};
		{ DiskSort<Wide, KeyWide> s(20, lg, "t/x"); s.set_keep_files(true); for(uint64_t i = 0; i < N; ++i) { Wide e; e.v = key(i); s.add(e); } s.finish(); once(s, "read"); }
		DiskSort<Wide, KeyWide> r(20, lg, "t/x", true); once(r, "opened again"); outcome(1);
	});
	if(th) add("C04/huge/entries", c, [=] {
		g_read_chunk_size = 1 << 20; g_write_chunk_size = 1; const uint64_t per = (1 << 24) + 1;
		{ Host h; vfs::add_dir("t"); for(int i = 0; i < 256; ++i) { vfs::write_at("t/x.sort_bucket_" + S(i) + ".tmp", per - 1, std::string(1, (char)i)); } }
		DiskSort<Byte, KeyByte> r(16, 8, "t/x", true);
		auto k = sink<Byte>([&](std::vector<Byte>& v, uint64_t o) {});
		r.read(&k, 1, 1); MC_CHECK(k.n == 256 * per, "%llu of %llu entries", (ull)k.n, (ull)(256 * per)); outcome(1);
	});
}
