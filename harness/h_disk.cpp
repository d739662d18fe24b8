// C04/C05 (+ component part of C13): disk sort and disk table on the virtual file system.
#include "mc.h"
#include <chia/chia.h>
#include <chia/DiskSort.hpp>
#include <chia/DiskTable.h>
#include <algorithm>
#include <cstring>
using namespace mc;

static std::string S(int v) { return std::to_string(v); }
static char LO;

struct E {
	uint64_t key = 0; uint16_t id = 0;
	static constexpr size_t disk_size = 10;
	size_t write(uint8_t* b) const { memcpy(b, &key, 8); memcpy(b + 8, &id, 2); return 10; }
	size_t read(const uint8_t* b) { memcpy(&key, b, 8); memcpy(&id, b + 8, 2); return 10; }
	bool operator<(const E& o) const { return key != o.key ? key < o.key : id < o.id; }
	bool operator==(const E& o) const { return key == o.key && id == o.id; }
};
struct KeyOf { uint64_t operator()(const E& e) const { return e.key; } };
typedef std::pair<std::vector<E>, size_t> Block;
typedef DiskSort<E, KeyOf> Sort;

struct Sink : Processor<Block> {
	std::vector<E> got; Int busy; std::vector<size_t> sizes;
	void take(Block& b) override {
		visible(&LO, "block"); MC_CHECK(busy.get() == 0, "two blocks delivered at once"); busy.set(1);
		MC_CHECK(b.second == got.size(), "block labelled with offset %zu but %zu entries were emitted before it", b.second, got.size());
		sizes.push_back(b.first.size());
		for(auto& e : b.first) got.push_back(e);
		visible(&LO, "block done"); busy.set(0);
	}
};
static void check_sorted(const std::vector<E>& got, std::vector<E> want, const char* what) {
	for(size_t i = 1; i < got.size(); ++i) MC_CHECK(got[i - 1].key <= got[i].key, "%s: key %llu emitted after %llu", what, (unsigned long long)got[i].key, (unsigned long long)got[i - 1].key);
	std::vector<E> g = got; std::sort(g.begin(), g.end()); std::sort(want.begin(), want.end());
	MC_CHECK(g.size() == want.size(), "%s: %zu entries emitted, %zu added", what, g.size(), want.size());
	MC_CHECK(g == want, "%s: emitted entries differ from the added ones", what);
	uint64_t h = 1; for(auto& e : got) h = mix(h, e.key * 64 + e.id); outcome(h);
}
static void no_files(const char* what) { Host h; auto l = vfs::list(); MC_CHECK(l.empty(), "%s: temporary file %s left behind", what, l[0].c_str()); }

struct P { int ks, lg, n, rc, wc, nt, nr; };
// one complete use: add (direct / caches), finish, read (optionally keep + re-open + read again)
static void use(const P& p, const std::vector<E>& es, int how, int keep, bool thread_out) {
	g_read_chunk_size = p.rc; g_write_chunk_size = p.wc;
	{ Host h; vfs::add_dir("t"); }
	{
		Sort s(p.ks, p.lg, "t/x");
		if(keep) s.set_keep_files(true);
		MC_CHECK((int)s.num_buckets() == 1 << p.lg, "num_buckets");
		if(how == 0) for(auto& e : es) s.add(e);
		else if(how == 1) { auto c = s.add_cache(); for(auto& e : es) c->add(e); c->flush(); }
		else if(how == 2) { auto a = s.add_cache(), b = s.add_cache(); for(size_t i = 0; i < es.size(); ++i) { if(i % 3 == 2) s.add(es[i]); else (i % 3 ? a : b)->add(es[i]); if(i == 1) a->flush(); } }
		else {   // two threads, one cache each, plus the owner's own add
			std::thread t1([&] { auto c = s.add_cache(); for(size_t i = 0; i < es.size(); i += 2) c->add(es[i]); });
			std::thread t2([&] { auto c = s.add_cache(); for(size_t i = 1; i < es.size(); i += 2) c->add(es[i]); });
			t1.join(); t2.join();
		}
		s.finish();
		for(int round = 0; round <= (keep == 2); ++round) {
			Sink k;
			if(thread_out) { Thread<Block> t([&](Block& b) { k.take(b); }); s.read(&t, p.nt, p.nr); t.close(); } else s.read(&k, p.nt, p.nr);
			check_sorted(k.got, es, round ? "second read" : "read");
		}
	}
	if(keep) {
		for(int round = 0; round < 2; ++round) {
			Sort r(p.ks, p.lg, "t/x", true);
			Sink k; r.read(&k, p.nt, p.nr);
			check_sorted(k.got, es, "read of kept files");
		}
	}
}

static void reg_sort(bool th) {
	// (a) data: all key sequences, fixed schedule (deviation bound 0: every choice of data, default schedule)
	struct D { int ks, lg, n; };
	for(D d : std::vector<D>{{2, 1, 4}, {3, 1, 3}, {4, 2, 3}, {4, 1, 3}, {1, 0, 4}, {6, 2, 2}, {6, 3, 2}, {5, 2, 2}}) for(int how = 0; how < 3; ++how) {
		if(!th && d.n >= 4 && how == 1) continue;
		Config c; c.mode = DELAY; c.max_bound = 0; c.time_cap = th ? 120 : 20; c.races = false;
		add("C04/data/k" + S(d.ks) + "b" + S(d.lg) + "n" + S(d.n) + "/how" + S(how), c, [=] {
			int n = choose(d.n + 1, "n");
			std::vector<E> es; for(int i = 0; i < n; ++i) { E e; e.key = choose(1 << d.ks, "key"); e.id = i; es.push_back(e); }
			int cfg = choose(6, "config");
			static const int W[6][5] = {{1, 1, 1, 1, 0}, {1, 2, 1, 2, 0}, {2, 1, 2, 1, 1}, {3, 3, 2, 2, 0}, {1, 1, 3, 3, 2}, {7, 9, 2, -1, 0}};
			use({d.ks, d.lg, n, W[cfg][0], W[cfg][1], W[cfg][2], W[cfg][3]}, es, how, W[cfg][4], cfg & 1);
		});
	}
	// (b) bigger buckets: n entries in every (chunk, thread) combination, keys i*mult mod 2^ks
	for(int ks : {4, 6}) {
		Config c; c.mode = DELAY; c.max_bound = 0; c.time_cap = th ? 120 : 20; c.races = false;
		add("C04/config/k" + S(ks), c, [=] {
			static const int N[] = {0, 1, 2, 5, 8, 16, 33}; static const int M[] = {1, 0, 3, 5, 7, 15, 31};
			int n = N[choose(7, "n")], m = M[choose(7, "pattern")], lg = choose(ks / 2 + 1, "log buckets"), rc = 1 + choose(4, "read chunk"), wc = 1 + choose(4, "write chunk"), nt = 1 + choose(2, "threads"), how = choose(3, "how");
			std::vector<E> es; for(int i = 0; i < n; ++i) { E e; e.key = (uint64_t)(i * m + (m > 1)) & ((1 << ks) - 1); e.id = i; es.push_back(e); }
			use({ks, lg, n, rc == 4 ? 16 : rc, wc == 4 ? 16 : wc, nt, nt}, es, how, n == 5 ? 2 : 0, false);
		});
	}
	// (c) wide keys: all pairs over boundary keys
	for(int ks : {31, 32, 33, 34, 40, 63, 64}) for(int lg : {0, 1, 4}) {
		if(ks == 64 && lg == 0) continue;   // shifting a 64 bit key by 64
		Config c; c.mode = DELAY; c.max_bound = 0; c.time_cap = th ? 60 : 10; c.races = false;
		add("C04/wide/k" + S(ks) + "b" + S(lg), c, [=] {
			std::vector<uint64_t> dom; uint64_t top = ks == 64 ? ~0ull : (1ull << ks) - 1;
			dom.push_back(0); dom.push_back(1); dom.push_back(top); dom.push_back(top - 1); dom.push_back(top / 2); dom.push_back(top / 2 + 1);
			uint64_t b = lg ? 1ull << (ks - lg) : 0, sb = lg ? 1ull << (ks - 2 * lg) : 0;
			for(uint64_t x : {b - 1, b, sb - 1, sb, b + sb, b + sb - 1}) dom.push_back(x & top);
			// two keys of one block whose order is decided by a single high bit while every lower bit says the opposite
			const int low = ks - 2 * lg; for(int bit : {7, 8, 15, 16, 30, 31, 32, 33, 47, 48, low - 2, low - 1}) if(bit < low && bit > 0) { dom.push_back(1ull << bit); dom.push_back((1ull << bit) - 1); dom.push_back(top ^ ((1ull << bit) - 1)); }
			std::sort(dom.begin(), dom.end()); dom.erase(std::unique(dom.begin(), dom.end()), dom.end());
			std::vector<E> es; for(int i = 0; i < 3; ++i) { E e; e.key = i < 2 ? dom[choose(dom.size(), "key")] : dom[5]; e.id = i; es.push_back(e); }
			use({ks, lg, 3, 2, 2, 2, 2}, es, 0, 0, false);
		});
	}
	// (c2) many entries with the built-in chunk sizes: counters and offsets beyond 16 bits, buckets beyond one read chunk
	for(int n : {65535, 65536, 65537, 140000}) {
		if(!th && n == 65535) continue;
		Config c; c.mode = DELAY; c.fork_exec = true; c.max_bound = 0; c.time_cap = th ? 120 : 30; c.max_steps = 100000000; c.races = false;
		const size_t rc = g_read_chunk_size, wc = g_write_chunk_size;
		add("C04/long/n" + S(n), c, [=] {
			static const int LG[] = {0, 1, 8}; int lg = LG[choose(3, "log buckets")], pat = choose(2, "pattern"), nt = 1 + choose(2, "threads");
			std::vector<E> es; for(int i = 0; i < n; ++i) { E e; e.key = pat ? (uint64_t)i * 0x9E3779B97F4A7C15ull >> 31 : (uint64_t)(n - i); e.id = i; es.push_back(e); }
			use({33, lg, n, (int)rc, (int)wc, nt, nt}, es, 0, 0, false);
		});
	}
	// (c3) every accepted number of buckets: pairs of keys whose buckets and blocks differ in single high bits
	for(int lg = 4; lg <= 16; ++lg) {
		if(!th && lg != 4 && lg != 8 && lg != 9 && lg != 12) continue;
		Config c; c.mode = DELAY; c.fork_exec = true; c.max_bound = 0; c.time_cap = th ? 400 : 20; c.max_steps = 100000000; c.races = false;
		add("C04/buckets/b" + S(lg), c, [=] {
			const int extra = lg > 12 ? 0 : choose(3, "extra bits"), ks = 2 * lg + (extra == 2 ? 8 : extra), how = lg > 12 ? 0 : choose(2, "how"), pat = choose(lg > 12 ? 1 : 2, "pattern"); const uint64_t top = (1ull << ks) - 1;
			std::vector<uint64_t> v{0, top, top / 2, top / 2 + 1}; for(int b = 0; b < ks; ++b) { v.push_back(1ull << b); v.push_back(top ^ (1ull << b)); if(pat) v.push_back((1ull << b) - 1); }
			std::vector<E> es; for(size_t i = 0; i < v.size(); ++i) { E e; e.key = v[v.size() - 1 - i]; e.id = i; es.push_back(e); }
			use({ks, lg, (int)es.size(), 3, 2, 2, 2}, es, how, pat && lg < 10 ? 2 : 0, false);
		});
	}
	// (d) interleavings
	struct I { int lg, n, wc, nt, nr, how, pat; int bq, bt; };
	for(I x : std::vector<I>{{0, 2, 1, 1, 1, 3, 0, 2, 3}, {1, 2, 1, 1, 1, 3, 0, 2, 3}, {1, 4, 1, 1, 1, 3, 1, 1, 2}, {1, 4, 2, 1, 1, 3, 1, 1, 2}, {1, 3, 1, 2, 1, 0, 2, 0, 2}, {1, 3, 1, 1, 2, 0, 2, 0, 2}, {1, 4, 1, 2, 2, 0, 3, 0, 2}, {2, 5, 1, 2, 2, 0, 3, 0, 2}, {2, 6, 2, 3, 3, 3, 3, 0, 1}}) for(int sd : scheds(th, true)) {
		const int mode = sd < 0 ? 1 : 2; if(mode == 1 && !th && x.bq == 0) continue;
		Config c; c.mode = (Mode)mode; c.max_bound = mode == 2 ? (th ? 3 : x.n > 4 ? 1 : 2) : th ? x.bt : x.bq; c.time_cap = th ? 200 : 8; c.file_points = x.how == 3; if(mode == 2) c.sched_default = sd;
		add("C04/sched/b" + S(x.lg) + "n" + S(x.n) + "w" + S(x.wc) + "t" + S(x.nt) + S(x.nr) + "how" + S(x.how) + (mode == 2 ? "/d" + S(sd) : "/p"), c, [=] {
			static const int K[4][6] = {{0, 0, 0, 0, 0, 0}, {3, 0, 3, 0, 1, 2}, {2, 1, 0, 3, 3, 0}, {3, 2, 1, 0, 1, 2}};
			std::vector<E> es; for(int i = 0; i < x.n; ++i) { E e; e.key = K[x.pat][i] << 2 | (x.n - i) % 4; e.id = i; es.push_back(e); }
			use({4, x.lg, x.n, 2, x.wc, x.nt, x.nr}, es, x.how, 0, x.n == 3);
		});
	}
}

// leftovers of an earlier (killed) run at the very paths this sort uses; and several sorts alive at once
static void reg_env(bool th) {
	Config c; c.mode = DELAY; c.max_bound = 0; c.time_cap = th ? 60 : 10; c.races = false;
	add("C04/stale", c, [=] {
		int n = choose(6, "n"), lg = choose(3, "log buckets"), how = choose(3, "how"), keep = choose(3, "keep"), junk = choose(4, "junk");
		std::vector<E> es; for(int i = 0; i < n; ++i) { E e; e.key = (i * 21 + 3) & 63; e.id = i; es.push_back(e); }
		g_read_chunk_size = 2; g_write_chunk_size = 2;
		std::vector<std::string> names;
		{ Host h; vfs::add_dir("t"); }
		{ Sort s(6, lg, "t/x"); for(int i = 0; i < 64; ++i) { E e; e.key = i; s.add(e); } s.finish(); Host h; names = vfs::list(); }
		{ Host h; for(auto& f : names) vfs::write(f, junk == 3 ? "" : std::string(junk == 0 ? 10 : junk == 1 ? 7 : 1000, junk == 1 ? '\xff' : '\0')); }
		use({6, lg, n, 2, 2, 2, 2}, es, how, keep, false);
		if(!keep) no_files("disk sort");
	});
	Config d = c; d.max_bound = 1; d.time_cap = th ? 100 : 10;
	add("C04/pair", d, [=] {
		int n = 1 + choose(4, "n"), lg = choose(2, "log buckets"), how = choose(3, "how"), wc = 1 + choose(2, "write chunk"), order = choose(2, "order");
		g_read_chunk_size = 2; g_write_chunk_size = wc;
		{ Host h; vfs::add_dir("t"); }
		std::vector<E> ea, eb; for(int i = 0; i < n; ++i) { E e; e.key = (i * 21 + 3) & 63; e.id = i; ea.push_back(e); e.key = (i * 37 + 9) & 63; e.id = 100 + i; eb.push_back(e); }
		{
			Sort a(6, lg, "t/x"), b(6, lg, "t/y");
			if(how == 0) { auto ca = a.add_cache(), cb = b.add_cache(), ca2 = a.add_cache(); for(int i = 0; i < n; ++i) { (i & 1 ? ca2 : ca)->add(ea[i]); cb->add(eb[i]); } }
			else if(how == 1) {   // caches made by the owner, used by threads
				auto ca = a.add_cache(), cb = b.add_cache();
				std::thread t1([&] { for(auto& e : ea) ca->add(e); ca = nullptr; }), t2([&] { for(auto& e : eb) cb->add(e); cb = nullptr; }); t1.join(); t2.join();
			} else {              // each thread feeds both sorts
				auto f = [&](int par) { auto ca = a.add_cache(); auto cb = b.add_cache(); for(int i = par; i < n; i += 2) { cb->add(eb[i]); ca->add(ea[i]); } };
				std::thread t1([&] { f(0); }), t2([&] { f(1); }); t1.join(); t2.join();
			}
			a.finish(); b.finish();
			Sink ka, kb; if(order) { a.read(&ka, 2, 2); b.read(&kb, 2, 2); } else { b.read(&kb, 2, 2); a.read(&ka, 2, 2); }
			check_sorted(ka.got, ea, "first of two sorts"); check_sorted(kb.got, eb, "second of two sorts");
		}
		no_files("two disk sorts");
	});
	add("C05/stale", c, [=] {
		int n = choose(6, "n"), wc = 1 + choose(3, "write chunk"), junk = choose(4, "junk"), nt = 1 + choose(2, "threads");
		g_read_chunk_size = 2; g_write_chunk_size = wc;
		{ Host h; vfs::add_dir("t"); vfs::write("t/table", junk == 3 ? "" : std::string(junk == 0 ? 10 : junk == 1 ? 7 : 1000, junk == 1 ? '\xff' : '\0')); }
		std::vector<E> ea, eb; for(int i = 0; i < n; ++i) { E e; e.key = 1000 + i * 77; e.id = i; ea.push_back(e); e.key += 5; eb.push_back(e); }
		table_t ia, ib;
		{ DiskTable<E> a("t/table"), b("t/other"); for(int i = 0; i < n; ++i) { a.write(ea[i]); b.write(eb[i]); } a.close(); b.close(); ia = a.get_info(); ib = b.get_info(); }
		DiskTable<E> a(ia), b(ib); Sink ka, kb; a.read(&ka, nt, 2); b.read(&kb, nt, 2);
		MC_CHECK(ka.got == ea, "table written over a leftover file read back as %zu entries for %d, or with different contents", ka.got.size(), n);
		MC_CHECK(kb.got == eb, "second of two tables read back with different contents");
		outcome(n);
	});
}
static void reg_clean(bool th) {
	Config c; c.mode = DELAY; c.max_bound = 1; c.time_cap = th ? 60 : 10; c.races = false;
	add("C15/sort", c, [=] {
		int n = choose(5, "n"), lg = choose(3, "log buckets"), rd = 1 + choose(2, "read");
		g_read_chunk_size = 2; g_write_chunk_size = 2;
		{ Host h; vfs::add_dir("t"); vfs::write("t/x.other.tmp", "keep"); vfs::write("t/x.sort_bucket_99.tmp", "keep"); }
		{
			Sort s(6, lg, "t/x"); for(int i = 0; i < n; ++i) { E e; e.key = (i * 21) & 63; e.id = i; s.add(e); }
			if(rd) s.finish();
			if(rd == 2) { Sink k; s.read(&k, 2, 2); }
		}
		Host h; auto l = vfs::list(); MC_CHECK(l.size() == 2, "disk sort left %s behind", (l.size() > 2 ? l[0] + " " + l[1] : "too little").c_str());
		MC_CHECK(vfs::read("t/x.other.tmp") == "keep" && vfs::read("t/x.sort_bucket_99.tmp") == "keep", "unrelated file changed");
	});
}
static void reg_table(bool th) {
	auto run = [](int n, int wc, int bs, int nt, int style, bool thread_out) {
		g_write_chunk_size = wc; g_read_chunk_size = bs == 0 ? 3 : 5;
		{ Host h; vfs::add_dir("t"); }
		std::vector<E> es; for(int i = 0; i < n; ++i) { E e; e.key = 1000 + i * 77; e.id = i; es.push_back(e); }
		table_t info;
		{
			DiskTable<E> t("t/table");
			for(int i = 0; i < n; ++i) { t.write(es[i]); if(style == 1 && i % 2) t.flush(); if(style == 2 && i == 0) t.flush(); }
			if(style == 1) t.flush();
			t.close();
			info = t.get_info();
			MC_CHECK(info.num_entries == (size_t)n, "table reports %zu entries, %d written", info.num_entries, n);
			MC_CHECK(info.file_name == "t/table", "file name");
			if(style == 2) t.close();
		}
		MC_CHECK(vfs::read("t/table").size() == n * E::disk_size, "table file has %zu bytes for %d entries", vfs::read("t/table").size(), n);
		DiskTable<E> r(info);
		auto inf2 = r.get_info(); MC_CHECK(inf2.num_entries == (size_t)n, "re-opened table reports %zu entries", inf2.num_entries);
		for(int round = 0; round < 2; ++round) {
			Sink k;
			auto go = [&](Processor<Block>* o) { if(bs) r.read(o, nt, bs); else if(nt == 2) r.read(o); else r.read(o, nt); };
			if(thread_out) { Thread<Block> t([&](Block& b) { k.take(b); }); go(&t); t.close(); } else go(&k);
			MC_CHECK(k.got == es, "table of %d entries read back as %zu entries, or with different contents", n, k.got.size());
			size_t B = bs ? bs : g_read_chunk_size;
			outcome(k.sizes.size() * 1000 + n);
		}
	};
	Config c; c.mode = DELAY; c.max_bound = 0; c.time_cap = th ? 100 : 20; c.races = false;
	add("C05/config", c, [=] { int n = choose(th ? 14 : 10, "n"), wc = 1 + choose(5, "write chunk"), bs = choose(6, "block"), nt = 1 + choose(3, "threads"), st = choose(3, "style"); run(n, wc, bs, nt, st, (n + bs) & 1); });
	struct I { int n, wc, bs, nt, bq, bt; };
	for(I x : std::vector<I>{{1, 1, 1, 1, 2, 4}, {2, 1, 1, 2, 1, 3}, {3, 2, 1, 2, 1, 2}, {5, 2, 2, 2, 1, 2}, {5, 3, 2, 3, 1, 2}, {7, 2, 2, 3, 1, 2}}) for(int sd : scheds(th, true)) {
		const int mode = sd < 0 ? 1 : 2; if(mode == 1 && !th && x.n > 3) continue;
		Config c; c.mode = (Mode)mode; c.max_bound = mode == 2 ? (th ? 4 : 2) : th ? x.bt : x.bq; c.time_cap = th ? 200 : 8; if(mode == 2) c.sched_default = sd;
		add("C05/sched/n" + S(x.n) + "b" + S(x.bs) + "t" + S(x.nt) + (mode == 2 ? "/d" + S(sd) : "/p"), c, [=] { run(x.n, x.wc, x.bs, x.nt, 0, false); });
	}
}

// every single I/O failure (and every pair in the thorough tier): correct result or reported error
static void reg_fault(bool th) {
	auto arm = [] { Host h; vfs::set_fault([](const vfs::Op& o) -> int {
		if(o.kind == vfs::SEEK || o.kind == vfs::STAT) { if(choose(2, "fault", 1)) { add_counter(31, 1); return EIO; } return 0; }
		if(o.kind == vfs::WRITE) { int c = choose(3, "fault", 1); if(c) add_counter(31, 1); return c == 1 ? ENOSPC : c == 2 ? -1 : 0; }
		if(o.kind == vfs::READ) { int c = choose(3, "fault", 1); if(c) add_counter(31, 1); return c == 1 ? EIO : c == 2 ? -1 : 0; }
		if(o.kind == vfs::REMOVE) return 0;
		static const int E[] = {0, EIO, EMFILE, ENFILE, ENOSPC, EACCES, ENOENT, EINTR};
		int c = choose(o.kind == vfs::OPEN_R || o.kind == vfs::OPEN_W || o.kind == vfs::OPEN_A ? 8 : 2, "fault", 1); if(c) add_counter(31, 1);
		return E[c]; }); };
	for(int keep = 0; keep < 3; keep += 2) for(int nt = 1; nt <= 2; ++nt) {
		Config c; c.mode = DELAY; c.max_bound = th ? 2 : 1; c.time_cap = th ? 200 : 15; c.terminate_ok = true; c.sched_default = nt - 1; c.races = false;
		add("C13/sort/keep" + S(keep) + "t" + S(nt), c, [=] {
			std::vector<E> es; for(int i = 0; i < 7; ++i) { E e; e.key = (i * 5 + 2) & 15; e.id = i; es.push_back(e); }
			arm();
			try { use({4, 1, 7, 2, 2, nt, nt}, es, keep ? 2 : 0, keep, false); outcome(1); } catch(const std::exception& e) { outcome(2); end_exec_ok(); }
		}, [](const char*) {});
	}
	for(int nt = 1; nt <= 2; ++nt) {
		Config c; c.mode = DELAY; c.max_bound = th ? 2 : 1; c.time_cap = th ? 200 : 15; c.terminate_ok = true; c.races = false;
		add("C13/table/t" + S(nt), c, [=] {
			arm();
			g_write_chunk_size = 2; g_read_chunk_size = 2; { Host h; vfs::add_dir("t"); }
			try {
				std::vector<E> es; table_t info;
				{ DiskTable<E> t("t/table"); for(int i = 0; i < 5; ++i) { E e; e.key = i * 3; e.id = i; es.push_back(e); t.write(e); } t.close(); info = t.get_info(); }
				MC_CHECK(info.num_entries == 5, "table reports %zu of 5 entries", info.num_entries);
				{ Host h; MC_CHECK(vfs::read("t/table").size() == 50, "table closed without error but the file has %zu of 50 bytes", vfs::read("t/table").size()); }
				DiskTable<E> r(info); Sink k; r.read(&k, nt, 2);
				MC_CHECK(k.got == es, "read reported success with wrong contents"); outcome(1);
			} catch(const std::exception& e) { outcome(2); end_exec_ok(); }
		}, [](const char*) {});
	}
}
// the disk fills up: one write is cut short and every later write fails; caches smaller and larger than stdio's buffer
static int g_full_at, g_full_n;
static void reg_full(bool th) {
	Config c; c.mode = DELAY; c.max_bound = 0; c.time_cap = th ? 100 : 15; c.terminate_ok = true; c.races = false;
	auto arm = [] { Host h; g_full_n = 0; vfs::set_fault([](const vfs::Op& o) -> int {
		if(o.kind != vfs::WRITE) return 0;
		int n = g_full_n++; if(n < g_full_at) return 0;
		add_counter(31, 1); return n == g_full_at ? -1 : ENOSPC; }); };
	static const int CH[] = {1, 100, 1000, 3000};
	add("C13/full/table", c, [=] {
		g_full_at = choose(10, "full at write"); const int wc = CH[choose(4, "chunk")], n = wc == 1 ? 1700 : wc * (1 + choose(3, "caches")) - choose(2, "less");
		arm(); g_write_chunk_size = wc; g_read_chunk_size = 64; { Host h; vfs::add_dir("t"); }
		try {
			std::vector<E> es; table_t info;
			{ DiskTable<E> t("t/table"); for(int i = 0; i < n; ++i) { E e; e.key = i * 3; e.id = i; es.push_back(e); t.write(e); } t.close(); info = t.get_info(); }
			{ Host h; MC_CHECK(vfs::read("t/table").size() == n * E::disk_size, "disk full: table closed without error but the file has %zu of %zu bytes", vfs::read("t/table").size(), n * E::disk_size); }
			DiskTable<E> r(info); Sink k; r.read(&k, 2, 64); MC_CHECK(k.got == es, "disk full: read reported success with wrong contents"); outcome(1);
		} catch(const std::exception& e) { outcome(2); end_exec_ok(); }
	}, [](const char*) {});
	add("C13/full/sort", c, [=] {
		g_full_at = choose(10, "full at write"); const int wc = CH[choose(4, "chunk")], n = wc == 1 ? 1700 : wc * (1 + choose(3, "caches")) - choose(2, "less"), how = choose(3, "how");
		arm();
		std::vector<E> es; for(int i = 0; i < n; ++i) { E e; e.key = (i * 37) & 255; e.id = i; es.push_back(e); }
		try { use({8, 1, n, 64, wc, 2, 2}, es, how, 0, false); outcome(1); } catch(const std::exception& e) { outcome(2); end_exec_ok(); }
	}, [](const char*) {});
}
void mc::register_scenarios(const std::string& tier) { bool th = tier == "thorough"; reg_sort(th); reg_env(th); reg_clean(th); reg_table(th); reg_fault(th); reg_full(th); }
