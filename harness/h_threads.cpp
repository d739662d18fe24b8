// C01/C02/C03: the worker and the worker pool under every interleaving.
#include "mc.h"
#include <chia/ThreadPool.h>
#include <chia/Thread.h>
#include <thread>
#include <vector>
#include <set>
using namespace mc;

static char L1, L2;
static std::string S(int v) { return std::to_string(v); }

struct Log {
	Ints done; Int in_progress, max_in_progress;
	void start(int) { visible(&L1, "start item"); long p = in_progress.add(1); if(p > max_in_progress.get()) max_in_progress.set(p); }
	void finish(int x) { visible(&L1, "finish item"); done.push(x); in_progress.add(-1); }
	void all(int n) {   // exactly items 0..n-1, in order
		MC_CHECK(done.size() == n, "%d of %d items processed", done.size(), n);
		for(int i = 0; i < n; ++i) MC_CHECK(done.at(i) == i, "item %d processed at position %d", done.at(i), i);
	}
	void upto(int n, const char* when) {
		int k = done.count_less(n);
		MC_CHECK(k >= n, "%s returned but only %d of the %d items submitted before it are processed", when, k, n);
	}
};
typedef std::vector<int> V;   // payload with heap state: a lost or duplicated hand-off is visible
static V mk(int i) { return V{i, i * 7 + 1, i * 13 + 2}; }
static int id_of(const V& v) { MC_CHECK(v.size() == 3 && v[1] == v[0] * 7 + 1 && v[2] == v[0] * 13 + 2, "corrupted item delivered (size %zu)", v.size()); return v[0]; }

static void reg_thread(bool thorough) {
	// programs over {T = submit next item, W = wait, C = copy-submit}, then close or destroy
	const char* progs[] = {"", "T", "TT", "TTT", "W", "TW", "TWT", "TTW", "TTWT", "TWTW", "CT", "TC", "WTW"};
	for(auto p : progs) for(int end = 0; end < 3; ++end) for(int slow = 0; slow < 2; ++slow) for(int sp = 0; sp <= 1; ++sp) {
		std::string prog = p;
		if(end == 2 && prog.size() > 2) continue;
		if(sp && prog.size() > 2 && !thorough) continue;
		Config c; c.spurious = sp; c.time_cap = thorough ? 120 : 20;
		add("C01/single/" + prog + "/end" + S(end) + (slow ? "/slow" : "") + (sp ? "/spurious" : ""), c, [=] {
			Log log; int n = 0;
			{
				Thread<V> t([&](V& x) { int i = id_of(x); log.start(i); if(slow) yield_point("work"); log.finish(i); }, end == 1 ? "a-very-long-thread-name" : "");
				for(char op : prog) {
					if(op == 'T') { V v = mk(n++); t.take(v); }
					else if(op == 'C') { V v = mk(n++); t.take_copy(v); MC_CHECK(id_of(v) == n - 1, "take_copy changed its argument"); }
					else { t.wait(); visible(&L1); log.upto(n, "wait"); }
				}
				if(end == 0) { t.close(); visible(&L1); log.upto(n, "close"); }
				else if(end == 2) { t.close(); visible(&L1); log.upto(n, "close"); t.close(); }
			}
			log.all(n);
			MC_CHECK(log.max_in_progress.get() <= 1, "two items in progress at once");
			outcome(n);
		});
	}
	// two concurrent submitters (documented thread-safe) x items
	for(int a = 1; a <= 2; ++a) for(int b = 1; b <= 2; ++b) for(int slow = 0; slow < 2; ++slow) {
		if(a < b) continue;
		if(a + b > 3 && !thorough) continue;
		Config c; c.time_cap = thorough ? 200 : 25; c.fair = 12; if(a + b > 2) { c.mode = PREEMPT; c.max_bound = thorough ? 4 : 2; }
		add("C01/two-submitters/" + S(a) + S(b) + (slow ? "/slow" : ""), c, [=] {
			Log log;
			{
				Thread<V> t([&](V& x) { int i = id_of(x); log.start(i); if(slow) yield_point("work"); log.finish(i); });
				std::thread o([&] { for(int i = 0; i < b; ++i) { V v = mk(100 + i); t.take(v); } });
				for(int i = 0; i < a; ++i) { V v = mk(i); t.take(v); }
				o.join();
				t.wait();
				visible(&L1);
				MC_CHECK(log.done.size() == a + b, "wait returned with %d of %d items processed", log.done.size(), a + b);
				t.close();
			}
			int pa = 0, pb = 100; uint64_t h = 0;
			for(int q = 0; q < log.done.size(); ++q) { int d = log.done.at(q); h = h * 3 + (d >= 100); if(d < 100) MC_CHECK(d == pa++, "item of submitter A out of order"); else MC_CHECK(d == pb++, "item of submitter B out of order"); }
			MC_CHECK(pa == a && pb == 100 + b, "items lost or duplicated");
			outcome(h);
		});
	}
	// submitter and an independent waiter
	for(int n = 1; n <= 2; ++n) for(int slow = 0; slow < 2; ++slow) {
		Config c; c.time_cap = thorough ? 200 : 25; if(n > 1) { c.mode = PREEMPT; c.max_bound = thorough ? 4 : 2; }
		add("C01/waiter/" + S(n) + (slow ? "/slow" : ""), c, [=] {
			Log log; Int submitted;
			{
				Thread<V> t([&](V& x) { int i = id_of(x); log.start(i); if(slow) yield_point("work"); log.finish(i); });
				std::thread o([&] { visible(&L1); int s = submitted.get(); t.wait(); visible(&L1); log.upto(s, "concurrent wait"); outcome(s); });
				for(int i = 0; i < n; ++i) { V v = mk(i); t.take(v); visible(&L1); submitted.set(i + 1); }
				t.wait(); visible(&L1); log.upto(n, "wait");
				o.join();
				t.close();
			}
			log.all(n);
		});
	}
	// chained workers
	for(int n = 1; n <= 2; ++n) {
		Config c; c.time_cap = thorough ? 120 : 25; if(n > 1) { c.mode = PREEMPT; c.max_bound = thorough ? 4 : 2; }
		add("C01/chain/" + S(n), c, [=] {
			Log log;
			{
				Thread<V> b([&](V& x) { int i = id_of(x); log.start(i); log.finish(i); });
				Thread<V> a([&](V& x) { id_of(x); b.take(x); });
				for(int i = 0; i < n; ++i) { V v = mk(i); a.take(v); }
				a.close(); b.close();
				visible(&L1); log.upto(n, "close");
			}
			log.all(n);
		});
	}
}

struct Direct : Processor<V> {
	Log* log; Int busy; int slow = 0;
	void take(V& x) override {
		visible(&L2, "output"); MC_CHECK(busy.get() == 0, "two results delivered to the output at the same time"); busy.set(1);
		int i = id_of(x); if(slow) yield_point("output");
		visible(&L2, "output done"); busy.set(0); log->done.push(i);
	}
};

static void reg_pool(bool thorough) {
	// k: threads, prog as above; slow mask: which items contain an extra scheduling point; out: 0 none, 1 direct, 2 thread
	struct Case { int k; const char* prog; int out; int slow; int mode; int bound; };
	std::vector<Case> cs;
	for(int k = 1; k <= 3; ++k) {
		cs.push_back({k, "", 1, 0, 0, 0});
		cs.push_back({k, "T", 1, 1, 0, 0});
		cs.push_back({k, "T", 0, 0, 0, 0});
	}
	cs.push_back({1, "TT", 1, 3, 0, 0});
	cs.push_back({2, "TT", 1, 1, thorough ? 0 : 1, 3});
	cs.push_back({2, "TTT", 1, 1, 1, thorough ? 3 : 2});
	cs.push_back({2, "TTT", 1, 2, 1, thorough ? 3 : 2});
	cs.push_back({2, "TTTT", 1, 0, 1, thorough ? 3 : 1});
	cs.push_back({2, "TTTTT", 1, 5, 1, thorough ? 2 : 1});
	cs.push_back({2, "TWTT", 1, 0, 1, thorough ? 3 : 2});
	cs.push_back({2, "TTW", 0, 2, 1, thorough ? 3 : 2});
	cs.push_back({2, "TTT", 2, 1, 1, thorough ? 2 : 1});
	cs.push_back({3, "TT", 1, 1, 1, 2});
	cs.push_back({3, "TTT", 1, 1, 1, thorough ? 2 : 1});
	cs.push_back({3, "TTTT", 1, 3, 1, thorough ? 2 : 1});
	cs.push_back({3, "TTTTTT", 1, 0, 2, thorough ? 3 : 2});
	cs.push_back({4, "TTTTT", 1, 1, 2, thorough ? 3 : 2});
	cs.push_back({4, "TTTTTTTTT", 1, 0, 2, thorough ? 3 : 1});
	cs.push_back({3, "CWTTT", 1, 4, 2, thorough ? 3 : 2});
	for(auto cs1 : cs) {
		Config c; c.mode = (Mode)cs1.mode; c.max_bound = cs1.bound; c.time_cap = thorough ? 150 : 15;
		if(cs1.mode == 2) c.sched_default = 1;
		const int k = cs1.k, out = cs1.out, slow = cs1.slow; const std::string prog = cs1.prog;
		add("C02/pool" + S(k) + "/" + prog + "/out" + S(out) + "/slow" + S(slow) + (cs1.mode == 2 ? "/rr" : ""), c, [=] {
			Log log, ex; int n = 0;
			Direct d; d.log = &log;
			{
				std::unique_ptr<Thread<V>> th; if(out == 2) th.reset(new Thread<V>([&](V& x) { d.take(x); }));
				ThreadPool<V, V, int> pool([&](V& x, V& y, int& local) {
					int i = id_of(x); ex.start(i); if(i < 8 && (slow >> i & 1)) { yield_point("work"); yield_point("work"); }
					local++; MC_CHECK(y.empty(), "result object handed to the function is not fresh (%zu elements)", y.size()); for(int e : x) y.push_back(e); ex.finish(i);
				}, out == 0 ? nullptr : out == 1 ? (Processor<V>*)&d : th.get(), k, "pool");
				MC_CHECK((int)pool.num_threads() == k, "num_threads");
				for(int i = 0; i < k; ++i) { int z = 0; pool.set_local(i, std::move(z)); }
				auto settled = [&](const char* when) {
					visible(&L1); ex.upto(n, when);
					if(out == 1) { visible(&L2); log.upto(n, when); }
				};
				for(char op : prog) {
					if(op == 'T') { V v = mk(n++); pool.take(v); }
					else if(op == 'C') { V v = mk(n++); pool.take_copy(v); MC_CHECK(id_of(v) == n - 1, "take_copy changed its argument"); }
					else { pool.wait(); settled("wait"); }
				}
				int sum = 0; for(int i = 0; i < k; ++i) sum += pool.get_local(i);
				MC_CHECK(sum == n, "local states count %d of %d items", sum, n);
				pool.close(); settled("close");
				if(th) th->close();
			}
			if(out) log.all(n);
			std::set<int> s(ex.done.v, ex.done.v + ex.done.size());
			MC_CHECK(ex.done.size() == n && (int)s.size() == n, "function applied %d times to %zu distinct items, %d submitted", ex.done.size(), s.size(), n);
			MC_CHECK(ex.max_in_progress.get() <= k, "%ld items in progress in a pool of %d threads", ex.max_in_progress.get(), k);
			uint64_t h = 0; for(int q = 0; q < n; ++q) h = h * 16 + ex.done.at(q) + 1; outcome(h);
		});
	}
	// long histories: one slow item anywhere around the 8-bit (and, for one case, 16-bit) boundaries of the job number
	for(int k = 2; k <= 3; ++k) for(int big = 0; big < (k == 2 ? 2 : 1); ++big) {
		Config c; c.mode = DELAY; c.max_bound = 0; c.sched_default = 1; c.time_cap = 30; c.races = false; c.fork_exec = true;
		add("C02/long/" + S(k) + (big ? "/64k" : ""), c, [=] {
			const int n = big ? 65540 : 520, at = big ? 65535 : 250 + choose(12, "slow item"); int next = 0, ran = 0;
			struct Out : Processor<V> { int* next; void take(V& x) override { int i = id_of(x); MC_CHECK(i == *next, "result %d delivered at position %d", i, *next); ++*next; } } o; o.next = &next;
			{ ThreadPool<V, V> pool([&](V& x, V& y, size_t&) { int i = id_of(x); if(i == at) for(int r = 0; r < 60; ++r) yield_point("work"); y = x; ++ran; }, &o, k); for(int i = 0; i < n; ++i) { V v = mk(i); pool.take(v); } pool.close(); }
			MC_CHECK(next == n && ran == n, "%d of %d results delivered, %d applications", next, n, ran); outcome(at);
		});
	}
	// back-pressure: a stalled worker must stop the submitter after at most k further items
	for(int k = 1; k <= 3; ++k) {
		Config c; c.mode = DELAY; c.max_bound = thorough ? 3 : 2; c.time_cap = 15;
		add("C02/backpressure/" + S(k), c, [=] {
			Log ex; int n = 0; Int submitted;
			{
				Direct d; Log log; d.log = &log; 
				ThreadPool<V, V, int> pool([&](V& x, V& y, int&) { int i = id_of(x); visible(&L1); int unfinished = submitted.get() - ex.done.size(); MC_CHECK(unfinished <= k + 1, "%d items submitted but unfinished in a pool of %d threads", unfinished, k); ex.start(i); y = x; ex.finish(i); }, &d, k);
				for(int i = 0; i < k + 3; ++i) { visible(&L1); submitted.set(i + 1); V v = mk(n++); pool.take(v); }
				pool.close();
				log.all(n);
			}
		});
	}
}

// ---- failures
static void reg_fail(bool thorough) {
	for(int n = 1; n <= 3; ++n) for(int bad = 0; bad < n; ++bad) for(int mid = 0; mid < 2; ++mid) {
		Config c; c.time_cap = thorough ? 100 : 10; c.terminate_ok = true;
		if(n > 2) { c.mode = PREEMPT; c.max_bound = 3; }
		add("C03/thread/" + S(n) + "-" + S(bad) + (mid ? "/wait" : ""), c, [=] {
			bool reported = false; std::string what; Ints done;
			try {
				Thread<V> t([&](V& x) { int i = id_of(x); visible(&L1); if(i == bad) throw std::runtime_error("boom"); done.push(i); });
				try {
					for(int i = 0; i < n; ++i) { V v = mk(i); t.take(v); }
					if(mid) { t.wait(); MC_CHECK(false, "wait returned normally although item %d failed", bad); }
					t.close();
					MC_CHECK(false, "close returned normally although item %d failed", bad);
				} catch(const std::exception& e) { reported = true; what = e.what(); }
				MC_CHECK(reported, "failure not reported");
				MC_CHECK(what.find("boom") != std::string::npos, "failure reported without its cause: '%s'", what.c_str());
				visible(&L1);
				for(int q = 0; q < done.size(); ++q) MC_CHECK(done.at(q) < bad, "item %d processed after the worker failed on item %d", done.at(q), bad);
				add_counter(0, 1);
				end_exec_ok();   // destroying a failed worker terminates the process by design
			} catch(const std::exception&) { }
		}, [](const char*) {});
	}
	struct Case { int k, n, bad, mode, bound; };
	std::vector<Case> cs;
	for(int k = 1; k <= 3; ++k) for(int n = 1; n <= 4; ++n) for(int bad = 0; bad < n; ++bad) {
		int mode = k * n <= 2 ? 0 : (k * n <= 6 ? 1 : 2);
		if(!thorough && n == 4 && k == 1) continue;
		cs.push_back({k, n, bad, mode, mode == 1 ? (thorough ? 3 : k * n <= 4 ? 2 : 1) : (thorough ? 3 : 2)});
	}
	for(auto q : cs) for(int st = 0; st < 3; ++st) {   // stage 0: pool function fails, 1: output worker fails, 2: as 0 with a wait before close
		const int stage = st % 2; const bool mid = st == 2;
		if(st && q.n > 2 + mid) continue;
		Config c; c.mode = (Mode)q.mode; c.max_bound = q.bound; c.terminate_ok = true; c.time_cap = thorough ? 100 : 8;
		const int k = q.k, n = q.n, bad = q.bad;
		add(std::string("C03/pool") + (stage ? "-out" : mid ? "-wait" : "") + S(k) + "/" + S(n) + "-" + S(bad), c, [=] {
			Ints done; bool reported = false; std::string what;
			Thread<V>* out = new Thread<V>([&](V& x) { int i = id_of(x); visible(&L1); if(stage == 1 && i == bad) throw std::runtime_error("boom"); done.push(i); });
			auto pool = new ThreadPool<V, V>([&](V& x, V& y, size_t&) { int i = id_of(x); if(stage == 0 && i == bad) throw std::runtime_error("boom"); y = x; }, out, k);
			try {
				for(int i = 0; i < n; ++i) { V v = mk(i); pool->take(v); }
				if(mid) { pool->wait(); MC_CHECK(false, "pool wait returned normally although item %d failed", bad); }
				pool->close();
				if(stage == 0) MC_CHECK(false, "pool close returned normally although item %d failed", bad);
				out->close();
				MC_CHECK(false, "close of the output worker returned normally although item %d failed", bad);
			} catch(const std::exception& e) { reported = true; what = e.what(); }
			MC_CHECK(reported, "failure not reported");
			// unwind like the library does: destructors of the failed stages
			add_counter(0, 1);
			visible(&L1);
			for(int q = 0; q < done.size(); ++q) MC_CHECK(done.at(q) < bad, "result %d delivered although item %d before it failed", done.at(q), bad);
			delete pool;        // must not hang (it reports the failure again by terminating)
			delete out;
			MC_CHECK(stage == 1, "failure silently forgotten by the destructor");
		}, [](const char*) {});
	}
}
void mc::register_scenarios(const std::string& tier) {
	bool th = tier == "thorough";
	reg_thread(th); reg_pool(th); reg_fail(th);
}
