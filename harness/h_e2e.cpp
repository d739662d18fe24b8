// The four phases end to end on the virtual file system, with the finished plot decoded by the independent reference.
#include "mc.h"
#include "../ref/ref.h"
#include "ph.h"
#include <set>
using namespace mc;
static std::string S(long v) { return std::to_string(v); }
#ifdef CHIA_MC_SCALE
static ref::Fmt FMT = [] { ref::Fmt f; f.epp = MC_EPP; f.delta1 = MC_D1; f.delta = MC_D; f.c1 = MC_C1; f.c2 = MC_C2; f.c3bits = MC_C3B; return f; }();
#define BUILD_TAG "scaled"
#else
static ref::Fmt FMT;
#define BUILD_TAG "full"
#endif
#ifdef CHIA_K34
#define KTAG "k34"
#else
#define KTAG "k32"
#endif
struct Want { ref::Proofs proofs; uint64_t n[8]; std::string why; };
static std::map<std::pair<int, int>, Want> WANT;   // (k, id) -> proofs
static std::array<uint8_t, 32> make_id(int n) { std::array<uint8_t, 32> a; uint32_t x = 77 + n * 1000003u; for(auto& c : a) { x = x * 1664525 + 1013904223; c = x >> 24; } if(n == 1) a.fill(0); if(n == 2) a.fill(0xFF); return a; }
static void expect(int k, int idn) {
	if(WANT.count({k, idn})) return;
	auto id = make_id(idn); auto F = ref::forward(k, id.data()); Want w; w.proofs = F.proofs;
	// entries that lead to table 7
	std::vector<bool> used(F.t[7].size(), true); w.n[7] = F.t[7].size();
	for(int t = 7; t >= 2; --t) { std::vector<bool> u(F.t[t - 1].size()); for(size_t i = 0; i < F.t[t].size(); ++i) if(used[i]) { u[F.t[t][i].l] = true; u[F.t[t][i].r] = true; } used.swap(u); w.n[t - 1] = std::count(used.begin(), used.end(), true); }
	WANT[{k, idn}] = w;
}
// number of entries of plot tables: plot table t (1..6) holds the pairs of table t+1's entries
struct Cfg { int k = 11, id = 0, nt = 1, lg = 2, lg3 = 2, rc = 64, wc = 16, mul = 1, memo = 128; };
static const char* T1 = "tmp1/"; static const char* T2 = "tmp2/"; static const char* FIN = "final/";
static std::string PLOT = "plot-k";
static bool g_two_tmp = true;
static void plot(const Cfg& c, phase4::output_t& o4) {
	g_read_chunk_size = c.rc; g_write_chunk_size = c.wc; phase2::g_thread_multi = c.mul;
	phase1::input_t in; in.k = c.k; in.id = make_id(c.id); in.memo.resize(c.memo); for(int i = 0; i < c.memo; ++i) in.memo[i] = i * 7 + c.id; in.plot_name = "plot-k";
	const std::string name = "plot-k", a = T1, b = g_two_tmp ? T2 : T1;
	phase1::output_t o1; run_phase1(in, o1, c.nt, c.lg, name, a, b);
	phase2::output_t o2; run_phase2(o1, o2, c.nt, c.lg3, name, a, b);
	phase3::output_t o3; run_phase3(o2, o3, c.nt, c.lg3, name, a, b, FIN);
	run_phase4(o3, o4, c.nt, c.lg3, name, a, b, FIN);
}
static void setup() { Host h; vfs::add_dir("tmp1"); vfs::add_dir("tmp2"); vfs::add_dir("final"); for(auto d : {"tmp1/", "tmp2/", "final/"}) { vfs::write(std::string(d) + "plot-x.p1.t1.sort_bucket_0.tmp", "other plot"); vfs::write(std::string(d) + "notes.txt", "mine"); vfs::write(std::string(d) + "plot-k2.plot", "older plot"); } }
static std::string check_plot(const Cfg& c, const std::string& bytes) {
	auto& w = WANT[{c.k, c.id}]; uint64_t n[8] = {}; n[7] = w.n[7]; for(int t = 1; t <= 6; ++t) n[t] = w.n[t + 1];
	ref::Plot P; if(!ref::decode_all(P, bytes, FMT, n)) return P.err;
	if(P.k != c.k) return "k in the header is " + S(P.k);
	auto id = make_id(c.id); if(memcmp(P.id.data(), id.data(), 32)) return "wrong id in the header";
	if(P.desc != "v1.0") return "wrong format description";
	if((int)P.memo.size() != c.memo) return "memo length"; for(int i = 0; i < c.memo; ++i) if(P.memo[i] != (uint8_t)(i * 7 + c.id)) return "wrong memo";
	ref::Proofs got; if(!ref::proofs_of(P, got)) return P.err;
	if(got != w.proofs) { std::vector<std::pair<uint64_t, uint64_t>> miss, extra; std::set_difference(w.proofs.begin(), w.proofs.end(), got.begin(), got.end(), std::back_inserter(miss)); std::set_difference(got.begin(), got.end(), w.proofs.begin(), w.proofs.end(), std::back_inserter(extra)); return S(miss.size()) + " of " + S(w.proofs.size()) + " existing proofs missing, " + S(extra.size()) + " entries are not proofs"; }
	return "";
}
static void check_files(bool plot_ok) {
	std::set<std::string> allow; for(auto d : {"tmp1/", "tmp2/", "final/"}) for(auto f : {"plot-x.p1.t1.sort_bucket_0.tmp", "notes.txt", "plot-k2.plot"}) allow.insert(std::string(d) + f);
	for(auto& f : allow) MC_CHECK(vfs::exists(f), "unrelated file %s was removed", f.c_str());
	for(auto& f : vfs::list()) { if(allow.count(f)) { auto s = vfs::read(f); MC_CHECK(s == "other plot" || s == "mine" || s == "older plot", "unrelated file %s was modified", f.c_str()); continue; }
		if(f == "final/plot-k.plot") continue;
		if(plot_ok) fail("temporary file %s left behind after a successful run", f.c_str()); }
}
static Config base(bool th) { Config c; c.mode = DELAY; c.max_bound = 0; c.fork_exec = true; c.time_cap = th ? 600 : 40; c.races = false; c.file_points = false; c.max_steps = 10000000; return c; }
static void full_run(const Cfg& c, bool first = true) {
	{ Host h; expect(c.k, c.id); }
	if(first) setup();
	phase4::output_t o;
	plot(c, o);
	Host h;
	MC_CHECK(o.plot_file_name == "final/plot-k.plot", "reported plot name is %s", o.plot_file_name.c_str());
	MC_CHECK(vfs::exists("final/plot-k.plot"), "plotting returned normally but the plot does not exist");
	auto e = check_plot(c, vfs::read("final/plot-k.plot"));
	MC_CHECK(e.empty(), "k=%d id=%d threads=%d buckets=2^%d/2^%d read chunk=%d write chunk=%d multi=%d: %s", c.k, c.id, c.nt, c.lg, c.lg3, c.rc, c.wc, c.mul, e.c_str());
	outcome(hash_bytes(vfs::read("final/plot-k.plot").data(), vfs::read("final/plot-k.plot").size()));
	check_files(true);
}

static void observe_files() {
	Host h;
	vfs::set_observe([](const vfs::Op& o, int) {
		auto own = [](const std::string& p) { for(auto d : {"tmp1/plot-k.", "tmp2/plot-k.", "final/plot-k."}) if(p.compare(0, strlen(d), d) == 0) return true; return false; };
		if(o.kind == vfs::OPEN_R || o.kind == vfs::READ || o.kind == vfs::STAT || o.kind == vfs::SEEK || o.kind == vfs::CLOSE || o.kind == vfs::FLUSH) return;
		MC_CHECK(own(o.path) && (o.kind != vfs::RENAME || own(o.path2)), "%s of %s %s: not a file of this plot in a configured directory", vfs::op_names[o.kind], o.path.c_str(), o.path2.c_str());
		if(o.path.compare(0, 6, "final/") == 0 && o.kind == vfs::OPEN_W) MC_CHECK(o.path != "final/plot-k.plot", "the plot is written under its final name before it is complete");
	});
}
struct FS { Cfg c; long n = 0, target = -1, nfault = 0; vfs::OpKind kind; std::string what; bool late = false; };
static FS* G;
static void fault_end(const char* how) {
	Host h;
	auto w = "after fault (" + G->what + "), run ended with " + how + ": ";
	bool success = !strcmp(how, "success");
	if(vfs::exists("final/plot-k.plot")) { auto e = check_plot(G->c, vfs::read("final/plot-k.plot")); MC_CHECK(e.empty(), "%sthe published plot is wrong: %s", w.c_str(), e.c_str()); }
	else MC_CHECK(!success, "%ssuccess was reported but no plot was published", w.c_str());
	check_files(false);
	outcome(success ? 1 : 2);
}
// every fault position in [lo, hi): two digits of 64 in front of the run, the kind of failure where it hits
static void reg_faults(bool th, const Cfg& c, const std::string& tag, int blocks, int step = 1) {
	for(int b = 0; b < blocks; ++b) {
		Config f = base(th); f.terminate_ok = true; f.time_cap = th ? 900 : 120; f.deadlock_ok = false;
		add("C13/e2e/" KTAG "/" + tag + "/b" + S(b), f, [=] {
			FS* fs; { Host h; fs = new FS; fs->c = c; } G = fs;
			fs->target = (long)b * 64 * step + choose(64, "fault position") * step;
			setup();
			{ Host h; vfs::set_fault([](const vfs::Op& o) -> int {
				if(o.path.compare(0, 5, "/dev/") == 0) return 0;
				if(G->n++ != G->target) return 0;
				int c = o.kind == vfs::WRITE || o.kind == vfs::READ ? choose(2, "kind") : 0;
				G->nfault++; add_counter(31, 1); G->what = std::string(vfs::op_names[o.kind]) + " " + o.path + (c ? " short" : "") + " #" + std::to_string(G->n - 1);
				return c ? (o.kind == vfs::READ ? -2 : -1) : o.kind == vfs::WRITE ? ENOSPC : EIO; }); }
			phase4::output_t o; bool ok = false;
			try { plot(c, o); ok = true; } catch(const std::exception& e) { }
			fault_end(ok ? "success" : "an exception");
			if(!ok && !G->nfault) fail("plotting failed although no file operation failed");
		}, [](const char* how) { if(strcmp(how, "return")) { if(!G->nfault) fail("the process terminated although no file operation failed"); fault_end(how); } });
	}
}
// several plots by one process, the later ones possibly over the leftovers of a run that was killed
static std::set<std::string>* OPENED;
static void again(std::vector<Cfg> cs, int junk) {
	{ Host h; OPENED = new std::set<std::string>; }
	for(size_t i = 0; i < cs.size(); ++i) {
		if(i == 0) { setup(); Host h; vfs::set_observe([](const vfs::Op& o, int) { if(o.kind == vfs::OPEN_W) OPENED->insert(o.path); }); }
		full_run(cs[i], false);
		Host h; vfs::set_observe(nullptr);
		if(i + 1 < cs.size()) { vfs::erase("final/plot-k.plot"); if(junk) for(auto& f : *OPENED) if(f != "final/plot-k.plot") vfs::write(f, junk == 1 ? std::string(1000, 'j') : junk == 2 ? std::string(3000000, '\0') : ""); }
	}
}
static void reg(bool th) {
	const bool scaled = !strcmp(BUILD_TAG, "scaled");
	std::vector<int> ids = scaled ? std::vector<int>{2, 4, 22, 33} : std::vector<int>{227, 224, 76, 309};
	const int ka = scaled ? 13 : 12;
	for(int id : ids) expect(ka, id);
	Config c = base(th);
	for(int id : ids) for(int sd : scheds(th)) { Config d = c; d.sched_default = sd;
		add("C12/ids/" KTAG "/" BUILD_TAG "/id" + S(id) + "d" + S(sd), d, [=] { Cfg x; x.k = ka; x.id = id; static const int NT[] = {1, 2, 3}; x.nt = NT[choose(3, "threads")]; x.rc = 200; x.wc = 50; full_run(x); }); }
	for(int k : scaled ? std::vector<int>{14} : th ? std::vector<int>{14, 15, 16} : std::vector<int>{15, 16}) { Config d = c; d.sched_default = 1;
		for(int i = 0; i < 2; ++i) add("C12/size/" KTAG "/" BUILD_TAG "/k" + S(k) + "id" + S(i), d, [=] { Cfg x; x.k = k; x.id = i; x.nt = 2; x.lg = i ? 6 : 3; x.lg3 = i ? 6 : 4; x.rc = 5000; x.wc = i ? 30 : 1000; full_run(x); }); }
	if(th) for(int id : ids) for(int sd : {0, 1}) { Config d = c; d.sched_default = sd; d.max_bound = 1; d.time_cap = 400; add("C12/sched/" KTAG "/" BUILD_TAG "/id" + S(id) + "d" + S(sd), d, [=] { Cfg x; x.k = ka; x.id = id; x.nt = 2; x.rc = 400; x.wc = 200; full_run(x); }); }
	for(int junk = 0; junk < 4; ++junk) { if(!th && (junk == 3 || (!scaled && junk == 1))) continue; Config d = c; d.sched_default = 1; d.time_cap = th ? 600 : 60;
		add("C12/again/" KTAG "/" BUILD_TAG "/junk" + S(junk), d, [=] { Cfg x; x.k = ka; x.nt = 2; x.rc = 200; x.wc = 50; int a = choose(th ? 4 : 2, "first"), b = choose(th ? 4 : 2, "second"); Cfg y = x; x.id = ids[a]; y.id = ids[b]; y.memo = 112; y.lg3 = 3; y.nt = 1; again({x, y, x}, junk); }); }
	// C23: the full product of configurations
	for(int nt : {1, 2, 5, 13}) for(int lg : {1, 4}) { Config d = c; d.time_cap = th ? 600 : 60;
		add("C23/config/" KTAG "/" BUILD_TAG "/t" + S(nt) + "b" + S(lg), d, [=] {
			Cfg x; x.k = ka; x.id = ids[choose(th ? 3 : 1, "id")]; x.nt = nt; x.lg = lg; static const int L3[] = {2, 5, 0}; x.lg3 = L3[choose(th ? 3 : 2, "log buckets 3")]; static const int RC[] = {65536, 100, 7}; x.rc = RC[choose(3, "read chunk")]; static const int WC[] = {4096, 13, 1}; x.wc = WC[choose(th ? 3 : 2, "write chunk")]; x.mul = 1 + choose(4, "multi"); full_run(x); }); }
	// C15
	for(int two = 0; two < 2; ++two) for(int nt : {1, 3}) { Config d = c; add("C15/e2e/" KTAG "/" BUILD_TAG "/tmp" + S(two) + "t" + S(nt), d, [=] { g_two_tmp = two; observe_files(); Cfg x; x.k = ka; x.id = ids[choose(2, "id")]; x.nt = nt; x.lg = 1 + choose(2, "buckets"); full_run(x); }); }
	if(!scaled) { Cfg x; x.k = 12; x.id = 227; x.nt = 1; x.lg = 0; x.lg3 = 0; x.rc = 65536; x.wc = 4096; reg_faults(th, x, "t1", 9); Cfg y = x; y.nt = 2; y.lg = 1; y.lg3 = 1; y.rc = 1000; y.wc = 500; reg_faults(th, y, "t2", th ? 40 : 13); }
}
void mc::register_scenarios(const std::string& tier) { for(int t = 1; t <= 6; ++t) ref::dtable(ref::R_TABLE[t]); ref::dtable(ref::R_C3); reg(tier == "thorough"); }
