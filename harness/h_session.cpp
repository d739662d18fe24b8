// C19 / C20 / C15: whole sessions of the real main() (option parsing, key derivation, plot loop, copy thread, signal handler)
// with scripted phases, on the virtual file system and clock.
#include "mc.h"
#include "../stubs_s/bls.hpp"
#include <chia/settings.h>
#include <cstring>
#include <csignal>
#include <ctime>
#include <set>
#include <algorithm>
#include <unistd.h>
#include <sys/resource.h>
using namespace mc;
int plotter_main(int argc, char** argv); int session_thread_multi(); extern bool gracefully_exit; extern int64_t interrupt_timestamp;
extern "C" int setrlimit(__rlimit_resource_t, const struct rlimit*) noexcept { return 0; }
extern "C" int setrlimit64(__rlimit_resource_t, const struct rlimit64*) noexcept { return 0; }
static std::string S(long v) { return std::to_string(v); }
static std::string hexs(const std::vector<uint8_t>& v) { return bls::Util::HexStr(v); }
typedef std::vector<uint8_t> bytes;
typedef std::vector<std::string> Args;
#ifdef CHIA_K34
static const int BIGK = 34;
#else
static const int BIGK = 32;
#endif
struct Rec { int k = 0, last = 0, nt = 0, lg[5] = {}; std::string id, name, tmp, tmp2, out, content; bytes memo, seed; };
struct St {
	std::vector<Rec> plots; bytes seed; int nrand = 0;
	bool interrupted = false, doubled = false; uint64_t first_ns = 0, prev_ns = 0;
	int sig = 0;            // 0: none, 1: single interrupts, 2: also immediate doubles
	int stop_at = -1;       // interrupt in this plot, always
	int throw_at = -1;      // phase 2 of this plot fails
	int faults = 0, nfault = 0; bool wait = false; std::string final_dir;
	bool later_sig = false; std::vector<std::string> pre; bool need_slow = false;
};
static St* G;
static void sig_point(const char* where) {
	if(!G->sig || !has_handler(SIGINT)) return;
	if(G->interrupted && !G->later_sig) return;
	int c = choose(G->sig == 2 ? 4 : 3, where, 1); if(!c) return;
	G->interrupted = true; add_counter(30, 1);
	raise_signal(c == 2 ? SIGTERM : SIGINT);
	if(c == 3) { G->doubled = true; raise_signal(SIGINT); fail("a second Ctrl-C within a second did not end the process"); }
}
void toy::on_random(uint8_t* p, size_t n) { Host h; uint32_t x = 99 + 7919 * ++G->nrand; for(size_t i = 0; i < n; ++i) { x = x * 1664525 + 1013904223; p[i] = x >> 24; } G->seed.assign(p, p + n); }
static std::string content(const Rec& r) { std::string s = "PLOT " + r.id + " k" + S(r.k) + " " + hexs(r.memo); s.resize(700, '#'); return s; }
void session_phase(int phase, int k, const uint8_t* id, size_t idn, const bytes& memo, const std::string& pname, int nt, int lg, const std::string& name, const std::string& tmp, const std::string& tmp2, const std::string& out) {
	yield_point("phase");
	{
		Host h; St& s = *G;
		if(phase == 1) {
			MC_CHECK(s.plots.empty() || s.plots.back().last == 4, "a plot was started before the previous one was finished");
			MC_CHECK(!s.interrupted, "plot %zu was started after the interrupt", s.plots.size() + 1);
			if(s.wait) for(auto& p : s.plots) MC_CHECK(vfs::exists(s.final_dir + p.name + ".plot") && vfs::read(s.final_dir + p.name + ".plot") == p.content, "waitforcopy: the next plot was started before plot %s arrived in the final directory", p.name.c_str());
			Rec r; r.k = k; r.id.assign((const char*)id, idn); r.id = bls::Util::HexStr(id, idn); r.memo = memo; r.name = name; r.tmp = tmp; r.tmp2 = tmp2; r.nt = nt; r.seed = s.seed;
			for(auto& p : s.plots) MC_CHECK(p.name != name, "two plots with the same name");
			s.plots.push_back(r);
		}
		Rec& r = s.plots.back();
		MC_CHECK(phase == r.last + 1, "phase %d after phase %d", phase, r.last); r.last = phase; r.lg[phase] = lg;
		MC_CHECK(r.k == k && bls::Util::HexStr(id, idn) == r.id && r.memo == memo && r.name == name && pname == name && r.nt == nt && r.tmp == tmp && r.tmp2 == tmp2, "phase %d gets other parameters than phase 1", phase);
		if(phase == 3) { r.out = out; vfs::write(out + name + ".plot.tmp", "partial"); }
		if(phase == 4) { MC_CHECK(r.out == out, "phase 4 gets another directory than phase 3"); r.content = content(r); vfs::erase(out + name + ".plot.tmp"); vfs::write(out + name + ".plot", r.content); }
	}
	advance_clock(2000000000ull);
	if(G->throw_at == (int)G->plots.size() && phase == 2) throw std::runtime_error("disk failure");
	if(G->stop_at == (int)G->plots.size() && phase == 1 && !G->interrupted) { G->interrupted = true; raise_signal(SIGINT); return; }
	sig_point("signal");
}
static int run(const Args& a) {   // exit status, 1000 = exception out of main
	std::vector<char*> v; for(auto& s : a) v.push_back(const_cast<char*>(s.c_str())); v.push_back(nullptr);
	g_read_chunk_size = 8;
	try { return plotter_main((int)a.size(), v.data()); } catch(const std::exception& e) { msg("main threw %s", e.what()); return 1000; }
}
// ---------------------------------------------------------------- keys
static bytes key48(int n) { bytes b(48); for(int i = 0; i < 48; ++i) b[i] = i * 17 + n * 101 + 3; b[0] = 0xA0 | (n & 0x1F); return b; }
static bytes hash32(int n) { bytes b(32); for(int i = 0; i < 32; ++i) b[i] = i * 29 + n * 53 + 200; return b; }
static std::string bech32_enc(const std::string& hrp, const bytes& data, uint32_t konst = 0x2bc830a3, int extra = 0) {
	static const char* CH = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"; std::vector<int> d; int acc = 0, n = 0; for(auto c : data) { acc = acc << 8 | c; n += 8; while(n >= 5) { n -= 5; d.push_back(acc >> n & 31); } acc &= (1 << n) - 1; } if(n) d.push_back(acc << (5 - n) & 31); for(int i = 0; i < extra; ++i) d.push_back(0); if(extra < 0) d.resize(d.size() + extra);
	auto poly = [](const std::vector<int>& v) { uint32_t c = 1; static const uint32_t G[5] = {0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}; for(auto x : v) { uint32_t t = c >> 25; c = (c & 0x1ffffff) << 5 ^ x; for(int i = 0; i < 5; ++i) if(t >> i & 1) c ^= G[i]; } return c; };
	std::vector<int> v; for(char c : hrp) v.push_back(c >> 5); v.push_back(0); for(char c : hrp) v.push_back(c & 31); v.insert(v.end(), d.begin(), d.end()); for(int i = 0; i < 6; ++i) v.push_back(0);
	uint32_t m = poly(v) ^ konst; for(int i = 0; i < 6; ++i) d.push_back(m >> 5 * (5 - i) & 31);
	std::string s = hrp + "1"; for(auto x : d) s += CH[x]; return s;
}
static bytes cat(const bytes& a, const bytes& b) { bytes r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
static bytes sha(const bytes& a) { bytes r(32); toy::sha256(r.data(), a.data(), a.size()); return r; }
static bytes padd(const bytes& a, const bytes& b) { toy::P x, y; memcpy(x.b, a.data(), 48); memcpy(y.b, b.data(), 48); auto r = toy::add(x, y); return bytes(r.b, r.b + 48); }
static bytes pub(const bytes& sk) { auto r = toy::from_sk(sk.data()); return bytes(r.b, r.b + 48); }
static std::string want_id(const bytes& seed, const bytes& farmer, const bytes& pool, bool contract, int port, bool unique, bytes& master) {
	master.assign(32, 0); toy::keygen(master.data(), seed.data(), seed.size()); bytes sk = master; for(uint32_t i : {12381u, (uint32_t)port, 3u, 0u}) { bytes n(32); toy::child(n.data(), sk.data(), i); sk = n; }
	bytes local = pub(sk), plot = padd(local, farmer);
	if(contract) { bytes h = sha(cat(cat(plot, local), farmer)), t(32); toy::keygen(t.data(), h.data(), 32); plot = padd(plot, pub(t)); }
	bytes id = sha(cat(pool, plot)); if(unique) { uint32_t p = port; bytes le = {(uint8_t)p, (uint8_t)(p >> 8), (uint8_t)(p >> 16), (uint8_t)(p >> 24)}; id = sha(cat(id, le)); }
	return hexs(id);
}
static void check_name(const Rec& r, int k, int port, uint64_t t0, uint64_t t1) {
	std::string pre = std::string("plot") + (port == 11337 ? "-mmx" : "") + "-k" + S(k) + "-";
	MC_CHECK(r.name.size() == pre.size() + 16 + 1 + 64 && r.name.compare(0, pre.size(), pre) == 0 && r.name.compare(pre.size() + 16, std::string::npos, "-" + r.id) == 0, "file name %s", r.name.c_str());
	bool ok = false; for(uint64_t t : {t0, t1}) for(int u = 0; u < 2; ++u) { time_t x = t / 1000000000ull; tm b; if(u) gmtime_r(&x, &b); else localtime_r(&x, &b); char s[64]; strftime(s, sizeof s, "%Y-%m-%d-%H-%M", &b); if(r.name.compare(pre.size(), 16, s) == 0) ok = true; }
	MC_CHECK(ok, "date in the file name %s is not the time of the plot", r.name.c_str());
}
static Args base_args(int n = 1, int k = BIGK) { return {"chia_plot", "-k", S(k), "-n", S(n), "-r", "2", "-u", "16", "-f", hexs(key48(1)), "-p", hexs(key48(2))}; }
static void dirs() { Host h; for(auto d : {"d", "e", "e/x", "d/T1", "e/x/T2", "ST"}) vfs::add_dir(d, 0); vfs::add_dir("FS", 0); vfs::add_dir("FX", 1); for(auto d : {"d/T1/", "e/x/T2/", "ST/", "FS/", "FX/"}) { vfs::write(std::string(d) + "other.plot", "other"); vfs::write(std::string(d) + "plot-k32-old.plot.tmp", "old"); } G->pre = vfs::list(); }
static void init() { { Host h; G = new St; G->prev_ns = now_ns(); } gracefully_exit = false; interrupt_timestamp = 0; phase2::g_thread_multi = 1; dirs(); }
static void untouched() { for(auto& f : G->pre) MC_CHECK(vfs::exists(f) && (vfs::read(f) == "other" || vfs::read(f) == "old"), "unrelated file %s was changed or removed", f.c_str()); }
static void own_files() {
	Host h; vfs::set_observe([](const vfs::Op& o, int) {
		if(o.kind == vfs::OPEN_R || o.kind == vfs::READ || o.kind == vfs::STAT || o.kind == vfs::SEEK || o.kind == vfs::CLOSE || o.kind == vfs::FLUSH) return;
		auto own = [](const std::string& p) { size_t k = p.rfind('/'); if(k == std::string::npos) return false; std::string d = p.substr(0, k + 1), b = p.substr(k + 1); static const std::set<std::string> D = {"d/T1/", "e/x/T2/", "ST/", "FS/", "FX/"}; if(!D.count(d)) return false; if(b.compare(0, 10, ".chia_plot") == 0) return true; for(auto& r : G->plots) if(b.compare(0, r.name.size() + 5, r.name + ".plot") == 0) return true; return false; };
		MC_CHECK(own(o.path) && (o.kind != vfs::RENAME || own(o.path2)), "%s of %s %s: not a file of this session", vfs::op_names[o.kind], o.path.c_str(), o.path2.c_str()); });
}
struct Opt { int n = 1, d = 0, s = 0, t2 = 0; bool G_ = false, D = false, w = false; };
static std::string fin_of(const Opt& o) { return o.d == 1 ? "FS/" : o.d == 2 ? "FX/" : "d/T1/"; }
static Args args_of(const Opt& o) { Args a = base_args(o.n); a.insert(a.end(), {"-t", "d/T1/"}); if(o.t2) a.insert(a.end(), {"-2", "e/x/T2/"}); if(o.d) a.insert(a.end(), {"-d", fin_of(o)}); if(o.s) a.insert(a.end(), {"-s", o.s == 1 ? "ST/" : fin_of(o)}); if(o.G_) a.push_back("-G"); if(o.D) a.push_back("-D"); if(o.w) a.push_back("-w"); return a; }
static void check_delivered(const Opt& o, bool must) {   // must: session ended normally
	St& s = *G; const std::string fin = fin_of(o), stage = o.D || o.s == 2 ? fin : o.s ? "ST/" : "d/T1/", t2 = o.t2 ? "e/x/T2/" : "d/T1/";
	std::set<std::string> allow(s.pre.begin(), s.pre.end());
	for(size_t i = 0; i < s.plots.size(); ++i) { auto& p = s.plots[i]; if(p.last < 4) continue;
		const bool sw = o.G_ && i % 2; MC_CHECK(p.tmp == (sw ? t2 : "d/T1/") && p.tmp2 == (sw ? "d/T1/" : t2), "plot %zu uses temporary directories %s and %s", i + 1, p.tmp.c_str(), p.tmp2.c_str());
		int found = 0, partial = 0; std::string where;
		for(auto& f : vfs::list()) if(f.find(p.name) != std::string::npos) {
			if(f.size() > 5 && f.substr(f.size() - 5) == ".plot") { MC_CHECK(vfs::read(f) == p.content, "%s is not complete", f.c_str()); ++found; where = f; allow.insert(f); } else { ++partial; if(!must) allow.insert(f); if(vfs::read(f) == p.content && !must) ++found; } }
		if(must) {
			MC_CHECK(found == 1, "plot %zu exists %d times after the session", i + 1, found);
			const bool loose = o.G_ && fin == "d/T1/";
			if(!loose) { MC_CHECK(where == fin + p.name + ".plot", "plot %zu ended up as %s, final directory is %s", i + 1, where.c_str(), fin.c_str()); MC_CHECK(p.out == stage, "plot %zu was written to %s instead of %s", i + 1, p.out.c_str(), stage.c_str()); }
			else MC_CHECK(where == "d/T1/" + p.name + ".plot" || where == t2 + p.name + ".plot", "plot %zu ended up as %s", i + 1, where.c_str());
		} else MC_CHECK(found >= 1, "the finished plot %zu is lost", i + 1);
	}
	if(must) for(auto& f : vfs::list()) MC_CHECK(allow.count(f), "file %s left behind", f.c_str());
	untouched();
}
static Opt* O;
static void session(const Opt& o, int nfaults) {
	{ Host h; O = new Opt(o); St& s = *G; s.final_dir = fin_of(o); s.wait = o.w && !(o.G_ && s.final_dir == "d/T1/"); s.faults = nfaults; }
	own_files();
	if(nfaults) { Host h; vfs::set_fault([](const vfs::Op& op) -> int { if(op.path.find("/plot-k") == std::string::npos || G->nfault >= G->faults || op.kind == vfs::REMOVE) return 0; int c = choose(2, "fault", 1); if(!c) return 0; G->nfault++; add_counter(31, 1); return op.kind == vfs::WRITE ? ENOSPC : EIO; }); }
	int rc = run(args_of(o));
	Host h; St& s = *G;
	MC_CHECK(rc == 0, "the session returned %d", rc);
	if(!s.interrupted) MC_CHECK((int)s.plots.size() == o.n, "%zu plots made, %d requested", s.plots.size(), o.n);
	MC_CHECK(o.n < 0 || (int)s.plots.size() <= o.n, "%zu plots made, %d requested", s.plots.size(), o.n);
	for(auto& p : s.plots) MC_CHECK(p.last == 4, "the session ended in the middle of a plot");
	check_delivered(o, true);
	for(auto& p : s.plots) { MC_CHECK(p.k == BIGK && p.nt == 2 && p.lg[1] == 4 && p.lg[3] == 4 && p.lg[4] == 4, "wrong parameters"); for(auto& q : s.plots) if(&p != &q) MC_CHECK(p.id != q.id, "two plots with the same id"); }
	outcome(s.plots.size() * 7 + s.nfault);
}
static void at_end(const char* how) {   // other ends than a return
	if(!strcmp(how, "return")) return;
	Host h; if(G->doubled) MC_CHECK(strncmp(how, "exit:", 5) == 0 && strcmp(how, "exit:0"), "double Ctrl-C ends the process with %s", how);
	else if(G->throw_at >= 0) MC_CHECK(strcmp(how, "exit:0"), "a failed plot ends the process with %s", how);
	else fail("the session ended with %s", how);
	check_delivered(*O, false);
}
static Opt pick_opt(int n) { Opt o; o.n = n; int m = choose(4 * 3 * 2 * 2, "directories"); o.d = m % 4; m /= 4; o.s = m % 3; m /= 3; o.t2 = m % 2; m /= 2; o.D = m; int f = choose(3, "flags"); o.w = f == 1; o.G_ = f == 2; if(o.G_) o.s = 0; return o; }
static void expect_rejected(const Args& a, const char* what) {
	init(); own_files();
	int rc = run(a);
	Host h; MC_CHECK(rc != 0, "%s: accepted (status 0)", what); MC_CHECK(G->plots.empty(), "%s: plotting was started", what); untouched();
	for(auto& f : vfs::list()) MC_CHECK(std::find(G->pre.begin(), G->pre.end(), f) != G->pre.end(), "%s: left file %s behind", what, f.c_str());
}
static Args with(Args a, const std::string& o, const std::string& v) { for(size_t i = 1; i + 1 < a.size(); ++i) if(a[i] == o) { if(v == "\x01") { a.erase(a.begin() + i, a.begin() + i + 2); return a; } a[i + 1] = v; return a; } a.push_back(o); a.push_back(v); return a; }
static void reg(bool th) {
#ifdef H_RACE
	for(int n : {1, 3}) for(int sd : scheds(th)) for(int d = 0; d < 3; ++d) { Config c; c.mode = DELAY; c.fork_exec = true; c.file_points = true; c.sched_default = sd; c.max_bound = th ? 2 : 1; c.time_cap = th ? 100 : 10; add("C22/session/n" + S(n) + "f" + S(d) + "d" + S(sd), c, [=] { init(); Opt o; o.n = n; o.d = d; o.w = choose(2, "wait"); session(o, 0); }, at_end); }
	return;
#endif
	Config base; base.mode = DELAY; base.fork_exec = true; base.races = false; base.file_points = true; base.time_cap = th ? 300 : 25;
	for(int n : {1, 2, 3}) for(int sd : scheds(th)) { Config c = base; c.sched_default = sd; c.max_bound = n < 3 || th ? 1 : 0; if(th && n == 2) c.max_bound = 2; add("C19/options/n" + S(n) + "d" + S(sd), c, [=] { init(); session(pick_opt(n), 0); }, at_end); }
	for(int sd : {0, 1, 5}) for(int d : {0, 1, 2}) { Config c = base; c.sched_default = sd; c.max_bound = th ? 3 : 2;
		add("C19/interrupt/d" + S(d) + "s" + S(sd), c, [=] { init(); G->sig = 2; Opt o; o.n = 3; o.d = d; o.w = choose(2, "wait"); session(o, 0); }, at_end);
		add("C19/infinite/d" + S(d) + "s" + S(sd), c, [=] { init(); G->sig = 1; G->later_sig = true; G->stop_at = 1 + choose(3, "stop"); Opt o; o.n = -1; o.d = d; session(o, 0); Host h; MC_CHECK((int)G->plots.size() <= G->stop_at, "plots after the interrupt"); }, at_end); }
	for(int sd : {0, 1, 2, 5}) for(int d : {1, 2}) { Config c = base; c.sched_default = sd; c.max_bound = th ? 3 : 2;
		add("C19/copy-faults/d" + S(d) + "s" + S(sd), c, [=] { init(); Opt o; o.n = 2; o.d = d; o.s = choose(2, "stage"); o.w = choose(2, "wait"); session(o, th ? 3 : 2); }, at_end); }
	// the destination is unusable for a long time: any number of failed attempts, hours apart
	for(int d : {1, 2}) { Config c = base; c.max_bound = 0; c.sched_default = d % 2;
		add("C19/outage/d" + S(d), c, [=] { init(); static const int M[] = {1, 2, 3, 4, 5, 8, 13, 40, 300}; static int left; left = M[choose(9, "failures")]; Opt o; o.n = 1 + choose(2, "plots"); o.d = d; o.s = choose(2, "stage"); o.w = choose(2, "wait");
			{ Host h; vfs::set_fault([](const vfs::Op& op) -> int { if((op.kind != vfs::OPEN_W && op.kind != vfs::RENAME) || op.path.find("/plot-k") == std::string::npos || (op.path + op.path2).find(G->final_dir) == std::string::npos || left <= 0) return 0; if(op.kind == vfs::RENAME && G->final_dir == "FX/") return 0; --left; add_counter(31, 1); return EIO; }); }
			session(o, 0); }, at_end); }
	for(int d : {0, 1, 2}) { Config c = base; c.max_bound = 1; c.terminate_ok = true; c.sched_default = d % 2;
		add("C19/failed-plot/d" + S(d), c, [=] { init(); G->throw_at = 1 + choose(3, "plot"); Opt o; o.n = 3; o.d = d; { Host h; O = new Opt(o); } own_files(); int rc = run(args_of(o)); Host h; MC_CHECK(rc != 0, "a failed plot is reported as success"); MC_CHECK((int)G->plots.size() == G->throw_at, "%zu plots started", G->plots.size()); check_delivered(o, false); }, at_end); }
	{ Config c = base; c.file_points = false; c.max_bound = 0;
		Config ci = c; ci.time_cap = 120;   // a wrongly accepted bucket count opens 2^17 files
		add("C19/invalid", ci, [=] {
			Args v = with(base_args(2), "-t", "d/T1/"); struct I { const char *o, *v; };
			static const I L[] = {{"-k", "15"}, {"-k", BIGK == 32 ? "33" : "35"}, {"-k", "0"}, {"-k", "-1"}, {"-k", "64"}, {"-k", "x"}, {"-r", "0"}, {"-r", "-1"}, {"-r", "1025"}, {"-r", "99999"}, {"-u", "3"}, {"-u", "0"}, {"-u", "1"}, {"-u", "-5"}, {"-u", "131072"}, {"-u", "1000000"}, {"-v", "3"}, {"-v", "1"}, {"-v", "131072"},
				{"-t", "d/T1"}, {"-t", "\x01"}, {"-t", "nodir/"}, {"-2", "e/x/T2"}, {"-2", "nodir/"}, {"-d", "FS"}, {"-d", "nodir/"}, {"-s", "ST"}, {"-s", "nodir/"}, {"-p", "\x01"}, {"-f", "\x01"}, {"-p", "00"}, {"-f", "00"}, {"-i", "00"}, {"-i", "zz"}, {"-c", "xch1"}, {"-n", "two"}};
			int i = choose(sizeof L / sizeof L[0] + 2, "option"), N = sizeof L / sizeof L[0]; Args a = v;
			if(i < N) a = with(v, L[i].o, L[i].v); else if(i == N) { a = with(v, "-c", bech32_enc("xch", hash32(1))); } else { a = with(with(v, "-s", "ST/"), "-2", "e/x/T2/"); a.push_back("-G"); }
			if(i < N && !strcmp(L[i].o, "-c")) a = with(a, "-p", "\x01");
			std::string w = i < N ? std::string("option ") + L[i].o + " " + L[i].v : i == N ? "pool key and contract" : "stagedir with tmptoggle";
			expect_rejected(a, w.c_str()); }, at_end);
		add("C19/unwritable", c, [=] { init(); static std::string bad; static const char* D[] = {"d/T1/", "e/x/T2/", "ST/", "FS/"}; int i = choose(4, "dir"); { Host h; bad = D[i]; vfs::set_fault([](const vfs::Op& o) -> int { return o.path.compare(0, bad.size(), bad) == 0 && (o.kind == vfs::OPEN_W || o.kind == vfs::OPEN_A) ? EACCES : 0; }); }
			Args a = with(with(with(with(base_args(1), "-t", "d/T1/"), "-2", "e/x/T2/"), "-s", "ST/"), "-d", "FS/"); int rc = run(a); Host h; MC_CHECK(rc != 0, "%s is not writable, status 0", D[i]); MC_CHECK(G->plots.empty(), "%s is not writable, plotting was started", D[i]); untouched(); }, at_end);
		add("C19/values", c, [=] {
			struct V { const char *o, *v; int k, nt, l1, l3; }; static const V L[] = {{"-k", "16", 16, 2, 4, 4}, {"-k", "25", 25, 2, 4, 4}, {"-k", BIGK == 32 ? "32" : "34", BIGK, 2, 4, 4}, {"-r", "1", BIGK, 1, 4, 4}, {"-r", "1024", BIGK, 1024, 4, 4}, {"-r", "7", BIGK, 7, 4, 4}, {"-u", "4", BIGK, 2, 4, 4}, {"-u", "5", BIGK, 2, 5, 5}, {"-u", "10", BIGK, 2, 10, 10}, {"-u", "32", BIGK, 2, 5, 5}, {"-u", "256", BIGK, 2, 8, 8}, {"-u", "1024", BIGK, 2, 10, 10}, {"-v", "4", BIGK, 2, 4, 4}, {"-v", "7", BIGK, 2, 4, 7}, {"-v", "128", BIGK, 2, 4, 7}, {"-v", "16", BIGK, 2, 4, 4}, {"-u", "8192", BIGK, 2, 13, 13}, {"-u", "65536", BIGK, 2, 16, 16}, {"-v", "65536", BIGK, 2, 4, 16}, {"-v", "1000", BIGK, 2, 4, 9}, {"-n", "1", BIGK, 2, 4, 4}};
			int i = choose(sizeof L / sizeof L[0], "option"); init(); own_files(); Args a = with(with(with(base_args(1), "-t", "d/T1/"), L[i].o, L[i].v), "-K", "3"); int rc = run(a); Host h;
			MC_CHECK(rc == 0 && G->plots.size() == 1, "option %s %s: status %d, %zu plots", L[i].o, L[i].v, rc, G->plots.size()); auto& p = G->plots[0];
			MC_CHECK(p.k == L[i].k && p.nt == L[i].nt && p.lg[1] == L[i].l1 && p.lg[3] == L[i].l3 && p.lg[4] == L[i].l3, "option %s %s: k=%d threads=%d buckets 2^%d/2^%d/2^%d", L[i].o, L[i].v, p.k, p.nt, p.lg[1], p.lg[3], p.lg[4]); MC_CHECK(session_thread_multi() == 3, "thread multiplier not set"); Opt o; check_delivered(o, true); }, at_end);
		add("C15/session", c, [=] { init(); session(pick_opt(1 + choose(2, "plots")), 0); }, at_end);
		// ---- C20
		add("C20/derive", c, [=] {
			init(); own_files(); int f = choose(2, "farmer"), contract = choose(2, "contract"), pi = choose(4, "port"), q = choose(3, "pool"), uniq = choose(2, "unique"), n = 1 + choose(2, "plots"), up = choose(2, "upper case"), fix = choose(2, "fixed id"); if(fix && n > 1) n = 1;
			static const int PT[] = {8444, 9699, 11337, 1}; const int port = PT[pi]; bytes farmer = key48(1 + f), pool = contract ? hash32(q) : key48(5 + q), fid = hash32(9); std::string hf = hexs(farmer), hp = hexs(pool); if(up) for(auto s : {&hf, &hp}) for(auto& ch : *s) ch = toupper(ch);
			Args a = {"chia_plot", "-k", S(BIGK), "-t", "d/T1/", "-u", "16", "-n", S(n), "-f", hf, contract ? "-c" : "-p", contract ? bech32_enc("xch", pool) : hp}; if(port != 8444) a = with(a, "-x", S(port)); if(uniq) a.push_back("-Z"); if(fix) a = with(a, "-i", hexs(fid));
			uint64_t t0 = now_ns(); int rc = run(a); Host h; MC_CHECK(rc == 0 && (int)G->plots.size() == n, "status %d, %zu plots", rc, G->plots.size());
			for(auto& p : G->plots) { bytes master; MC_CHECK(p.seed.size() >= 32, "the local key comes from %zu random bytes", p.seed.size()); std::string id = want_id(p.seed, farmer, pool, contract, port, uniq || port == 11337, master); if(fix) id = hexs(fid);
				MC_CHECK(p.id == id, "plot id is %s, specified is %s", p.id.c_str(), id.c_str()); MC_CHECK(p.memo == cat(cat(pool, farmer), master), "memo is %s", hexs(p.memo).c_str()); check_name(p, BIGK, port, t0, now_ns()); }
			if(n == 2) MC_CHECK(G->plots[0].seed != G->plots[1].seed && G->plots[0].id != G->plots[1].id, "two plots share the local key"); }, at_end);
		Config b = c; b.terminate_ok = true; b.time_cap = th ? 300 : 60;
		for(int which = 0; which < 3; ++which) add("C20/malformed-hex/" + std::string(which == 0 ? "farmer" : which == 1 ? "pool" : "id"), b, [=] {
			std::string good = which == 2 ? hexs(hash32(3)) : hexs(key48(3)); std::string s = good; int kind = choose(good.size() + 6, "position");
			if(kind < (int)good.size()) { static const char X[] = {'g', 'x', ' ', '-', '+', 'O', 'G', '.', ':'}; s[kind] = X[choose(th ? 9 : 5, "character")]; }
			else { kind -= good.size(); if(kind == 0) s.pop_back(); else if(kind == 1) s += "0"; else if(kind == 2) s = s.substr(2); else if(kind == 3) s += "00"; else if(kind == 4) s = "0x" + s; else s = "0x" + s.substr(2); }
			Args a = with(base_args(1), "-t", "d/T1/"); a = with(a, which == 0 ? "-f" : which == 1 ? "-p" : "-i", s); expect_rejected(a, ((which == 0 ? "farmer key '" : which == 1 ? "pool key '" : "plot id '") + s + "'").c_str()); }, at_end);
		add("C20/bad-point", b, [=] { int w = choose(2, "key"); bytes k = key48(3); k[0] = choose(2, "tag") ? 0x00 : 0xE0; expect_rejected(with(with(base_args(1), "-t", "d/T1/"), w ? "-p" : "-f", hexs(k)), "a key that is not a group element"); }, [](const char* how) { if(strcmp(how, "return")) { Host h; MC_CHECK(G->plots.empty(), "plotting was started with an invalid key"); MC_CHECK(strcmp(how, "exit:0"), "status 0 for an invalid key"); } });
		add("C20/malformed-contract", b, [=] {
			std::string good = bech32_enc("xch", hash32(2)), s = good; Args a = with(with(base_args(1), "-t", "d/T1/"), "-p", "\x01"); int pos = choose(good.size() + 7, "position");
			if(pos < (int)good.size()) { static const char* CH = "qpzry9x8gf2tvdw0s3jn54khce6mua7l1bioQZ-"; int m = th ? 40 : 9; char ch = th ? CH[choose(39, "character")] : CH[(choose(m, "character") * 5 + pos) % 39]; if(ch == s[pos]) return; s[pos] = ch; if(s == good) return; }
			else { pos -= good.size(); if(pos == 0) s = bech32_enc("xch", hash32(2), 1); else if(pos == 1) s = bech32_enc("xch", hash32(2), 0x2bc830a3, 1); else if(pos == 2) s = bech32_enc("xch", hash32(2), 0x2bc830a3, -1); else if(pos == 3) { bytes h = hash32(2); h.pop_back(); s = bech32_enc("xch", h); } else if(pos == 4) { bytes h = hash32(2); h.push_back(7); s = bech32_enc("xch", h); } else if(pos == 5) s.pop_back(); else s += "q"; }
			expect_rejected(with(a, "-c", s), ("contract '" + s + "'").c_str()); }, at_end);
	}
}
void mc::register_scenarios(const std::string& tier) { reg(tier == "thorough"); }
