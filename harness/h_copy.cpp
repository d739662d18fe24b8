// C14: final_copy / copy_file on the virtual file system; the invariant is evaluated after every file operation
// (= every crash point of the process), for every single (thorough: every pair of) I/O fault.
#include "mc.h"
#include <chia/copy.h>
#include <cstring>
#include <string>
using namespace mc;
static std::string S(int v) { return std::to_string(v); }
static std::string plot_bytes(int n) { std::string s(n, 0); uint32_t x = 12345; for(auto& c : s) { x = x * 1664525 + 1013904223; c = x >> 24; } return s; }

struct St { std::string want, src, dst; int nfault = 0; bool remove_fault = false, armed = true; int nops = 0; std::map<std::string, std::string> other; };
static St* G;

static void invariant(const vfs::Op& o, const char* when) {
	int complete = 0; std::string where;
	for(auto& f : vfs::list()) {
		if(G->other.count(f)) { MC_CHECK(vfs::read(f) == G->other[f], "unrelated file %s was modified", f.c_str()); continue; }
		MC_CHECK(f == G->src || f == G->dst || f.compare(0, G->dst.size(), G->dst) == 0, "unexpected file %s created", f.c_str());
		bool ok = vfs::read(f) == G->want;
		if(ok) { ++complete; where += " " + f; }
		if(f == G->dst) MC_CHECK(ok, "%s %s %s: the destination name exists with %zu of %zu bytes (partial plot visible)", when, vfs::op_names[o.kind], o.path.c_str(), vfs::read(f).size(), G->want.size());
	}
	for(auto& f : G->other) MC_CHECK(vfs::exists(f.first), "unrelated file %s was removed", f.first.c_str());
	MC_CHECK(complete > 0, "%s %s %s: no complete copy of the plot exists any more", when, vfs::op_names[o.kind], o.path.c_str());
}

static void reg(bool th) {
	static const int SZ[] = {0, 1, 16, 17, 4096, 5000, 9000, 40000};
	for(int cross = 0; cross < 2; ++cross) for(int ch : {1, 4, 300}) for(int si = 0; si < 8; ++si) {
		if(!th && ch == 4 && si > 5) continue;
		const int n = SZ[si]; if(ch == 1 && n > 9000) continue;
		Config c; c.mode = DELAY; c.max_bound = th ? 4 : 3; c.time_cap = th ? 90 : 6; c.races = false;
		add("C14/" + std::string(cross ? "other-device" : "same-device") + "/n" + S(n) + "c" + S(ch), c, [=] {
			g_read_chunk_size = ch;
			St st; 
			const bool lng = si == 5 && choose(2, "long paths");
			{ Host h; const std::string nm = lng ? std::string(60, 'd') + "/" + std::string(60, 'e') + "/" + std::string(150, 'p') + ".plot" : "plot-k32-x.plot"; st.want = plot_bytes(n); st.src = "tmp/" + nm; st.dst = "final/" + nm; }
			G = &st;
			{
				Host h; vfs::add_dir("tmp", 0); vfs::add_dir("final", cross);
				if(lng) for(int i = 0; i < 2; ++i) { const char* r = i ? "final/" : "tmp/"; std::string d = r + std::string(60, 'd'); vfs::add_dir(d, i && cross); vfs::add_dir(d + "/" + std::string(60, 'e'), i && cross); }
				vfs::write(st.src, st.want);
				st.other["final/plot-k32-other.plot"] = "other"; st.other["tmp/plot-k32-other.plot.tmp"] = "xx"; st.other["final/plot-k32-other.plot.tmp"] = "unrelated";
				for(auto& o : st.other) vfs::write(o.first, o.second);
			}
			if(choose(2, "stale tmp")) { Host h; vfs::write(st.dst + ".tmp", plot_bytes(n + 100)); }
			{
				Host h;
				vfs::set_fault([](const vfs::Op& o) -> int {
					if(!G->armed) return 0;
					const bool name = o.kind == vfs::RENAME || o.kind == vfs::OPEN_R || o.kind == vfs::OPEN_W || o.kind == vfs::OPEN_A;
					int n = o.kind == vfs::WRITE || o.kind == vfs::READ ? 3 : name ? 8 : 2;
					int c = choose(n, "fault", 1); if(!c) return 0;
					static const int E[] = {0, EIO, ENOENT, EACCES, EPERM, EXDEV, ENOSPC, EMFILE}; if(name) { add_counter(31, 1); G->nfault++; return E[c]; }
					add_counter(31, 1); if(!(o.kind == vfs::READ && c == 2)) G->nfault++; if(o.kind == vfs::REMOVE) G->remove_fault = true;
					return c == 2 ? -1 : o.kind == vfs::WRITE ? ENOSPC : EIO; });
				vfs::set_observe([](const vfs::Op& o, int res) { invariant(o, "after"); });
			}
			bool ok = false;
			try {
				final_copy(st.src, st.dst); ok = true;
			} catch(const std::exception& e) { }
			{
				Host h; vfs::Op last; last.kind = vfs::CLOSE; invariant(last, "at the end of final_copy,");
				outcome(ok); outcome(vfs::list().size());
				MC_CHECK(vfs::open_count(st.dst) == 0 && vfs::open_count(st.src) == 0, "file left open");
				if(ok) {
					MC_CHECK(vfs::exists(st.dst), "final_copy reported success but the destination does not exist");
					MC_CHECK(!vfs::exists(st.src) || st.remove_fault, "final_copy reported success but the source is still there");
					MC_CHECK(!vfs::exists(st.dst + ".tmp") || st.remove_fault, "final_copy reported success but left %s.tmp", st.dst.c_str());
					return;
				}
				MC_CHECK(st.nfault, "final_copy failed although no file operation failed");
				MC_CHECK(vfs::read(st.src) == st.want && vfs::exists(st.src), "final_copy reported an error but the source is not intact any more");
				st.armed = false;
			}
			// the caller retries: without further faults it has to succeed
			bool ok2 = true; try { final_copy(st.src, st.dst); } catch(const std::exception& e) { ok2 = false; }
			Host h;
			MC_CHECK(ok2, "retrying after a failed copy fails although no file operation fails any more");
			MC_CHECK(vfs::read(st.dst) == st.want && !vfs::exists(st.src) && !vfs::exists(st.dst + ".tmp"), "retrying after a failed copy left the wrong files");
		});
	}
	Config c; c.mode = DELAY; c.max_bound = 1; c.time_cap = 5; c.races = false;
	// the destination directory or the source does not exist: an error, nothing lost, nothing invented
	for(int what = 0; what < 2; ++what) add(what ? "C14/no-source" : "C14/no-directory", c, [=] {
		St st; { Host h; st.want = plot_bytes(777); st.src = "tmp/p.plot"; st.dst = what ? "final/p.plot" : "gone/p.plot"; vfs::add_dir("tmp", 0); vfs::add_dir("final", 0); vfs::write("tmp/q.plot", "qq"); if(!what) vfs::write(st.src, st.want); } G = &st;
		g_read_chunk_size = 2; bool ok = true;
		try { final_copy(st.src, st.dst); } catch(const std::exception& e) { ok = false; }
		const int dev = choose(2, "device");
		{
			Host h; MC_CHECK(!ok, "%s does not exist, yet final_copy reports success", what ? "the source" : "the destination directory");
			MC_CHECK(vfs::read("tmp/q.plot") == "qq" && !vfs::exists(st.dst) && (what || vfs::read(st.src) == st.want), "an impossible copy changed files");
			if(!what) vfs::add_dir("gone", dev); else vfs::write(st.src, st.want);
		}
		ok = true; try { final_copy(st.src, st.dst); } catch(const std::exception& e) { ok = false; }
		Host h; MC_CHECK(ok && vfs::read(st.dst) == st.want && vfs::list().size() == 2, "the copy fails after the missing %s appeared", what ? "source" : "directory");
	});
	add("C14/same-path", c, [=] {
		St st; { Host h; st.want = plot_bytes(77); st.src = st.dst = "final/p.plot"; vfs::add_dir("final", 0); vfs::write(st.src, st.want); } G = &st;
		{ Host h; vfs::set_observe([](const vfs::Op& o, int res) { invariant(o, "after"); }); }
		g_read_chunk_size = 2;
		final_copy(st.src, st.dst);
		Host h; MC_CHECK(vfs::read(st.dst) == st.want && vfs::list().size() == 1, "copying a plot onto itself damaged it");
	});
}
void mc::register_scenarios(const std::string& tier) { reg(tier == "thorough"); }
