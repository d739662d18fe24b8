// Driver for harnesses that enumerate sequential behaviour directly (no scheduler): every scenario enumerates a finite
// space completely; each runs in its own process, a crash or sanitizer report is a violation of that scenario.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <functional>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <time.h>
namespace nat {
struct Sh { volatile uint64_t evals, distinct; volatile int viol, done; char msg[2048]; char input[1024]; char note[512]; };
static Sh* sh;
struct Sc { std::string name; std::function<void()> f; };
static std::vector<Sc>& all() { static std::vector<Sc> v; return v; }
static inline void add(const std::string& n, std::function<void()> f) { all().push_back({n, f}); }
static inline void ev(uint64_t n = 1) { sh->evals += n; }
static inline void distinct(uint64_t n = 1) { sh->distinct += n; }
static inline void at(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(sh->input, sizeof sh->input, fmt, ap); va_end(ap); }   // the input being evaluated (reported if the code crashes)
static inline void note(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(sh->note, sizeof sh->note, fmt, ap); va_end(ap); }
static inline void fail(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(sh->msg, sizeof sh->msg, fmt, ap); va_end(ap); sh->viol = 1; _exit(0); }
#define N_CHECK(c, ...) do { if(!(c)) ::nat::fail(__VA_ARGS__); } while(0)
static std::string esc(const char* s) { std::string o; for(; *s; ++s) { if(*s == '"' || *s == '\\') { o += '\\'; o += *s; } else if((unsigned char)*s < 32) o += ' '; else o += *s; } return o; }
}
void register_native(const std::string& tier);
int main(int argc, char** argv) {
	using namespace nat;
	std::string cmd = argc > 1 ? argv[1] : "run", tier = "quick", out, filt, exact; int nj = 8;
	for(int i = 2; i < argc; ++i) {
		std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if(a == "--tier") tier = nx(); else if(a == "--out") out = nx(); else if(a == "--filter") filt = nx(); else if(a == "--scenario") exact = nx(); else if(a == "-j") nj = atoi(nx().c_str()); else if(a == "--replay-dir" || a == "--scale") nx();
	}
	register_native(tier);
	std::vector<Sc*> run; for(auto& s : all()) if((filt.empty() || s.name.find(filt) != std::string::npos) && (exact.empty() || s.name == exact)) run.push_back(&s);
	if(cmd == "list") { for(auto s : run) printf("%s\n", s->name.c_str()); return 0; }
	FILE* o = out.empty() ? stdout : fopen(out.c_str(), "a");
	std::vector<Sh*> shs; std::vector<int> pids(run.size(), 0), sts(run.size(), -1);
	for(size_t i = 0; i < run.size(); ++i) { shs.push_back((Sh*)mmap(0, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)); memset((void*)shs[i], 0, sizeof(Sh)); }
	size_t next = 0, live = 0; int bad = 0;
	std::vector<double> t0(run.size()), t1(run.size()); auto now = [] { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; };
	while(next < run.size() || live) {
		while(next < run.size() && live < (size_t)nj) {
			t0[next] = now(); fflush(o);
			int p = fork();
			if(!p) { sh = shs[next]; int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); if(!getenv("MC_STDERR")) dup2(dn, 2); run[next]->f(); sh->done = 1; _exit(0); }
			pids[next++] = p; ++live;
		}
		int st, p = wait(&st); if(p < 0) break; --live;
		for(size_t i = 0; i < run.size(); ++i) if(pids[i] == p) { sts[i] = st; t1[i] = now(); pids[i] = 0; }
	}
	for(size_t i = 0; i < run.size(); ++i) {
		Sh* s = shs[i]; std::string v;
		if(s->viol) v = s->msg;
		else if(!s->done) { char b[1400]; snprintf(b, sizeof b, "the code under test crashed or was stopped by the memory checker (%s %d) while evaluating: %s", WIFSIGNALED(sts[i]) ? "signal" : "exit", WIFSIGNALED(sts[i]) ? WTERMSIG(sts[i]) : WEXITSTATUS(sts[i]), s->input); v = b; }
		fprintf(o, "{\"scenario\":\"%s\",\"mode\":\"enumeration\",\"evaluations\":%llu,\"distinct\":%llu,\"exhaustive\":%s,\"wall\":%.2f,\"note\":\"%s\"", run[i]->name.c_str(), (unsigned long long)s->evals, (unsigned long long)(s->distinct ? s->distinct : s->evals), s->done ? "true" : "false", t1[i] - t0[i], esc(s->note).c_str());
		if(!v.empty()) { bad = 1; fprintf(o, ",\"violation\":\"%s\"", esc(v.c_str()).c_str()); }
		fprintf(o, "}\n");
	}
	fflush(o);
	return bad;
}
