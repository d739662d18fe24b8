// Controlled-scheduler model checker: API for harnesses.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace mc {

enum Mode { UNBOUNDED = 0, PREEMPT = 1, DELAY = 2 };

struct Config {
	Mode mode = UNBOUNDED;
	int bound = 0;              // deviation bound (start)
	int max_bound = 0;          // iterate bound..max_bound (bounded modes)
	int spurious = 0;           // spurious wake-ups allowed per execution (each costs 1 deviation in bounded modes)
	bool atomics_points = true; // atomics are scheduling points (instrumented build)
	bool file_points = false;   // file operations are scheduling points
	bool races = true;          // run the race detector (instrumented build)
	bool fork_exec = false;     // one forked process per execution, libc heap, no state caching (long executions)
	bool cache = true;          // happens-before state caching
	bool terminate_ok = false;  // std::terminate/abort is an acceptable end of an execution (error surfaced)
	bool deadlock_ok = false;
	uint64_t max_steps = 2000000;
	int fair = 300;             // an enabled thread passed over this many times in a row is scheduled next (0: off)
	double time_cap = 60;       // seconds
	uint64_t exec_cap = 0;      // 0 = none
	int alloc_fill = 0xA5;
	int sched_default = 0;      // 0: keep running current; 1: round robin; 2: newest first; 3: oldest first; 4: current, then oldest; 5-7: as 0, 1, 3, and a deviation holds the skipped thread back until nothing else can run
};

struct Scenario {
	std::string name;
	Config cfg;
	std::function<void()> body;                    // runs as main fiber
	std::function<void(const char* how)> at_end;   // host side, after every completed execution ("return","terminate","exit:N")
};

void add(const std::string& name, const Config& cfg, std::function<void()> body,
		std::function<void(const char*)> at_end = nullptr);

// harness implements this: register scenarios for the given tier
void register_scenarios(const std::string& tier);

int choose(int n, const char* what = "", int cost = 0);   // data choice 0..n-1 (0 = default)
void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // report violation and stop this execution
void outcome(uint64_t h);                                  // count distinct outcomes
void tag(uint64_t h);                                      // mix data into the current thread's history hash
void yield_point(const char* what);
bool in_exec();
void msg(const char* fmt, ...) __attribute__((format(printf, 1, 2)));    // trace line (only printed on replay)
uint64_t now_ns();
void advance_clock(uint64_t ns);
int fiber_id();
void end_exec_ok();   // stop the execution here, accepted
void add_counter(int idx, uint64_t v);  // shared counters, reported in the result
#define MC_CHECK(c, ...) do { if(!(c)) ::mc::fail(__VA_ARGS__); } while(0)

// harness-side records: plain storage manipulated by uninstrumented code, so that they neither race nor synchronise
struct Ints {
	int n = 0; int v[256];
	void push(int x); int size() const; int at(int i) const; void clear();
	bool has(int x) const; int count_less(int x) const;
};
struct Int { long v = 0; void set(long x); long get() const; long add(long d); };

// run f with allocations and memory accesses outside the model (host heap)
struct Host { Host(); ~Host(); int saved; };

uint64_t mix(uint64_t a, uint64_t b);
uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0x1234567);

// ---- signals
void raise_signal(int sig);  // invoke the handler installed through signal()/sigaction()
bool has_handler(int sig);

// ---- virtual file system
namespace vfs {
enum OpKind { OPEN_R, OPEN_W, OPEN_A, READ, WRITE, SEEK, CLOSE, REMOVE, RENAME, STAT, FLUSH, N_OPS };
extern const char* const op_names[];
struct Op { OpKind kind; std::string path, path2; size_t size = 0; uint64_t index = 0; };
// answer: 0 = normal; >0 = fail with that errno; WRITE: -1 = short write of half then ENOSPC; READ: -2 = premature EOF
typedef std::function<int(const Op&)> FaultFn;
typedef std::function<void(const Op&, int result)> ObserveFn;   // after each operation
void reset();
void set_fault(FaultFn f);
void set_observe(ObserveFn f);
void add_dir(const std::string& path, int dev = 0);
bool exists(const std::string& path);
std::string read(const std::string& path);
void write(const std::string& path, const std::string& data);
uint64_t size(const std::string& path);
std::string read_at(const std::string& path, uint64_t pos, uint64_t n);   // sparse files of any size
void write_at(const std::string& path, uint64_t pos, const std::string& data);
void erase(const std::string& path);
std::vector<std::string> list();
uint64_t num_ops();
int open_count(const std::string& path);
}
}
namespace mc {
void visible_impl(void* obj, const char* what);
// scheduling-visible event on obj: call before touching harness-side shared state (logs)
inline void visible(void* obj, const char* what = "log") { visible_impl(obj, what); }
}
namespace mc {
// scheduling policies a deviation-bounded scenario is run under (Config::sched_default); preempt: -1 = preemption-bounded first
inline std::vector<int> scheds(bool thorough, bool preempt = false) {
	std::vector<int> v = thorough ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7} : std::vector<int>{0, 1, 3, 5, 6, 7};
	if(preempt) v.insert(v.begin(), -1);
	return v;
}
}
