// Simulator runtime: every source of nondeterminism the code under test meets goes
// through here (clocks, allocator, entropy, file reads, output, thread scheduling, exit).
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

namespace sim {

struct Rng {                       // splitmix64
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) {}
	uint64_t next() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	int range(int lo, int hi) { return lo + int(next() % uint64_t(hi - lo + 1)); }   // inclusive
	bool chance(double p) { return unit() < p; }
	double unit() { return double(next() >> 11) / 9007199254740992.0; }
};

struct ClockEv {                   // fires at the n-th clock query of the run
	uint64_t query;
	int kind;                      // 0 = wall jump, 1 = stall (both clocks), 2 = change of query cost
	double seconds;
};

struct AllocFault {                // fires on SUT allocation number n (1-based) of operation op
	int op;
	uint64_t n;
	uint64_t count;                // number of consecutive failing allocations, 0 = for good
};

struct ReadFault {                 // fires on the n-th read() call on a tracked file
	uint64_t n;
	int kind;                      // 0 short(arg bytes), 1 EINTR, 2 EIO, 3 early EOF
	int arg;
};

struct Config {
	uint64_t fill = 0xA5A5A5A5A5A5A5A5ull;  // pattern of fresh memory
	int reuse = 0;                 // 0 LIFO, 1 FIFO, 2 seeded, 3 never
	int arena = 0;                 // base address choice
	uint64_t alloc_seed = 1;
	uint64_t entropy = 1;
	double query_cost = 1e-6;      // simulated seconds per clock query
	double alloc_cost = 0;         // simulated seconds per SUT allocation
	double wall0 = 1700000000.0, mono0 = 5000.0;
	std::vector<ClockEv> clk;
	std::vector<AllocFault> af;
	std::vector<ReadFault> rf;
	bool open_fail = false;        // opening a tracked file fails (EACCES)
	bool sched_on = false;
	uint64_t sched_seed = 1;
	double sched_p = 0;
	bool dense = false;            // every basic block of the code under test is a scheduling point
	bool thread_clock = false;     // every thread has its own clock (the others run on other processors)
	std::vector<std::pair<uint64_t, int>> switches;   // explicit schedule
	uint64_t max_work = 30000000;  // SUT seam operations before the run counts as endless
};

struct Counters {
	uint64_t queries = 0, allocs = 0, frees = 0, reads = 0, opens = 0, entropy = 0, outputs = 0;
	uint64_t wall_jumps_fwd = 0, wall_jumps_back = 0, stalls = 0, rate_changes = 0;
	uint64_t alloc_failures = 0, short_reads = 0, eintr = 0, eio = 0, early_eof = 0, open_failures = 0;
	uint64_t switches = 0, points = 0;
};

extern Counters C;
void configure(const Config& c);
void hist(uint64_t v);                 // mix a value into the history hash
void hist_str(const std::string& s);
uint64_t hist_hash();

// region markers: code between enter and leave is code under test
void enter_sut();
void leave_sut();
bool in_sut();
struct Sut { Sut() { enter_sut(); } ~Sut() { leave_sut(); } };
struct NoSut { bool was; NoSut(); ~NoSut(); };

void set_op(int op);                   // current operation index (allocation faults are per operation)
double mono_now();                     // simulated monotonic time without advancing it
double wall_now();
uint64_t work();                       // SUT allocations + clock queries so far
uint64_t op_allocs();
void mark_deadline(double mono_at, uint64_t allow = 0, double again = 0);   // remember the amount of work done when this moment passes; with allow: call on_overrun after that much more work plus again * the work before
bool deadline_passed(uint64_t& work_at);
size_t live_blocks();
size_t live_bytes();
const char* heap_error();              // non-null when the arena noticed a misuse
void heap_sweep();                     // look for writes to freed memory

// called (inside the child) when the code under test calls exit()/abort()
extern void (*on_exit_call)(int code);
extern void (*on_endless)();
extern void (*on_overrun)();

// baton threads
void thread_run(int n, void (*body)(int, void*), void* arg);
std::vector<std::pair<uint64_t, int>> schedule_taken();
void point(int kind);                  // scheduling point

void track_files(bool on);
extern int fault_hold;                 // >0: allocations neither counted for nor hit by faults
struct Hold { Hold() { fault_hold++; } ~Hold() { fault_hold--; } };
}
