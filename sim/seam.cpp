#include "seam.h"
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <cstdarg>
#include <new>
#include <chrono>
#include <mutex>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/uio.h>

extern "C" {
int __real_clock_gettime(clockid_t, struct timespec*);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real___cxa_guard_acquire(int64_t*);
void __real___cxa_guard_release(int64_t*);
void __real___cxa_guard_abort(int64_t*);
void __real_exit(int) __attribute__((noreturn));
void __real_abort() __attribute__((noreturn));
ssize_t __real_read(int, void*, size_t);
FILE* __real_fopen(const char*, const char*);
FILE* __real_fopen64(const char*, const char*);
int __real_open(const char*, int, ...);
int __real_open64(const char*, int, ...);
time_t __real_time(time_t*);
clock_t __real_clock(void);
int __real_gettimeofday(struct timeval*, void*);
}

namespace sim {

static Config cfg;
Counters C;
static uint64_t H = 1469598103934665603ull;
static double mono, wall_off, cpu;
static double query_cost, alloc_cost;
static size_t clk_ix;
static uint64_t clk_q;
static int cur_op;
static uint64_t opalloc, sutwork;
static thread_local int sut_depth = 0;
static thread_local bool suspended = false;
static const char* heap_err = nullptr;
static bool tracking = false;
static bool active = false;
void (*on_exit_call)(int) = nullptr;
void (*on_endless)() = nullptr;
void (*on_overrun)() = nullptr;
int fault_hold = 0;

void hist(uint64_t v) { H ^= v + 0x9E3779B97F4A7C15ull + (H << 6) + (H >> 2); H *= 0xff51afd7ed558ccdull; H ^= H >> 29; }
void hist_str(const std::string& s) { for (char c : s) hist((unsigned char)c); hist(s.size()); }
uint64_t hist_hash() { return H; }
void enter_sut() { sut_depth++; }
void leave_sut() { sut_depth--; }
bool in_sut() { return sut_depth > 0 && !suspended && active; }
NoSut::NoSut() { was = suspended; suspended = true; }
NoSut::~NoSut() { suspended = was; }
void set_op(int op) { cur_op = op; opalloc = 0; }
double mono_now() { return mono; }
double wall_now() { return mono + wall_off; }
uint64_t work() { return sutwork; }
uint64_t op_allocs() { return opalloc; }
void track_files(bool on) { tracking = on; }

static double dl_at = 0; static bool dl_set = false, dl_hit = false; static uint64_t dl_work = 0, dl_allow = 0, dl_end = UINT64_MAX;
static double dl_again = 0;
void mark_deadline(double t, uint64_t allow, double again) { dl_again = again; dl_at = t; dl_set = true; dl_hit = false; dl_allow = allow; dl_end = UINT64_MAX; }
bool deadline_passed(uint64_t& w) { w = dl_work; return dl_hit; }

static inline void bump() {
	if (dl_set && !dl_hit && mono >= dl_at) { dl_hit = true; dl_work = sutwork; if (dl_allow) dl_end = sutwork + dl_allow + uint64_t(dl_again * double(sutwork)); }
	if (++sutwork > dl_end && on_overrun) on_overrun();
	if (sutwork > cfg.max_work && on_endless) on_endless();
}

// ------------------------------------------------------------------ clocks
static void clock_step() {
	C.queries++; clk_q++;
	bump();
	mono += query_cost; cpu += query_cost;
	while (clk_ix < cfg.clk.size() && cfg.clk[clk_ix].query <= clk_q) {
		const ClockEv& e = cfg.clk[clk_ix++];
		if (e.kind == 0) { wall_off += e.seconds; if (e.seconds < 0) C.wall_jumps_back++; else C.wall_jumps_fwd++; }
		else if (e.kind == 1) { mono += e.seconds; C.stalls++; }
		else { query_cost = e.seconds; C.rate_changes++; }
	}
	hist(0xC10C); hist(uint64_t(mono * 1e6));
}

// ------------------------------------------------------------------ arena
// header (32 bytes) | user memory | tail canary (8 bytes)
struct Hdr { uint32_t magic; uint32_t cls; uint64_t size; uint64_t next; uint64_t chk; };
static const uint32_t LIVE = 0x51C0FFEE, DEAD = 0xDEADBEEF;
static const uint64_t TAIL = 0x7A11CA4A7A11CA4Aull;
static const size_t ARENA = size_t(3) << 30;
static char* base = nullptr; static char* top = nullptr; static char* lim = nullptr;
static const int NCLS = 96;
static uint64_t fl_head[NCLS], fl_tail[NCLS]; static uint32_t fl_len[NCLS];
static Rng arng(1);
static size_t nlive, blive;
static uint64_t arena_seq;

static int cls_of(size_t n, size_t& cap) {
	if (n <= 1024) { int c = int((n + 15) / 16); if (c == 0) c = 1; cap = size_t(c) * 16; return c; }   // 1..64
	size_t s = 2048; int c = 65;
	while (s < n) { s <<= 1; c++; }
	cap = s; return c;
}
static uint64_t checkv(const Hdr* h) { return (uint64_t)h ^ (uint64_t(h->size) << 17) ^ 0xABCDEF0123456789ull; }

static bool poisoned(const char* p, size_t n) {
	for (size_t i = 0; i < n; i++) if ((unsigned char)p[i] != 0xDD) return false;
	return true;
}

static void fail(const char* m) { if (!heap_err) heap_err = m; hist(0xBADBAD); }
const char* heap_error() { return heap_err; }
size_t live_blocks() { return nlive; }
size_t live_bytes() { return blive; }

static void* arena_alloc(size_t n) {
	size_t cap; int c = cls_of(n, cap);
	Hdr* h = nullptr;
	bool take = fl_len[c] > 0;
	if (take && cfg.reuse == 3 && size_t(lim - top) > (size_t(2) << 30)) take = false;
	if (take && cfg.reuse == 2 && arng.chance(0.3)) take = false;
	if (take) {
		uint64_t prev = 0, cur = fl_head[c];
		if (cfg.reuse == 2) {
			int skip = int(arng.next() % std::min<uint32_t>(fl_len[c], 6));
			while (skip-- > 0) { prev = cur; cur = ((Hdr*)cur)->next; }
		}
		h = (Hdr*)cur;
		if (h->magic != DEAD) { fail("freed block header overwritten"); }
		if (prev) ((Hdr*)prev)->next = h->next; else fl_head[c] = h->next;
		if (fl_tail[c] == cur) fl_tail[c] = prev;
		fl_len[c]--;
		if (!poisoned((char*)(h + 1), cap)) fail("write to freed memory");
	} else {
		size_t tot = sizeof(Hdr) + cap + 16;
		if (top + tot > lim) { fprintf(stderr, "simulator arena exhausted\n"); _exit(77); }
		h = (Hdr*)top; top += tot;
	}
	h->magic = LIVE; h->cls = c; h->size = n; h->next = 0; h->chk = checkv(h);
	char* u = (char*)(h + 1);
	uint64_t f = cfg.fill;
	for (size_t i = 0; i + 8 <= cap; i += 8) memcpy(u + i, &f, 8);
	uint64_t t = TAIL ^ (uint64_t)u;
	memcpy(u + n, &t, 8);
	nlive++; blive += n;
	return u;
}

static void arena_free(void* p) {
	Hdr* h = (Hdr*)p - 1;
	if (h->magic == DEAD) { fail("double free"); return; }
	if (h->magic != LIVE || h->chk != checkv(h)) { fail("block header overwritten or bad pointer freed"); return; }
	uint64_t t; memcpy(&t, (char*)p + h->size, 8);
	if (t != (TAIL ^ (uint64_t)p)) fail("write past the end of a block");
	size_t cap; int c = cls_of(h->size, cap);
	h->magic = DEAD;
	nlive--; blive -= h->size;
	memset(p, 0xDD, cap);
	memset((char*)p + cap, 0xDD, 8);
	if (cfg.reuse == 1) { // FIFO
		h->next = 0;
		if (fl_tail[c]) ((Hdr*)fl_tail[c])->next = (uint64_t)h; else fl_head[c] = (uint64_t)h;
		fl_tail[c] = (uint64_t)h;
	} else {
		h->next = fl_head[c]; fl_head[c] = (uint64_t)h;
		if (!fl_tail[c]) fl_tail[c] = (uint64_t)h;
	}
	fl_len[c]++;
}

void heap_sweep() {
	size_t budget = 64u << 20;
	for (char* q = base; q < top;) {
		Hdr* h = (Hdr*)q;
		size_t cap; cls_of(h->size, cap);
		if (h->magic == DEAD) { if (cap < budget) { budget -= cap; if (!poisoned((char*)(h + 1), cap)) fail("write to freed memory"); } }
		else if (h->magic == LIVE) {
			uint64_t t; memcpy(&t, (char*)(h + 1) + h->size, 8);
			if (t != (TAIL ^ (uint64_t)(h + 1))) fail("write past the end of a block");
		} else { fail("block header overwritten"); return; }
		q += sizeof(Hdr) + cap + 16;
	}
}

static bool should_fail() {
	for (auto& f : cfg.af) {
		if (f.op != cur_op) continue;
		if (opalloc >= f.n && (f.count == 0 || opalloc < f.n + f.count)) return true;
	}
	return false;
}

static void* sut_new(size_t n, bool nothrow) {
	if (!in_sut()) {
		void* p = malloc(n ? n : 1);
		if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
		return p;
	}
	if (fault_hold) return arena_alloc(n);
	C.allocs++; opalloc++; bump();
	mono += alloc_cost; cpu += alloc_cost;
	hist(0xA110C); hist(n);
	if (!cfg.af.empty() && should_fail()) {
		C.alloc_failures++; hist(0xFA11);
		if (nothrow) return nullptr;
		throw std::bad_alloc();
	}
	point(1);
	return arena_alloc(n);
}

static void sut_delete(void* p) {
	if (!p) return;
	if ((char*)p >= base && (char*)p < lim) {
		C.frees++;
		arena_free(p);
		return;
	}
	free(p);
}

void configure(const Config& c) {
	cfg = c;
	mono = c.mono0; wall_off = c.wall0 - c.mono0; cpu = 0;
	query_cost = c.query_cost; alloc_cost = c.alloc_cost;
	clk_ix = 0; clk_q = 0; cur_op = -1; opalloc = 0; sutwork = 0;
	C = Counters();
	arng = Rng(c.alloc_seed * 77 + 5);
	static const uintptr_t bases[4] = { 0x100000000000ull, 0x200000040000ull, 0x300000900000ull, 0x150001230000ull };
	if (!base) {
		base = (char*)mmap((void*)bases[c.arena & 3], ARENA, PROT_READ | PROT_WRITE,
			MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
		if (base == MAP_FAILED) { perror("arena"); _exit(78); }
		top = base; lim = base + ARENA;
	}
	memset(fl_head, 0, sizeof fl_head); memset(fl_tail, 0, sizeof fl_tail); memset(fl_len, 0, sizeof fl_len);
	active = true;
	H = 1469598103934665603ull;
	heap_err = nullptr;
}

// ------------------------------------------------------------------ threads
static const int MAXT = 8;
static int nthreads = 0; static bool alive[MAXT]; static sem_t sems[MAXT];
static int current = 0; static thread_local int me = -1; static thread_local int noswitch = 0;
static Rng srng(1);
static std::vector<std::pair<uint64_t, int>> taken;
static size_t sw_ix = 0;
static bool dense_on = false;

std::vector<std::pair<uint64_t, int>> schedule_taken() { return taken; }

struct ClockState { double mono, wall_off, cpu, query_cost; size_t clk_ix; uint64_t clk_q; };
static ClockState clock_save() { return { mono, wall_off, cpu, query_cost, clk_ix, clk_q }; }
static void clock_load(const ClockState& s) { mono = s.mono; wall_off = s.wall_off; cpu = s.cpu; query_cost = s.query_cost; clk_ix = s.clk_ix; clk_q = s.clk_q; }
static ClockState clock_start, clock_of[MAXT];

static void switch_to(int t) {
	if (t == me) return;
	{ NoSut n; taken.push_back({ C.points, t }); }
	C.switches++; hist(0x5C4ED); hist(C.points); hist(t);
	if (cfg.thread_clock) clock_of[me] = clock_save();
	current = t;
	sem_post(&sems[t]);
	while (sem_wait(&sems[me]) != 0) {}
	if (cfg.thread_clock) clock_load(clock_of[me]);
}

static bool exact() { return cfg.sched_p <= 0; }   // the case lists its switches
// another runnable thread; when the case lists its switches, the listed one
static int pick_other() {
	int cand[MAXT], n = 0;
	for (int i = 0; i < nthreads; i++) if (alive[i] && i != me) cand[n++] = i;
	if (!n) return -1;
	if (!exact()) return cand[srng.next() % n];
	while (sw_ix < cfg.switches.size() && cfg.switches[sw_ix].first < C.points) sw_ix++;
	if (sw_ix < cfg.switches.size() && cfg.switches[sw_ix].first == C.points) {
		int t = cfg.switches[sw_ix++].second;
		for (int i = 0; i < n; i++) if (cand[i] == t) return t;
	}
	return cand[0];
}

void point(int) {
	if (me < 0 || nthreads < 2 || noswitch || suspended) return;
	C.points++;
	if (exact()) {
		while (sw_ix < cfg.switches.size() && cfg.switches[sw_ix].first < C.points) sw_ix++;
		if (sw_ix < cfg.switches.size() && cfg.switches[sw_ix].first == C.points) {
			int t = cfg.switches[sw_ix++].second;
			if (t >= 0 && t < nthreads && alive[t]) switch_to(t);
		}
		return;
	}
	if (srng.chance(cfg.sched_p)) { int t = pick_other(); if (t >= 0) switch_to(t); }
}

struct TArg { int ix; void (*body)(int, void*); void* arg; };
static sem_t main_sem;
static void* tmain(void* a) {
	TArg* t = (TArg*)a;
	me = t->ix;
	while (sem_wait(&sems[me]) != 0) {}
	if (cfg.thread_clock) clock_load(clock_start);
	t->body(t->ix, t->arg);
	if (cfg.thread_clock) clock_of[me] = clock_save();
	alive[me] = false;
	int next = pick_other();
	if (next >= 0) { taken.push_back({ C.points, next }); current = next; sem_post(&sems[next]); }
	else sem_post(&main_sem);
	return nullptr;
}

void thread_run(int n, void (*body)(int, void*), void* arg) {
	nthreads = n; srng = Rng(cfg.sched_seed); taken.clear(); sw_ix = 0;
	clock_start = clock_save();
	dense_on = cfg.dense && n > 1;
	sem_init(&main_sem, 0, 0);
	pthread_t th[MAXT]; TArg ta[MAXT];
	for (int i = 0; i < n; i++) { sem_init(&sems[i], 0, 0); alive[i] = true; ta[i] = { i, body, arg }; }
	pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 16u << 20);
	for (int i = 0; i < n; i++) pthread_create(&th[i], &at, tmain, &ta[i]);
	current = 0; sem_post(&sems[0]);
	while (sem_wait(&main_sem) != 0) {}
	for (int i = 0; i < n; i++) pthread_join(th[i], nullptr);
	nthreads = 0; dense_on = false;
	if (cfg.thread_clock) for (int i = 0; i < n; i++) if (clock_of[i].mono > mono) clock_load(clock_of[i]);
}

// ------------------------------------------------------------------ files
static bool fd_tracked[1024];
static uint64_t read_no = 0;
} // namespace sim

using namespace sim;

void* operator new(size_t n) { return sut_new(n, false); }
void* operator new[](size_t n) { return sut_new(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sut_new(n, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sut_new(n, true); }
void operator delete(void* p) noexcept { sut_delete(p); }
void operator delete[](void* p) noexcept { sut_delete(p); }
void operator delete(void* p, size_t) noexcept { sut_delete(p); }
void operator delete[](void* p, size_t) noexcept { sut_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sut_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sut_delete(p); }

extern "C" {

time_t __wrap_time(time_t* t) {
	if (!in_sut()) return __real_time(t);
	clock_step(); point(0);
	time_t v = (time_t)wall_now(); if (t) *t = v; return v;
}
clock_t __wrap_clock(void) {
	if (!in_sut()) return __real_clock();
	clock_step(); point(0);
	return (clock_t)(cpu * CLOCKS_PER_SEC);
}
int __wrap_gettimeofday(struct timeval* tv, void* tz) {
	if (!in_sut()) return __real_gettimeofday(tv, tz);
	clock_step(); point(0);
	double w = wall_now(); tv->tv_sec = (time_t)w; tv->tv_usec = (suseconds_t)((w - (double)tv->tv_sec) * 1e6);
	return 0;
}
int __wrap_clock_gettime(clockid_t id, struct timespec* ts) {
	if (!in_sut()) return __real_clock_gettime(id, ts);
	clock_step(); point(0);
	double v = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? wall_now()
		: (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) ? cpu : mono;
	ts->tv_sec = (time_t)v; ts->tv_nsec = (long)((v - (double)ts->tv_sec) * 1e9);
	return 0;
}
// std::chrono::steady_clock::now / system_clock::now
int64_t __real__ZNSt6chrono3_V212steady_clock3nowEv();
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() {
	if (!in_sut()) { struct timespec ts; __real_clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec * 1000000000ll + ts.tv_nsec; }
	clock_step(); point(0);
	return (int64_t)(mono * 1e9);
}
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() {
	if (!in_sut()) { struct timespec ts; __real_clock_gettime(CLOCK_REALTIME, &ts); return ts.tv_sec * 1000000000ll + ts.tv_nsec; }
	clock_step(); point(0);
	return (int64_t)(wall_now() * 1e9);
}
static Rng entropy_rng(1);
static bool entropy_init = false;
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void*) {
	if (!entropy_init) { entropy_init = true; entropy_rng = Rng(cfg.entropy); }
	C.entropy++; hist(0xE27); 
	return (unsigned)entropy_rng.next();
}

void __wrap_exit(int code) {
	if (in_sut() && on_exit_call) on_exit_call(code);
	__real_exit(code);
}
void __wrap_abort() {
	if (in_sut() && on_exit_call) on_exit_call(134);
	__real_abort();
}

// called at every basic block of the objects built with -fsanitize-coverage=trace-pc
void __sanitizer_cov_trace_pc(void) { if (dense_on && sut_depth > 0) point(3); }

int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
	if (me < 0 || nthreads < 2) return __real_pthread_mutex_lock(m);
	while (true) {
		int r = pthread_mutex_trylock(m);
		if (r != EBUSY) return r;
		int t = pick_other();
		if (t < 0) return __real_pthread_mutex_lock(m);
		switch_to(t);
	}
}
int __wrap___cxa_guard_acquire(int64_t* g) {
	int r = __real___cxa_guard_acquire(g);
	if (r) noswitch++;
	return r;
}
void __wrap___cxa_guard_release(int64_t* g) { noswitch--; __real___cxa_guard_release(g); }
void __wrap___cxa_guard_abort(int64_t* g) { noswitch--; __real___cxa_guard_abort(g); }

static void track(int fd) {
	if (fd >= 0 && fd < 1024) fd_tracked[fd] = tracking && in_sut();
}
FILE* __wrap_fopen(const char* p, const char* m) {
	if (in_sut() && tracking) { C.opens++; hist(0x0FE2); if (cfg.open_fail) { C.open_failures++; errno = EACCES; return nullptr; } }
	FILE* f = __real_fopen(p, m); if (f) track(fileno(f)); return f;
}
FILE* __wrap_fopen64(const char* p, const char* m) {
	if (in_sut() && tracking) { C.opens++; hist(0x0FE2); if (cfg.open_fail) { C.open_failures++; errno = EACCES; return nullptr; } }
	FILE* f = __real_fopen64(p, m); if (f) track(fileno(f)); return f;
}
int __wrap_open(const char* p, int fl, ...) {
	va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
	if (in_sut() && tracking) { C.opens++; hist(0x0FE2); if (cfg.open_fail) { C.open_failures++; errno = EACCES; return -1; } }
	int fd = __real_open(p, fl, mode); track(fd); return fd;
}
int __wrap_open64(const char* p, int fl, ...) {
	va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
	if (in_sut() && tracking) { C.opens++; hist(0x0FE2); if (cfg.open_fail) { C.open_failures++; errno = EACCES; return -1; } }
	int fd = __real_open64(p, fl, mode); track(fd); return fd;
}
ssize_t __wrap_read(int fd, void* buf, size_t n) {
	if (!(in_sut() && fd >= 0 && fd < 1024 && fd_tracked[fd])) return __real_read(fd, buf, n);
	read_no++; C.reads++; hist(0x2EAD);
	for (auto& f : cfg.rf) {
		if (f.n != read_no) continue;
		if (f.kind == 1) { C.eintr++; errno = EINTR; return -1; }
		if (f.kind == 2) { C.eio++; errno = EIO; return -1; }
		if (f.kind == 3) { C.early_eof++; return 0; }
		if (f.kind == 0 && n > (size_t)f.arg) { C.short_reads++; n = (size_t)f.arg; }
	}
	ssize_t r = __real_read(fd, buf, n);
	hist((uint64_t)r);
	return r;
}
// ifstream's xsgetn may use readv for large requests
ssize_t __real_readv(int, const struct iovec*, int);
ssize_t __wrap_readv(int fd, const struct iovec* v, int n) { return __real_readv(fd, v, n); }
}
