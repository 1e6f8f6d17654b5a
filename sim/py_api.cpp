// C interface of the simulator runtime and of the reference models for the Python simulation.
#include "seam.h"
#include "model.h"
#include <cstring>
#include <cstdlib>
#include <unistd.h>

using namespace sim;
#define API extern "C" __attribute__((visibility("default")))

static Config cf;
API void sim_reset() { cf = Config(); }
API void sim_mem(uint64_t fill, int reuse, int arena, uint64_t seed, uint64_t entropy) { cf.fill = fill; cf.reuse = reuse; cf.arena = arena; cf.alloc_seed = seed; cf.entropy = entropy; }
API void sim_clock(double wall0, double mono0, double query, double alloc) { cf.wall0 = wall0; cf.mono0 = mono0; cf.query_cost = query; cf.alloc_cost = alloc; }
API void sim_clk(uint64_t q, int kind, double s) { cf.clk.push_back({ q, kind, s }); }
API void sim_af(int op, uint64_t n, uint64_t count) { cf.af.push_back({ op, n, count }); }
static void ended(int code) { _exit(code == 134 ? 66 : 64 + (code & 1)); }      // the parent reads this as an exit during a call
static void endless() { _exit(67); }
API void sim_go() { on_exit_call = ended; on_endless = endless; configure(cf); }
API void sim_enter() { enter_sut(); }
API void sim_leave() { leave_sut(); }
API void sim_set_op(int op) { set_op(op); }
API void sim_hold(int d) { fault_hold += d; }
API double sim_mono() { return mono_now(); }
API double sim_wall() { return wall_now(); }
API void sim_hist(const char* s) { hist_str(s); }
API void sim_deadline(double at) { mark_deadline(at); }
API int sim_deadline_passed() { uint64_t w; return deadline_passed(w) ? 1 : 0; }
API const char* sim_heap() { heap_sweep(); const char* e = heap_error(); return e ? e : ""; }
API uint64_t sim_get(int k) {
	switch (k) {
	case 0: return hist_hash(); case 1: return C.queries; case 2: return C.allocs; case 3: return C.alloc_failures;
	case 4: return live_blocks(); case 5: return live_bytes(); case 6: return work(); case 7: return op_allocs();
	case 8: return C.stalls; case 9: return C.wall_jumps_fwd + C.wall_jumps_back; case 10: return C.rate_changes; case 11: return C.entropy;
	}
	return 0;
}

// reference model of one training set: text has one data block and one solver line; more data blocks can be scored
struct RefBox { Case c; Ref* r; };
API void* ref_new(const char* text) {
	RefBox* b = new RefBox(); b->c = Case::parse(text);
	b->r = new Ref(b->c.solvers[0].task, b->c.solvers[0].p, b->c.data[0]); return b;
}
API void ref_free(void* p) { RefBox* b = (RefBox*)p; delete b->r; delete b; }
static int build(RTree& t, std::istringstream& in) {
	char k; in >> k; int id = int(t.n.size()); t.n.push_back({});
	if (k == 'B') { int f; in >> f; t.n[id].f = f; int l = build(t, in); t.n[id].l = l; int r = build(t, in); t.n[id].r = r; }
	else { int n; in >> n; for (int i = 0; i < n; i++) { std::string s; in >> s; t.n[id].label.push_back(strtod(s.c_str(), nullptr)); } }
	return id;
}
static RTree tree_of(const char* s) { std::istringstream in(s); RTree t; build(t, in); return t; }
API double ref_objective(void* p, const char* tree, char* why, int n) {
	RefBox* b = (RefBox*)p; std::string w; double v = b->r->objective(tree_of(tree), &w);
	snprintf(why, size_t(n), "%s", w.c_str()); return v;
}
API double ref_best(void* p) { RefBox* b = (RefBox*)p; auto& q = b->c.solvers[0].p; return b->r->best(q.depth(), q.nodes()); }
API double ref_leaf(void* p) { return ((RefBox*)p)->r->best_leaf(); }
API double ref_tol(void* p, double v) { return ((RefBox*)p)->r->tol(v); }
API double ref_ss(void* p) { return ((RefBox*)p)->r->total_ss; }
API double ref_score(void* p, const char* tree, int data, int train) { RefBox* b = (RefBox*)p; return b->r->score(tree_of(tree), b->c.data[data], train != 0); }
API void ref_predict(void* p, const char* tree, int data, double* out) {
	RefBox* b = (RefBox*)p; RTree t = tree_of(tree); int i = 0;
	for (auto& r : b->c.data[data].rows) out[i++] = b->r->predict(t, r);
}

// std::cout as a caller of the module sees it: what is written outside of calls must arrive in this buffer
#include <iostream>
#include <sstream>
static std::stringbuf own_cout;
API void sim_cout_begin() { std::cout.rdbuf(&own_cout); }
API int sim_cout_probe() {
	if (std::cout.rdbuf() == nullptr || !std::cout.good()) return 0;
	own_cout.str("");
	std::cout << "probe" << std::flush;
	return own_cout.str() == "probe" ? 1 : 0;
}
