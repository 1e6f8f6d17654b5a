// Execution of cases and the oracles of the properties.
#include "props.h"
#include <algorithm>
#include <cstring>
#include <iostream>
#include <set>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>

extern "C" int streed_cli_main(int argc, char* argv[]);

namespace sim {

int cli_main(int argc, char** argv) { return streed_cli_main(argc, argv); }
static Verdict V;
static void (*report_fn)(const Verdict&) = nullptr;
static std::function<void(int)> exit_policy;

static void stats() {
	V.st["clock_queries"] = C.queries; V.st["allocations"] = C.allocs;
	V.st["fault.wall_jump_forward"] = C.wall_jumps_fwd; V.st["fault.wall_jump_back"] = C.wall_jumps_back;
	V.st["fault.stall"] = C.stalls; V.st["fault.rate_change"] = C.rate_changes;
	V.st["fault.allocation_failure"] = C.alloc_failures; V.st["fault.short_read"] = C.short_reads; V.st["fault.eintr"] = C.eintr;
	V.st["fault.eio"] = C.eio; V.st["fault.open_failure"] = C.open_failures; V.st["thread_switches"] = C.switches; V.st["schedule_points"] = C.points;
	V.st["file_reads"] = C.reads;
	V.simtime += mono_now();
}
[[noreturn]] static void done() {
	NoSut n;
	heap_sweep();
	if (heap_error()) V.bad(std::string("memory:") + heap_error(), std::string("memory misuse: ") + heap_error());
	stats();
	V.taken = schedule_taken();
	report_fn(V);
	_exit(0);
}
static void exit_hook(int code) {
	NoSut n;
	if (exit_policy) exit_policy(code);
	V.bad("exit:" + std::to_string(code), code == 134 ? "the process was aborted (terminate/abort) during a call" : "the process was ended by exit(" + std::to_string(code) + ") during a call");
	done();
}
static void endless_hook() {
	NoSut n;
	V.bad("endless", "a call had not returned after " + std::to_string(work()) + " allocations and clock queries");
	done();
}

std::string isolated(const Config& cfg, const std::function<std::string()>& fn) {
	int fd[2]; if (pipe(fd)) _exit(80);
	pid_t p = fork();
	if (p == 0) {
		::close(fd[0]);
		static int out; out = fd[1];
		auto put = [](const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t w = write(out, s.data() + o, s.size() - o); if (w <= 0) _exit(81); o += size_t(w); } };
		exit_policy = [put](int code) { put("!exit " + std::to_string(code)); _exit(0); };
		on_exit_call = exit_hook;
		on_endless = [] { const char* m = "!endless"; if (write(out, m, 8)) {} _exit(0); };
		configure(cfg);
		std::string s = fn();
		NoSut n; heap_sweep(); if (heap_error()) s += std::string("\n!memory ") + heap_error();
		put(s); _exit(0);
	}
	::close(fd[1]);
	std::string o; char b[65536]; ssize_t r;
	while ((r = ::read(fd[0], b, sizeof b)) > 0) o.append(b, size_t(r));
	::close(fd[0]);
	int st = 0; waitpid(p, &st, 0);
	if (WIFSIGNALED(st)) o = "!signal " + std::to_string(WTERMSIG(st));
	else if (WEXITSTATUS(st) != 0) { fprintf(stderr, "simulator child failed: %d\n", WEXITSTATUS(st)); _exit(WEXITSTATUS(st)); }
	return o;
}

// ------------------------------------------------------------------ validity of data and parameters
static bool valid_data(const Data& d, const Data* train) {
	if (d.rows.empty() || d.rows.size() > 500 || d.F < 1 || d.F > 18) return false;
	int mx = 0; bool g0 = false, g1 = false, pos = false;
	size_t M = d.rows[0].ex.size();
	for (auto& r : d.rows) {
		if (int(r.bits.size()) != d.F || r.ex.size() != M) return false;
		if (!real_label(d.task)) { if (r.y < 0 || r.y != std::floor(r.y)) return false; mx = std::max(mx, int(r.y)); }
		bool p = r.y == 1; pos |= p;
		if (d.task == GF || (d.task == EO && p)) { (r.bits[0] == '1' ? g1 : g0) = true; }
		if (d.task == SA && (r.y <= 0 || M != 1)) return false;
		if (d.task == ICS && int(M) != d.K) return false;
		if (d.task == PP && int(M) != d.K + 4) return false;
	}
	if ((d.task == SLR || d.task == PLR) && M < 1) return false;
	if ((d.task == GF || d.task == EO) && (!g0 || !g1 || (!train && mx != 1) || mx > 1 || d.F < 2)) return false;
	if (d.task == F1 && (!pos || mx > 1)) return false;
	if (d.task == PP && !train && mx != d.K - 1) return false;
	if (d.task == CS) {
		if (mx >= d.K || int(d.cm.size()) != d.K * d.K) return false;
		int f = 0; for (auto& c : d.fc) { if (c.begin != f || c.end < c.begin) return false; f = c.end + 1; }
		if (f != d.F) return false;
	}
	if (d.task == ICS && mx >= d.K) return false;
	if (train) { if (d.task != train->task || d.F != train->F || M != train->rows[0].ex.size()) return false; if (!real_label(d.task) && mx >= train->num_labels()) return false; if (d.task == CS && d.K != train->K) return false; }
	return true;
}
static bool valid_params(Task t, const Params& p, const Data& d) {
	int dep = p.depth(), n = p.nodes(); bool hy = p.flag("hyper-tune", false);
	if (dep < 0 || dep > 6 || n < 0 || n > (1 << dep) - 1) return false;
	if (n != (1 << dep) - 1 && p.num("cost-complexity", 0) >= 1e-6) return false;
	int M = d.rows.empty() ? 0 : int(d.rows[0].ex.size());
	if (t == PLR && (p.minleaf() < M || p.integer("num-extra-cols", 0) != M)) return false;
	if ((t == SLR) && p.integer("num-extra-cols", 0) != M) return false;
	if (t == ICS && p.integer("num-extra-cols", 0) != d.K) return false;
	// a node limit together with a cost per node is refused, and tuning these tasks sets that cost
	if (hy && n != (1 << dep) - 1 && (t == CCA || t == CCR || t == SLR || t == PLR)) return false;
	return true;
}
[[noreturn]] static void invalid() { V = Verdict(); V.invalid = true; report_fn(V); _exit(0); }
#define REQUIRE(x) do { if (!(x)) invalid(); } while (0)

// ------------------------------------------------------------------ oracles
enum { O_OPT = 1, O_VALID = 2, O_LEAF = 4 };

static double qlen_rows(const RTree& t, const Data& d) {
	double s = 0;
	for (auto& r : d.rows) s += t.steps(r);
	return s / d.rows.size();
}

// checks the result of a fit; returns objective of the tree (or +inf)
static double check_fit(Task t, const Params& p, const Data& d, const FitOut& o, int what, const std::string& where) {
	Ref ref(t, p, d);
	const double INF = std::numeric_limits<double>::infinity();
	double obj = INF;
	std::string tn = task_name[t];
	if (o.feasible) {
		std::string why;
		for (auto& nd : o.tree.n) if (nd.f < 0) for (double x : nd.label) if (std::isnan(x) || std::isinf(x)) { V.bad("leaf-nan:" + tn, where + "a leaf's value is not a number: " + o.str()); return INF; }
		obj = ref.objective(o.tree, &why);
		if (std::isinf(obj)) { V.bad("invalid-tree:" + tn, where + "returned tree is not acceptable: " + why + "; " + o.str()); return obj; }
		if (what & O_VALID) {
			double sc = ref.score(o.tree, d, true);
			double rel = t == SA ? 1e-5 : t == PLR || t == SLR ? 1e-5 : 1e-6, ab = real_label(t) ? 1e-6 + 1e-9 * ref.total_ss : 1e-9;
			if (!close(sc, o.score, rel, ab)) V.bad("score:" + tn, where + "reported training score " + fmt(o.score) + " but the returned tree scores " + fmt(sc) + "; " + o.str());
			if (o.depth != o.tree.depth() || o.nodes != o.tree.nodes()) V.bad("size:" + tn, where + "reported depth/node count " + std::to_string(o.depth) + "/" + std::to_string(o.nodes) + " but the tree has " + std::to_string(o.tree.depth()) + "/" + std::to_string(o.tree.nodes()) + "; " + o.str());
			double q1 = qlen_rows(o.tree, d);
			if (!close(o.qlen, q1, 1e-6, 1e-9)) V.bad("path-length:" + tn, where + "reported average path length " + fmt(o.qlen) + " but the tree's is " + fmt(q1) + "; " + o.str());
		}
	}
	if (ref.has_reference()) {
		if (what & O_LEAF) {
			double lf = ref.best_leaf();
			if (!std::isinf(lf)) {
				if (!o.feasible) V.bad("no-tree:" + tn, where + "no tree returned although a single leaf is acceptable; " + o.str());
				else if (obj > lf + ref.tol(lf)) V.bad("worse-than-leaf:" + tn, where + "tree has objective " + fmt(obj) + ", the best single leaf " + fmt(lf) + "; " + o.str());
			}
		}
		if ((what & O_OPT) && o.proven) {
			double b = ref.best(p.depth(), p.nodes());
			V.st["reference_states"] += ref.states;
			if (!o.feasible) { if (!std::isinf(b)) V.bad("infeasible:" + tn, where + "search complete and no tree returned, but a tree with objective " + fmt(b) + " exists"); }
			else if (obj > b + ref.tol(b)) V.bad("suboptimal:" + tn, where + "reported as proven optimal with objective " + fmt(obj) + " but " + fmt(b) + " is attainable; " + o.str());
			else if (obj < b - ref.tol(b)) V.bad("reference:" + tn, where + "objective " + fmt(obj) + " is better than the reference optimum " + fmt(b) + "; " + o.str());
		}
	}
	return obj;
}

static FitOut do_fit(IBox* b, const Data& d, bool keep) {
	FitOut o; Sut s;
	try { o = b->fit(d, keep); } catch (std::exception& e) { NoSut n; o = FitOut(); o.error = e.what(); }
	return o;
}
static FitOut do_refit(IBox* b) {
	FitOut o; Sut s;
	try { o = b->refit(); } catch (std::exception& e) { NoSut n; o = FitOut(); o.error = e.what(); }
	return o;
}
static IBox* new_box(const SolverDef& s, const Params& p) { Sut q; Hold h; return make_box(s.task, p, s.seed); }

static std::string bucket(uint64_t n) { int b = 0; while (n) { b++; n >>= 2; } return std::to_string(b); }
static std::string switches_of(const Params& p) {
	std::string s;
	for (auto k : { "use-terminal-solver", "use-similarity-lower-bound", "use-upper-bound", "use-lower-bound", "use-task-lower-bound", "use-dataset-caching" }) s += p.flag(k, true) ? '1' : '0';
	s += p.flag("use-branch-caching", false) ? '1' : '0'; s += p.flag("all-trees", false) ? '1' : '0'; s += p.str("feature-ordering", "in-order")[0];
	return s;
}

static const SolverDef* solver_of(const Case& c, const std::string& n) { for (auto& s : c.solvers) if (s.name == n) return &s; return nullptr; }

// C01-C04
static void run_fit(const Case& c) {
	REQUIRE(c.ops.size() == 1 && c.solvers.size() == 1 && c.data.size() == 1);
	auto& s = c.solvers[0]; auto& d = c.data[0];
	REQUIRE(d.task == s.task && valid_data(d, nullptr) && valid_params(s.task, s.p, d));
	configure(c.sim);
	double L = s.p.num("time", 3600), m0 = mono_now();
	IBox* b = new_box(s, s.p);
	mark_deadline(mono_now() + L);
	set_op(0);
	FitOut o = do_fit(b, d, false);
	set_op(-1);
	uint64_t w0; bool hit = deadline_passed(w0);
	if (!o.ok) V.bad("error", "fit ended with an exception: " + o.error);
	int what = c.prop == "C04" ? O_VALID | O_LEAF : O_OPT;
	if (o.ok) check_fit(s.task, s.p, d, o, what, "");
	{ Sut q; delete b; }
	V.st["deadline_fired"] = hit; V.st["proven"] = o.proven; V.st["infeasible"] = o.ok && !o.feasible; V.st["cut_short"] = o.ok && !o.proven;
	V.st[std::string("task.") + task_name[s.task]] = 1;
	V.nontrivial = o.ok && d.rows.size() > 1 && s.p.nodes() > 0 && (c.prop == "C04" ? hit : o.proven);
	V.shape = std::string(task_name[s.task]) + "|" + switches_of(s.p) + "|d" + std::to_string(s.p.depth()) + "|n" + std::to_string(s.p.nodes()) + "|p" + std::to_string(o.proven) + "|w" + bucket(hit ? w0 : 0) + "|q" + bucket(C.queries);
	V.simtime = -m0;
	done();
}

// work allowed after the deadline, besides a multiple of what was done before it (building the answer
// may search again what was searched for it, in a tuned fit for one configuration of one fold): enough for the step in hand and for building the answer,
// linear in the rows, quadratic in the columns, independent of depth and of the rest of the search
// a tuned fit still writes down every offered configuration and sets up every fold
struct Cand { Params p; };
static std::vector<Cand> offered(Task t, const Params& user, const Data& d);
static double slack(Task t, const Data& d, bool hyper) {
	double N = double(d.rows.size()), F = d.F, M = d.rows[0].ex.size() + 1.0;
	double step = 4000 + 16 * N * M + 80 * F * F;
	if (!hyper) return step;
	return (t == PLR ? 80000 : t == SLR || t == SA ? 60000 : 30000) + 40 * N * M + 20 * F * F;
}
// the parameters a tuned fit ended with, as a direct fit would be given them
static Params selected(const Params& user, std::map<std::string, double> pa) {
	Params sel = user; sel.kv.erase("hyper-tune"); sel.kv.erase("verbose"); sel.set("time", 2e9);
	for (auto k : { "max-depth", "max-num-nodes", "min-leaf-node-size" }) sel.set(k, int(pa[k]));
	for (auto k : { "cost-complexity", "lasso-penalty", "ridge-penalty" }) if (pa[k] != 0 || user.has(k)) sel.set(k, pa[k]);
	return sel;
}
static void run_budget(const Case& c) {
	REQUIRE(c.ops.size() == 1 && c.solvers.size() == 1 && c.data.size() == 1);
	auto& s = c.solvers[0]; auto& d = c.data[0];
	REQUIRE(d.task == s.task && valid_data(d, nullptr) && valid_params(s.task, s.p, d));
	bool ample = c.get("mode") == "ample", hyper = s.p.flag("hyper-tune", false);
	// the budget starts with the fit's own first look at the clock
	if (!ample) for (auto& e : c.sim.clk) REQUIRE(e.query >= 2);
	configure(c.sim);
	double L = s.p.num("time", 3600), m0 = mono_now();
	IBox* b = new_box(s, s.p);
	double allow = slack(s.task, d, hyper), again = hyper ? 0.5 : 2;
	static std::string okey, omsg;
	okey = std::string("overrun:") + (hyper ? "tuned:" : "") + task_name[s.task]; omsg = "after the time limit of " + fmt(L) + " s had passed the fit went on for more than ";
	on_overrun = [] { NoSut n; uint64_t w = 0; deadline_passed(w); V.bad(okey, omsg + std::to_string(work() - w - 1) + " allocations and clock queries (" + std::to_string(w) + " before it)"); done(); };
	mark_deadline(mono_now() + L, uint64_t(allow), again);
	FitOut o = do_fit(b, d, false);
	on_overrun = nullptr;
	uint64_t w0; bool hit = deadline_passed(w0);
	uint64_t over = hit ? work() - w0 : 0;
	double used = mono_now() - m0;
	std::string tn = task_name[s.task];
	if (!o.ok) V.bad("error:" + tn, "fit ended with an exception: " + o.error);
	if (o.ok && ample && used < 0.5 * L && !o.proven) V.bad("cut-short:" + tn, "fit used " + fmt(used) + " s of its " + fmt(L) + " s but reports that the search was cut short; " + o.str());
	if (o.ok && o.feasible) check_fit(s.task, hyper ? selected(s.p, b->params_after()) : s.p, d, o, O_VALID, "");
	{ Sut q; delete b; }
	V.st["deadline_fired"] = hit; V.st["tuned"] = hyper; V.st["ample"] = ample; V.st["max.work_after_deadline"] = over; V.st["max.percent_of_allowed"] = hit ? uint64_t(100 * over / (allow + again * w0)) : 0;
	V.st[std::string("task.") + tn] = 1;
	V.nontrivial = ample ? (C.wall_jumps_back + C.wall_jumps_fwd > 0) : hit;
	V.shape = tn + (hyper ? "|h" : "|") + (ample ? "a" : "d") + "|w" + bucket(w0) + "|j" + std::to_string(C.wall_jumps_back) + std::to_string(C.wall_jumps_fwd) + "|s" + std::to_string(C.stalls);
	V.simtime = -m0;
	done();
}

static Params params_of(const Op& o) { Params p; for (size_t i = 1; i < o.a.size(); i++) { auto e = o.a[i].find('='); if (e != std::string::npos) p.kv[o.a[i].substr(0, e)] = o.a[i].substr(e + 1); } return p; }

// C06
static void run_history(const Case& c) {
	REQUIRE(c.solvers.size() == 1 && c.ops.size() >= 1);
	auto& s = c.solvers[0]; Task t = s.task; std::string tn = task_name[t];
	for (auto& d : c.data) REQUIRE(d.task == t && valid_data(d, nullptr));
	REQUIRE(!c.data.empty());
	configure(c.sim); V.simtime = -mono_now();
	Params cur = s.p; const Data* last = nullptr; const Data* kept = nullptr; bool keptvalid = false;
	for (auto& k : { "x" }) (void)k;
	// parameters and data must fit together at every fit
	{
		Params q = s.p; const Data* kd = nullptr; double kml = 0; bool anyfit = false;
		REQUIRE(valid_params(t, q, c.data[0]) || true);
		for (auto& o : c.ops) {
			if (o.kind == "set") q = params_of(o);
			else if (o.kind == "fit" || o.kind == "fitk") { const Data* d = c.find(o.a[1]); REQUIRE(d && valid_params(t, q, *d)); anyfit = true; kd = o.kind == "fitk" ? d : nullptr; kml = q.num("min-leaf-node-size", 1); if (q.flag("hyper-tune", false)) REQUIRE(d->rows.size() >= 8); }
			else if (o.kind == "refit") { REQUIRE(kd && valid_params(t, q, *kd) && !q.flag("hyper-tune", false) && q.num("min-leaf-node-size", 1) == kml); }
			else if (o.kind == "pred" || o.kind == "score") REQUIRE(c.find(o.a[1]));
			else REQUIRE(false);
		}
		auto& f = c.ops.back(); REQUIRE(f.kind == "fit" || f.kind == "fitk" || f.kind == "refit"); REQUIRE(!q.flag("hyper-tune", false) && q.num("time", 0) >= 1e8);
		REQUIRE(c.ops.size() == 1 || c.ops[c.ops.size() - 2].kind == "set"); (void)anyfit;
	}
	IBox* b = new_box(s, s.p); std::string hist_s; uint64_t cut = 0, tuned = 0, nfit = 0;
	FitOut o;
	for (size_t i = 0; i < c.ops.size(); i++) {
		auto& op = c.ops[i]; set_op(int(i));
		if (op.kind == "set") { cur = params_of(op); Sut q; b->update(cur); continue; }
		hist_s += op.kind.substr(0, 1) + (op.kind == "refit" ? "k" : "");
		if (op.kind == "fit" || op.kind == "fitk") {
			const Data* d = c.find(op.a[1]);
			o = do_fit(b, *d, op.kind == "fitk");
			if (!o.ok) { V.bad("error:" + tn, "fit (operation " + std::to_string(i) + ") ended with an exception: " + o.error); break; }
			last = d; keptvalid = op.kind == "fitk"; if (keptvalid) kept = d; nfit++;
			cut += !o.proven; tuned += cur.flag("hyper-tune", false); if (!o.proven) hist_s += "!"; if (cur.flag("hyper-tune", false)) hist_s += "h";
		} else if (op.kind == "refit") {
			o = do_refit(b); last = kept; nfit++; if (!o.proven) hist_s += "!";
			if (!o.ok) { V.bad("error:" + tn, "refit (operation " + std::to_string(i) + ") ended with an exception: " + o.error); break; }
			cut += !o.proven;
		} else {
			const Data* d = c.find(op.a[1]);
			if (!last || !b->has_tree() || !valid_data(*d, last)) continue;
			Sut q;
			if (op.kind == "pred") b->predict(*d, false); else b->score(*d, false);
		}
	}
	if (!V.violation) {
		// the same fit on a new object
		set_op(-1);
		SolverDef fs = s;
		IBox* nb = new_box(fs, cur);
		FitOut n = do_fit(nb, *last, false);
		std::string why; bool same;
		if (t == PLR) same = o.same(n, &why);
		else {
			same = o.ok && n.ok && o.feasible == n.feasible && o.proven == n.proven;
			if (same && o.feasible) {
				Ref ref(t, cur, *last); double a = ref.objective(o.tree), e = ref.objective(n.tree);
				bool amb = t == CCA || t == PP;    // tasks whose score is not the objective: trees of equal objective may score differently
				same = std::isinf(a) == std::isinf(e) && (std::isinf(a) || std::fabs(a - e) <= ref.tol(a)) && (amb || close(o.score, n.score, real_label(t) ? 2e-3 : 1e-6, 1e-5));
			}
			if (!same) why = "used object: " + o.str() + "; new object: " + n.str();
		}
		if (!same) V.bad("history:" + tn, "fit after other work differs from the same fit on a new object: " + why);
		else if (o.feasible) check_fit(t, cur, *last, o, O_VALID, "fit after other work: ");
		Sut q; delete nb;
	}
	{ Sut q; delete b; }
	V.st["fits"] = nfit; V.st["cut_short"] = cut; V.st["tuned"] = tuned; V.st[std::string("task.") + tn] = 1;
	V.nontrivial = nfit >= 2; V.shape = tn + "|" + hist_s;
	done();
}

// C07
static std::string check_pred(const Ref& ref, const RTree& tr, const Data& d, const std::vector<double>& p) {
	if (p.size() != d.rows.size()) return "got " + std::to_string(p.size()) + " predictions for " + std::to_string(d.rows.size()) + " rows";
	for (size_t i = 0; i < p.size(); i++) { double e = ref.predict(tr, d.rows[i]); if (!close(e, p[i], 1e-9, 1e-9)) return "row " + std::to_string(i) + " (" + d.rows[i].bits + ") predicted " + fmt(p[i]) + " but the tree assigns " + fmt(e) + "; tree " + tr.str(); }
	return "";
}
static std::string check_score(const Ref& ref, const RTree& tr, const Data& d, const ScoreOut& s) {
	double e = ref.score(tr, d, false);
	double big = 0;     // the terms a real-valued score is summed from may be much larger than the score
	if (real_label(ref.t)) for (auto& r : d.rows) {
		double v = std::fabs(r.y); auto& lab = tr.n[tr.leaf_of(r)].label;
		for (size_t j = 0; j < lab.size(); j++) v += std::fabs(lab[j]) * (j ? std::fabs(j - 1 < r.ex.size() ? r.ex[j - 1] : 0) : 1);
		big = std::max(big, v * v);
	}
	if (!close(e, s.score, 1e-6, 1e-8 + 1e-14 * big)) return "score " + fmt(s.score) + " but the tree scores " + fmt(e) + " on the given rows; tree " + tr.str();
	double q1 = qlen_rows(tr, d);
	if (!close(s.qlen, q1, 1e-6, 1e-9)) return "average path length " + fmt(s.qlen) + " but the tree's is " + fmt(q1);
	return "";
}
static void run_predict(const Case& c) {
	std::map<std::string, IBox*> box; std::map<std::string, const Data*> tr; std::map<std::string, RTree> trees;
	for (auto& s : c.solvers) REQUIRE(s.task < NTASK);
	for (auto& o : c.ops) { REQUIRE(o.a.size() == 2); auto* s = solver_of(c, o.a[0]); auto* d = c.find(o.a[1]); REQUIRE(s && d && d->task == s->task); if (o.kind == "fit" || o.kind == "fitk") { REQUIRE(valid_data(*d, nullptr) && valid_params(s->task, s->p, *d)); } }
	configure(c.sim); V.simtime = -mono_now();
	uint64_t np = 0, nsc = 0; std::string sh;
	for (auto& s : c.solvers) { box[s.name] = new_box(s, s.p); sh += std::string(task_name[s.task]) + "|"; V.st[std::string("task.") + task_name[s.task]] = 1; }
	for (size_t i = 0; i < c.ops.size() && !V.violation; i++) {
		auto& o = c.ops[i]; auto* s = solver_of(c, o.a[0]); auto* d = c.find(o.a[1]); auto* b = box[o.a[0]]; std::string tn = task_name[s->task];
		std::string at = "operation " + std::to_string(i) + " (" + o.kind + " " + o.a[0] + " " + o.a[1] + "): ";
		if (o.kind == "fit" || o.kind == "fitk") {
			FitOut f = do_fit(b, *d, o.kind == "fitk"); sh += "f";
			if (!f.ok) { V.bad("error:" + tn, at + f.error); break; }
			tr.erase(s->name); if (f.feasible) { tr[s->name] = d; trees[s->name] = f.tree; }
			continue;
		}
		if (!tr.count(s->name) || !valid_data(*d, tr[s->name])) continue;
		Ref ref(s->task, s->p, *tr[s->name]); auto& t = trees[s->name]; bool keep = o.kind.back() == 'k';
		bool bad = false; for (auto& nd : t.n) for (double x : nd.label) if (std::isnan(x)) bad = true;
		if (bad) continue;
		try {
			std::string e;
			if (o.kind == "pred" || o.kind == "predk") { std::vector<double> p; { Sut q; p = b->predict(*d, keep); } e = check_pred(ref, t, *d, p); np++; sh += "p"; if (!e.empty()) V.bad("predict:" + tn, at + e); }
			else { ScoreOut so; { Sut q; so = b->score(*d, keep); } e = check_score(ref, t, *d, so); nsc++; sh += "s"; if (!e.empty()) V.bad("score:" + tn, at + e); }
		} catch (std::exception& e) { V.bad("error:" + tn, at + e.what()); }
	}
	{ Sut q; for (auto& b : box) delete b.second; }
	V.st["predictions"] = np; V.st["scorings"] = nsc; V.nontrivial = np + nsc >= 2; V.shape = sh;
	done();
}

// C08
struct CaptureBuf : std::streambuf {
	std::string s;
	int overflow(int ch) override { point(2); if (ch != EOF) { NoSut n; s += char(ch); } C.outputs++; return ch; }
	std::streamsize xsputn(const char* p, std::streamsize n) override { point(2); NoSut q; s.append(p, size_t(n)); C.outputs++; return n; }
	int sync() override { point(2); return 0; }
};
static std::map<std::string, int> marks(const std::string& s) {
	std::map<std::string, int> m;
	for (auto k : { "Search n", "Search d", "seconds", "Solution", "Score:", "Tune phase", "Finished hyper", "Time spent", "Cache entries", "Terminal" }) {
		int n = 0; for (size_t p = s.find(k); p != std::string::npos; p = s.find(k, p + 1)) n++; m[k] = n;
	}
	m["newlines"] = int(std::count(s.begin(), s.end(), '\n'));
	return m;
}
static std::string run_ops(const Case& c, int th, std::map<std::string, IBox*>& box) {
	std::string out;
	for (size_t i = 0; i < c.ops.size(); i++) {
		auto& o = c.ops[i]; if (o.thread != th) continue;
		auto* s = solver_of(c, o.a[0]); auto* d = c.find(o.a[1]);
		if (!box[s->name]) box[s->name] = new_box(*s, s->p);
		IBox* b = box[s->name];
		if (o.kind == "fit") { FitOut f = do_fit(b, *d, false); out += "fit " + f.str() + "\n"; }
		else {
			bool has; { Sut q; has = b->has_tree(); }
			if (!has) { out += "none\n"; continue; }
			try {
				if (o.kind == "pred") { std::vector<double> p; { Sut q; p = b->predict(*d, false); } out += "pred"; for (double x : p) out += " " + fmt(x); out += "\n"; }
				else { ScoreOut so; { Sut q; so = b->score(*d, false); } out += "score " + fmt(so.score) + " " + fmt(so.qlen) + "\n"; }
			} catch (std::exception& e) { out += std::string("error ") + e.what() + "\n"; }
		}
	}
	Sut q; for (auto& s : c.solvers) if (box.count(s.name) && box[s.name]) { bool mine = false; for (auto& o : c.ops) if (o.thread == th && o.a[0] == s.name) mine = true; if (mine) { delete box[s.name]; box[s.name] = nullptr; } }
	return out;
}
struct ThreadArg { const Case* c; std::vector<std::map<std::string, IBox*>> box; std::vector<std::string> out; };
static void thread_body(int i, void* a) { auto* t = (ThreadArg*)a; t->out[i] = run_ops(*t->c, i, t->box[i]); }

static void run_threads(const Case& given) {
	Case c = given;
	c.sim.dense = c.cfg.count("dense"); c.sim.thread_clock = c.cfg.count("clocks");
	int nt = 0; std::map<std::string, int> owner; std::map<std::string, const Data*> fitted;
	for (auto& o : c.ops) {
		REQUIRE(o.a.size() == 2 && o.thread >= 0 && o.thread < 6); nt = std::max(nt, o.thread + 1);
		auto* s = solver_of(c, o.a[0]); auto* d = c.find(o.a[1]); REQUIRE(s && d && s->task == d->task);
		if (owner.count(s->name)) REQUIRE(owner[s->name] == o.thread); owner[s->name] = o.thread;
		if (o.kind == "fit") { REQUIRE(valid_data(*d, nullptr) && valid_params(s->task, s->p, *d) && (!s->p.flag("hyper-tune", false) || d->rows.size() >= 8)); fitted[s->name] = d; }
		else REQUIRE(fitted.count(s->name) && valid_data(*d, fitted[s->name]));
	}
	REQUIRE(nt >= 1);
	std::vector<std::string> expect(nt); std::map<std::string, int> em; std::string sh;
	for (int i = 0; i < nt; i++) {
		Config k = c.sim; k.sched_on = false;
		std::string r = isolated(k, [&] {
			CaptureBuf cb; auto* old = std::cout.rdbuf(&cb);
			std::map<std::string, IBox*> box; std::string o = run_ops(c, i, box);
			std::cout.rdbuf(old);
			for (auto& m : marks(cb.s)) o += "#" + m.first + "=" + std::to_string(m.second) + "\n";
			return o;
		});
		std::istringstream is(r); std::string l;
		while (std::getline(is, l)) { if (l[0] == '#') { auto e = l.find('='); em[l.substr(1, e - 1)] += atoi(l.c_str() + e + 1); } else expect[i] += l + "\n"; }
		if (!r.empty() && r[0] == '!') { V.bad("solo", "operations of one solver alone ended abnormally: " + r); configure(c.sim); done(); }
	}
	configure(c.sim); V.simtime = -mono_now();
	CaptureBuf cb; auto* old = std::cout.rdbuf(&cb);
	auto flags = std::cout.flags(); auto prec = std::cout.precision();
	ThreadArg ta; ta.c = &c; ta.box.resize(nt); ta.out.resize(nt);
	thread_run(nt, thread_body, &ta);
	bool restored = std::cout.rdbuf() == &cb && std::cout.flags() == flags && std::cout.precision() == prec;
	std::cout.rdbuf(old);
	for (int i = 0; i < nt && !V.violation; i++) if (ta.out[i] != expect[i]) {
		std::istringstream a(expect[i]), b(ta.out[i]); std::string x, y; int k = 0;
		while (true) { bool p = bool(std::getline(a, x)), q = bool(std::getline(b, y)); if (!p && !q) break; if (x != y || p != q) break; k++; }
		V.bad("interleaving", "thread " + std::to_string(i) + ", result " + std::to_string(k) + ": alone \"" + x + "\", interleaved \"" + y + "\"");
	}
	auto m = marks(cb.s);
	if (!V.violation && m != em) { std::string w; for (auto& k : m) if (k.second != em[k.first]) w += k.first + ": " + std::to_string(em[k.first]) + " expected, " + std::to_string(k.second) + " seen; "; V.bad("output", "verbose messages lost or added under interleaving: " + w); }
	if (!restored) V.bad("stream-state", "the standard output stream's buffer or format flags were changed");
	for (auto& s : c.solvers) { sh += std::string(task_name[s.task]) + "|"; V.st[std::string("task.") + task_name[s.task]] = 1; }
	V.nontrivial = C.switches >= uint64_t(nt); V.shape = sh + bucket(C.switches);
	V.st["threads"] = nt; V.st["output_writes"] = C.outputs;
	if (c.sim.dense) V.st["runs_with_basic_block_points"] = 1;
	if (c.sim.thread_clock) V.st["runs_with_deadlines"] = 1;
	done();
}

// C09
static void put_files(const Case& c) { for (auto n : { "in.txt", "test.txt", "cost.txt" }) unlink(n); for (auto& f : c.files) { FILE* o = fopen(f.first.c_str(), "wb"); if (!o) _exit(82); fwrite(f.second.data(), 1, f.second.size(), o); fclose(o); } }

static std::string filter(const std::string& s) {
	std::istringstream is(s); std::string l, o;
	while (std::getline(is, l)) { if (l.find("TIME") != std::string::npos || l.find("CLOCKS") != std::string::npos || l.find("econds") != std::string::npos || l.find("ime") != std::string::npos) continue; o += l + "\n"; }
	return o;
}
static std::string observe(const Case& c) {
	std::string out; auto& s = c.solvers[0];
	if (c.get("cli") == "1") {
		std::vector<std::string> a{ "streed", "-task", task_name[s.task] };
		for (auto& k : s.p.kv) { a.push_back("-" + k.first); a.push_back(k.second); }
		std::vector<char*> argv; for (auto& x : a) argv.push_back(&x[0]); argv.push_back(nullptr);
		CaptureBuf cb; auto* old = std::cout.rdbuf(&cb);
		int rc; { Sut q; try { rc = cli_main(int(a.size()), argv.data()); } catch (std::exception& e) { rc = -1; NoSut n; cb.s += std::string("exception ") + e.what(); } }
		std::cout.rdbuf(old);
		std::string f = filter(cb.s);
		return "rc " + std::to_string(rc) + "\n" + f + (f.find("successfully") == std::string::npos ? "!incomplete\n" : "");
	}
	std::map<std::string, IBox*> box;
	CaptureBuf cb; auto* old = std::cout.rdbuf(&cb);
	out = run_ops(c, 0, box);
	std::cout.rdbuf(old);
	return out;
}
static void run_repro(const Case& c) {
	REQUIRE(c.solvers.size() == 1 && !c.ops.empty());
	auto& s = c.solvers[0];
	if (c.get("cli") != "1") {
		for (auto& o : c.ops) { REQUIRE(o.a.size() == 2); auto* d = c.find(o.a[1]); REQUIRE(d && d->task == s.task && valid_data(*d, nullptr) && valid_params(s.task, s.p, *d) && (o.kind == "fit" || o.kind == "pred" || o.kind == "score")); if (s.p.flag("hyper-tune", false)) REQUIRE(d->rows.size() >= 8); }
		REQUIRE(c.ops[0].kind == "fit");
	} else REQUIRE(!c.files.empty());
	put_files(c);
	auto one = [&](const Config& k) { return isolated(k, [&] { std::string o = observe(c); return o + "#q=" + std::to_string(C.queries) + " e=" + std::to_string(C.entropy) + " t=" + fmt(mono_now() - c.sim.mono0); }); };
	Config k1 = c.sim, k2 = c.sim;
	k2.arena = atoi(c.get("arena2", "1").c_str()); k2.entropy = strtoull(c.get("entropy2", "7").c_str(), 0, 10); k2.wall0 = atof(c.get("wall2", "1.1e9").c_str());
	k2.fill = strtoull(c.get("fill2", "0").c_str(), 0, 10); k2.reuse = atoi(c.get("reuse2", "1").c_str()); k2.query_cost = atof(c.get("query2", "1e-7").c_str()); k2.alloc_seed = k1.alloc_seed + 1;
	std::string a = one(k1), b = one(k2);
	auto body = [](const std::string& x) { auto p = x.rfind("#q="); return p == std::string::npos ? x : x.substr(0, p); };
	uint64_t q = 0, e = 0; double tm = 0; { auto p = a.rfind("#q="); if (p != std::string::npos) sscanf(a.c_str() + p, "#q=%lu e=%lu t=%lf", &q, &e, &tm); }
	std::string x = body(a), y = body(b);
	std::string tn = task_name[s.task];
	configure(c.sim); hist_str(x); hist_str(y); V.simtime = -mono_now() + tm;
	auto abn = [](const std::string& z) { return z.substr(0, 1) == "!" || z.find("\n!") != std::string::npos; };
	if (x != y) {
		std::istringstream i1(x), i2(y); std::string l1, l2; while (true) { bool p = bool(std::getline(i1, l1)), r = bool(std::getline(i2, l2)); if (!p) l1 = "(end)"; if (!r) l2 = "(end)"; if ((!p && !r) || l1 != l2) break; }
		V.bad("differs:" + tn, "two runs with the same data, parameters and seed differ: \"" + l1 + "\" vs \"" + l2 + "\"");
	} else if (abn(x)) V.bad("abnormal:" + tn, "run ended abnormally: " + x.substr(0, 300));
	V.st["sub_runs"] = 2; V.st["clock_queries_sub"] = q; V.st["entropy_reads"] = e; V.st["cli"] = c.get("cli") == "1"; V.st["tuned"] = s.p.flag("hyper-tune", false); V.st["split"] = s.p.has("train-test-split"); V.st["sampled"] = s.p.has("num-instances");
	V.st[std::string("task.") + tn] = 1;
	V.nontrivial = true; V.shape = tn + "|" + (c.get("cli") == "1" ? "c" : "o") + (s.p.flag("hyper-tune", false) ? "h" : "") + (s.p.has("train-test-split") ? "s" : "") + (s.p.has("num-instances") ? "n" : "") + "|" + std::to_string(std::hash<std::string>()(x) % 100000);
	done();
}

// C10
static void run_split(const Case& c) {
	REQUIRE(c.data.size() == 1); auto& d = c.data[0]; int N = int(d.rows.size()); REQUIRE(N >= 1);
	for (auto& r : d.rows) REQUIRE(int(r.bits.size()) == d.F && (real_label(d.task) || r.y >= 0));
	configure(c.sim); V.simtime = -mono_now();
	bool st = c.get("stratify") == "1", cls = !real_label(d.task); uint64_t seed = strtoull(c.get("seed", "1").c_str(), 0, 10);
	std::string sh;
	auto slots = [&](const std::vector<int>& id, const std::vector<int>& sl) { for (size_t i = 0; i < id.size() && i < sl.size(); i++) if (sl[i] != (cls ? int(d.rows[id[i]].y) : 0)) return false; return true; };
	auto classes = [&](const std::vector<int>& id) { std::map<int, int> m; for (int i : id) m[int(d.rows[i].y)]++; return m; };
	if (c.get("kind") == "kfold") {
		int k = atoi(c.get("folds", "5").c_str()); REQUIRE(k >= 2 && k <= 20);
		bool sub = c.get("subset") == "1"; REQUIRE(!sub || N >= 4);
		std::vector<SplitOut> o;
		try { o = do_kfold(d, seed, k, st, sub); } catch (std::exception& e) { V.bad("error", std::string("splitting ended with an exception: ") + e.what()); done(); }
		std::set<int> all(o[0].train.begin(), o[0].train.end()), seen; int n = int(all.size());
		if (int(o.size()) != k + 1) V.bad("folds", "asked for " + std::to_string(k) + " folds, got " + std::to_string(o.size() - 1));
		auto ac = classes(o[0].train);
		for (int f = 1; f < int(o.size()) && !V.violation; f++) {
			auto& x = o[f]; std::string at = "fold " + std::to_string(f) + ": ";
			std::set<int> tr(x.train.begin(), x.train.end()), te(x.test.begin(), x.test.end());
			if (tr.size() != x.train.size() || te.size() != x.test.size()) V.bad("duplicate", at + "an instance occurs twice or the view's size is wrong");
			for (int i : x.test) { if (!all.count(i)) V.bad("foreign", at + "test instance does not belong to the data"); if (tr.count(i)) V.bad("leak", at + "instance " + std::to_string(i) + " is in both parts"); if (!seen.insert(i).second) V.bad("twice", at + "instance " + std::to_string(i) + " is in two test parts"); }
			if (tr.size() + te.size() != all.size()) V.bad("lost", at + std::to_string(all.size() - tr.size() - te.size()) + " instances are in neither part");
			if (!slots(x.train, x.train_slot) || !slots(x.test, x.test_slot)) V.bad("label", at + "an instance is filed under another label than its own");
			double want = double(n) / k; double allow = st ? (cls ? double(ac.size()) : 11.0) : 1.0;
			if (std::fabs(double(te.size()) - want) > allow + 1e-9) V.bad("size", at + "has " + std::to_string(te.size()) + " of " + std::to_string(n) + " instances");
			if (st && cls) { auto tc = classes(x.test); for (auto& q : ac) if (std::fabs(tc[q.first] - double(q.second) / k) > 1 + 1e-9) V.bad("proportion", at + "holds " + std::to_string(tc[q.first]) + " of " + std::to_string(q.second) + " instances of class " + std::to_string(q.first)); }
		}
		if (!V.violation && seen.size() != all.size()) V.bad("lost", "some instance is in no test part");
		sh = "kfold|" + std::to_string(k) + (sub ? "s" : "");
	} else {
		double fr = atof(c.get("frac", "0.5").c_str()); REQUIRE(fr >= 0 && fr <= 1);
		SplitOut o;
		try { o = do_split(d, seed, fr, st); } catch (std::exception& e) { V.bad("error", std::string("splitting ended with an exception: ") + e.what()); done(); }
		std::set<int> tr(o.train.begin(), o.train.end()), te(o.test.begin(), o.test.end());
		if (tr.size() != o.train.size() || te.size() != o.test.size()) V.bad("duplicate", "an instance occurs twice or the view's size is wrong");
		for (int i : o.test) { if (i < 0 || i >= N) V.bad("foreign", "instance does not belong to the data"); if (tr.count(i)) V.bad("leak", "instance " + std::to_string(i) + " is in both parts"); }
		if (int(tr.size() + te.size()) != N) V.bad("lost", std::to_string(N - int(tr.size() + te.size())) + " instances are in neither part");
		if (!V.violation && (!slots(o.train, o.train_slot) || !slots(o.test, o.test_slot))) V.bad("label", "an instance is filed under another label than its own");
		std::vector<int> ids(N); for (int i = 0; i < N; i++) ids[i] = i; auto ac = classes(ids);
		double allow = st ? (cls ? 0.5 * ac.size() : 5.5) : 0.5;
		if (std::fabs(te.size() - fr * N) > allow + 1e-6) V.bad("size", "test part has " + std::to_string(te.size()) + " of " + std::to_string(N) + " instances, asked for " + fmt(fr));
		if (st && cls && !V.violation) { auto tc = classes(o.test); for (auto& q : ac) if (std::fabs(tc[q.first] - q.second * fr) > 0.5 + 1e-6) V.bad("proportion", "test part holds " + std::to_string(tc[q.first]) + " of " + std::to_string(q.second) + " instances of class " + std::to_string(q.first)); }
		sh = "split";
	}
	V.st["stratified"] = st; V.st["regression"] = !cls; V.nontrivial = N >= 4; V.shape = sh + (st ? "|st" : "|") + (cls ? "c" : "r") + "|n" + std::to_string(N);
	done();
}

// C11
static std::vector<Cand> offered(Task t, const Params& user, const Data& d) {
	std::vector<Cand> o; int N = int(d.rows.size());
	auto add = [&](std::initializer_list<std::pair<const char*, double>> l) { Cand c; c.p = user; for (auto& k : l) c.p.set(k.first, k.second); o.push_back(c); };
	if (t == CCA) {
		std::vector<double> a; double base = 1.0 / N; for (int i = 1; i <= 9; i++) a.push_back(base * i); for (int i = 10; i <= 100; i += 10) a.push_back(base * i);
		for (double x = 100.0 / N; x < 0.01; x += 0.001) a.push_back(x);
		std::sort(a.rbegin(), a.rend()); for (double x : a) if (x <= 0.1 + 1e-12) add({ { "cost-complexity", x } });
	} else if (t == CCR) { for (double x : { 0.1, 0.05, 0.025, 0.01, 0.0075, 0.005, 0.0025, 0.001, 0.0005, 0.0001 }) add({ { "cost-complexity", x } }); }
	else if (t == SLR || t == PLR) { }
	else for (int dd = 0; dd <= user.depth(); dd++) for (int n = dd; n <= std::min(user.nodes(), (1 << dd) - 1); n++) { Cand c; c.p = user; c.p.set("max-depth", dd); c.p.set("max-num-nodes", n); o.push_back(c); }
	return o;
}
static bool higher_better(Task t) { return t == ACC || t == CCA || t == F1 || t == GF || t == EO || t == PP; }

// the scores the tuning run announces: the configuration kept must have the best average
static void check_announced(Task t, const std::string& text, int ncand, int ix) {
	std::map<int, std::map<int, std::map<int, double>>> seen; std::map<int, int> configs, runs; std::map<int, std::map<int, std::string>> desc; std::map<int, std::string> best;
	std::istringstream is(text); std::string l;
	while (std::getline(is, l)) {
		int ph, nph, r, nr, cf, nc, at = 0; char buf[256] = ""; double v;
		size_t k = l.rfind("Score: ");
		if (sscanf(l.c_str(), "Tune phase %d/%d Split %d/%d Config %d/%d %n", &ph, &nph, &r, &nr, &cf, &nc, &at) == 6 && at > 0 && k != std::string::npos && int(k) > at && sscanf(l.c_str() + k, "Score: %lf", &v) == 1) {
			std::string ds = l.substr(at, k - at); while (!ds.empty() && isspace((unsigned char)ds.back())) ds.pop_back();
			seen[ph][r][cf] = v; configs[ph] = nc; runs[ph] = nr; desc[ph][cf] = ds;
		} else if (sscanf(l.c_str(), "Finished hyper parameter search (phase %d/%d). Best config : %255[^\n]", &ph, &nph, buf) == 3) { best[ph] = buf; while (!best[ph].empty() && isspace((unsigned char)best[ph].back())) best[ph].pop_back(); }
	}
	for (auto& p : seen) {
		int ph = p.first, nc = configs[ph], nr = runs[ph]; std::vector<double> avg(nc + 1, 0); bool ok = true;
		for (int r = 1; r <= nr && ok; r++) for (int k = 1; k <= nc; k++) { auto it = p.second[r].find(k); if (it == p.second[r].end()) { if (k == 1) { ok = false; break; } p.second[r][k] = p.second[r][k - 1]; } avg[k] += p.second[r][k] / nr; }
		int kept = 0;
		if (ncand > 0 && ncand == nc && ix >= 0) kept = ix + 1;
		else if (best.count(ph)) for (auto& q : desc[ph]) if (q.second == best[ph]) kept = q.first;
		if (!ok || !kept) continue;
		V.st["announced_phases"]++;
		for (int k = 1; k <= nc; k++) {
			double df = higher_better(t) ? avg[k] - avg[kept] : avg[kept] - avg[k];
			if (df > 2e-6 + 1e-6 * std::max(std::fabs(avg[k]), std::fabs(avg[kept]))) { V.bad("announced:" + std::string(task_name[t]), "phase " + std::to_string(ph) + ": configuration " + std::to_string(kept) + " (" + desc[ph][kept] + ") was kept with average validation score " + fmt(avg[kept]) + " although configuration " + std::to_string(k) + " (" + desc[ph][k] + ") was announced with " + fmt(avg[k])); return; }
		}
	}
}

static void run_tune(const Case& c) {
	REQUIRE(c.ops.size() == 1 && c.solvers.size() == 1 && c.data.size() == 1);
	auto& s = c.solvers[0]; auto& d = c.data[0]; Task t = s.task; std::string tn = task_name[t];
	REQUIRE(d.task == t && valid_data(d, nullptr) && valid_params(t, s.p, d) && s.p.flag("hyper-tune", false) && d.rows.size() >= 5);
	configure(c.sim); double m0 = mono_now();
	double L = s.p.num("time", 3600);
	IBox* b = new_box(s, s.p);
	mark_deadline(mono_now() + L);
	CaptureBuf cb; auto* old = std::cout.rdbuf(&cb);
	FitOut o = do_fit(b, d, false);
	std::cout.rdbuf(old);
	uint64_t w0; bool hit = deadline_passed(w0);
	std::map<std::string, double> pa = b->params_after();
	V.st["deadline_fired"] = hit; V.st[std::string("task.") + tn] = 1; V.st["infeasible"] = o.ok && !o.feasible;
	V.nontrivial = true; V.simtime = -m0; V.shape = tn + "|" + (hit ? "d" : "a") + "|" + bucket(w0) + "|" + std::to_string(int(pa["max-depth"])) + "," + std::to_string(int(pa["max-num-nodes"])) + "," + fmt(pa["cost-complexity"]) + "|" + std::to_string(o.feasible);
	if (!o.ok) { V.bad("error:" + tn, "tuned fit ended with an exception: " + o.error); done(); }
	// selected parameters inside the user's limits
	Params sel = selected(s.p, pa);
	if (sel.depth() > s.p.depth() || sel.nodes() > s.p.nodes() || sel.minleaf() != s.p.minleaf()) V.bad("limits:" + tn, "selected parameters exceed the user's limits: depth " + std::to_string(sel.depth()) + " nodes " + std::to_string(sel.nodes()));
	Params user = sel; user.set("max-depth", s.p.depth()); user.set("max-num-nodes", s.p.nodes());
	if (o.feasible) check_fit(t, user, d, o, 0, "tuned fit: ");          // user's limits
	if (o.feasible && !V.violation) check_fit(t, sel, d, o, O_VALID, "tuned fit: ");
	if (!o.feasible && !hit && !V.violation && t != PLR) { Ref r(t, sel, d); if (!std::isinf(r.best_leaf())) V.bad("no-tree:" + tn, "tuned fit returned no tree although a single leaf is acceptable"); }
	if (!V.violation && !hit) {
		// the direct fit with the selected parameters on a new object
		IBox* nb = new_box(s, sel);
		FitOut n = do_fit(nb, d, false);
		bool same = o.feasible == n.feasible && o.proven == n.proven;
		if (same && o.feasible) {
			if (t == PLR) same = close(o.score, n.score, 1e-6, 1e-9);
			else { Ref ref(t, sel, d); double a = ref.objective(o.tree), e = ref.objective(n.tree); same = std::isinf(a) == std::isinf(e) && (std::isinf(a) || std::fabs(a - e) <= ref.tol(a)); }
		}
		if (!same) V.bad("direct:" + tn, "tuned fit differs from a direct fit with the selected parameters (depth " + std::to_string(sel.depth()) + " nodes " + std::to_string(sel.nodes()) + " cost-complexity " + fmt(pa["cost-complexity"]) + " lasso " + fmt(pa["lasso-penalty"]) + "): tuned " + o.str() + "; direct " + n.str());
		{ Sut q; delete nb; }
		// selection
		auto cand = offered(t, s.p, d);
		int ix = -1;
		for (size_t i = 0; i < cand.size(); i++) if (cand[i].p.depth() == sel.depth() && cand[i].p.nodes() == sel.nodes() && (t != CCA && t != CCR ? true : close(cand[i].p.num("cost-complexity", 0), pa["cost-complexity"], 1e-6, 1e-9))) ix = int(i);
		// with too few distinct rows for two folds nothing is tuned and the user's own values remain
		std::set<std::string> distinct; std::string use;
		for (int f = 0; f < d.F; f++) { int on = 0; for (auto& w : d.rows) on += w.bits[f] == '1'; use += on >= s.p.minleaf() && int(d.rows.size()) - on >= s.p.minleaf() ? '1' : '0'; }
		for (auto& w : d.rows) { std::string q = w.bits; for (int f = 0; f < d.F; f++) if (use[f] == '0') q[f] = '-'; distinct.insert(q); }
		bool untuned = distinct.size() < 2 && close(pa["cost-complexity"], s.p.num("cost-complexity", 0), 1e-6, 1e-9);
		if (!cand.empty() && ix < 0 && !untuned && !V.violation) V.bad("offer:" + tn, "selected parameters are not among the offered configurations: depth " + std::to_string(sel.depth()) + " nodes " + std::to_string(sel.nodes()) + " cost-complexity " + fmt(pa["cost-complexity"]));
		if (!V.violation) check_announced(t, cb.s, int(cand.size()), ix);
		bool simple = t == ACC || t == CS || t == ICS || t == PP || t == F1;
		if (simple && ix >= 0 && !V.violation && d.rows.size() >= 20 && d.rows.size() <= 60 && cand.size() <= 24) {
			// worse than another configuration for the folds of this seed and for every other assignment tried
			int R = 12; std::vector<std::vector<double>> avg(R, std::vector<double>(cand.size(), 0)); std::vector<bool> can(cand.size(), true); uint64_t fits = 0; bool usable = true;
			std::vector<bool> beats(cand.size(), true); beats[ix] = false;
			for (int rr = 0; rr < R && usable; rr++) {
				bool any = false; for (bool x : beats) any |= x; if (!any) break;
				auto folds = do_kfold(d, rr == 0 ? s.seed : 1000 + rr, 5, false, false);
				for (size_t f = 1; f < folds.size() && usable; f++) {
					Data tr = d, te = d; tr.rows.clear(); te.rows.clear();
					for (int i : folds[f].train) tr.rows.push_back(d.rows[i]); for (int i : folds[f].test) te.rows.push_back(d.rows[i]);
					if (!valid_data(tr, nullptr) || !valid_data(te, &tr)) { usable = false; break; }
					for (size_t k = 0; k < cand.size() && usable; k++) {
						if (!beats[k] && int(k) != ix) continue;
						Params q = cand[k].p; q.kv.erase("hyper-tune"); q.kv.erase("verbose"); q.set("time", 2e9);
						IBox* fb = new_box(s, q); FitOut ff = do_fit(fb, tr, false); { Sut z; delete fb; } fits++;
						if (!ff.ok || !ff.feasible) { usable = false; break; }
						Ref r2(t, q, tr); avg[rr][k] += r2.score(ff.tree, te, false) / 5;
					}
				}
				for (size_t k = 0; k < cand.size(); k++) if (beats[k]) { double df = higher_better(t) ? avg[rr][k] - avg[rr][ix] : avg[rr][ix] - avg[rr][k]; if (!(df > 0.02 * std::max(std::fabs(avg[rr][ix]), std::fabs(avg[rr][k])) + 1e-6)) beats[k] = false; }
			}
			V.st["cross_validation_fits"] = fits; V.st["selection_checked"] = usable;
			for (size_t k = 0; k < cand.size(); k++) if (beats[k]) { double a = 0, e = 0; for (int rr = 0; rr < R; rr++) a += avg[rr][ix], e += avg[rr][k]; if (!((higher_better(t) ? e - a : a - e) > 0.3 * std::max(std::fabs(a), std::fabs(e)))) beats[k] = false; }
			if (usable) for (size_t k = 0; k < cand.size(); k++) if (beats[k]) { V.bad("selection:" + tn, "selected configuration (depth " + std::to_string(sel.depth()) + ", nodes " + std::to_string(sel.nodes()) + ", cost-complexity " + fmt(pa["cost-complexity"]) + ") has average validation score " + fmt(avg[0][ix]) + ", the offered configuration (depth " + std::to_string(cand[k].p.depth()) + ", nodes " + std::to_string(cand[k].p.nodes()) + ", cost-complexity " + cand[k].p.str("cost-complexity", "0") + ") has " + fmt(avg[0][k]) + ", and is better for every one of " + std::to_string(R) + " fold assignments"); break; }
		}
	}
	{ Sut q; delete b; }
	done();
}

// C12
static void run_alloc(const Case& c) {
	REQUIRE(c.solvers.size() == 1 && !c.ops.empty()); auto& s = c.solvers[0]; Task t = s.task; std::string tn = task_name[t];
	const Data* first = nullptr;
	for (auto& o : c.ops) { REQUIRE(o.a.size() == 2); auto* d = c.find(o.a[1]); REQUIRE(d && d->task == t && valid_data(*d, nullptr) && valid_params(t, s.p, *d)); if (s.p.flag("hyper-tune", false)) REQUIRE(d->rows.size() >= 6); if (!first) first = d; }
	bool hyper = s.p.flag("hyper-tune", false);
	configure(c.sim); V.simtime = -mono_now();
	CaptureBuf cb; auto* old = std::cout.rdbuf(&cb);
	std::map<std::string, FitOut> clean;
	// clean pass: expected results; also sets up whatever the code keeps for the life of the process
	for (int pass = 0; pass < 2; pass++) for (auto& o : c.ops) if (o.kind == "fit") {
		set_op(-1);
		IBox* b = new_box(s, s.p); auto* d = c.find(o.a[1]); FitOut f = do_fit(b, *d, false); clean[o.a[1]] = f;
		if (f.ok && f.feasible) for (auto& p : c.ops) { auto* e = c.find(p.a[1]); if (p.kind == "fit" || !valid_data(*e, d)) continue; Sut q; if (p.kind == "pred") b->predict(*e, false); else b->score(*e, false); }
		{ Sut q; delete b; }
	}
	size_t live0 = live_blocks();
	uint64_t fired_ops = 0, errors = 0, absorbed = 0;
	IBox* b = new_box(s, s.p); const Data* trained = nullptr; std::string sh;
	for (size_t i = 0; i < c.ops.size() && !V.violation; i++) {
		auto& o = c.ops[i]; auto* d = c.find(o.a[1]);
		std::string at = "operation " + std::to_string(i) + " (" + o.kind + " " + o.a[1] + ")";
		for (int attempt = 0; attempt < 2 && !V.violation; attempt++) {
			if (attempt == 0) set_op(int(i)); else set_op(-1);
			uint64_t f0 = C.alloc_failures; bool failed = false; std::string err;
			if (o.kind == "fit") {
				FitOut f = do_fit(b, *d, false); failed = !f.ok; err = f.error; uint64_t fired = C.alloc_failures - f0;
				set_op(-1);
				if (!failed) {
					trained = f.feasible ? d : nullptr;
					auto& e = clean[o.a[1]]; bool same = true; std::string how = attempt ? "repeated after the failure, it" : fired ? "with a failed allocation it reports no error and" : "it";
					if (hyper) { same = f.feasible == e.feasible || !e.feasible; }
					else if (t == PLR) same = f.same(e, nullptr);
					else {
						same = f.feasible == e.feasible && f.proven == e.proven;
						if (same && f.feasible) { Ref ref(t, s.p, *d); double a = ref.objective(f.tree), q = ref.objective(e.tree); same = std::isinf(a) == std::isinf(q) && (std::isinf(a) || std::fabs(a - q) <= ref.tol(a)); }
					}
					if (!same) V.bad(std::string(fired && !attempt ? "wrong-result:" : "after-failure:") + tn, at + ": " + how + " returns " + f.str() + " instead of " + e.str());
					else if (f.feasible && !hyper) check_fit(t, s.p, *d, f, O_VALID, at + ": " + how + " returns a bad result: ");
				}
			} else {
				bool has = false; { Sut q; has = b->has_tree(); }
				if (!trained || !has || !valid_data(*d, trained)) break;
				RTree tr; { Sut q; tr = b->tree(); }
				Ref ref(t, s.p, *trained); std::string e;
				try {
					if (o.kind == "pred") { std::vector<double> p; { Sut q; p = b->predict(*d, false); } set_op(-1); e = check_pred(ref, tr, *d, p); }
					else { ScoreOut so; { Sut q; so = b->score(*d, false); } set_op(-1); if (!hyper) e = check_score(ref, tr, *d, so); }
				} catch (std::exception& x) { failed = true; err = x.what(); }
				if (!failed && !e.empty()) V.bad(std::string(C.alloc_failures > f0 && !attempt ? "wrong-result:" : "after-failure:") + tn, at + (attempt ? " repeated after the failure: " : ": ") + e);
			}
			uint64_t fired = C.alloc_failures - f0;
			set_op(-1);
			if (attempt == 0 && fired) { fired_ops++; sh += o.kind.substr(0, 1) + (failed ? "x" : "a") + bucket(op_allocs()); if (failed) errors++; else absorbed++; }
			if (failed && !fired) V.bad("spurious-error:" + tn, at + (attempt ? " repeated after a failed allocation" : "") + " ends with an error although memory is available: " + err);
			if (!failed) break;
			if (heap_error()) break;
		}
	}
	set_op(-1);
	if (!heap_error()) {
		{ Sut q; delete b; }
		if (!V.violation && live_blocks() != live0) V.bad("leak:" + tn, std::to_string(int64_t(live_blocks()) - int64_t(live0)) + " blocks of memory are still allocated after the object was destroyed");
	}
	std::cout.rdbuf(old);
	V.st["operations_hit"] = fired_ops; V.st["errors_reported"] = errors; V.st["absorbed"] = absorbed; V.st[std::string("task.") + tn] = 1;
	V.nontrivial = fired_ops > 0; V.shape = tn + "|" + sh;
	done();
}

// C13
static bool tok_int(const std::string& w, long& v) { if (w.empty()) return false; char* e; errno = 0; v = strtol(w.c_str(), &e, 10); return *e == 0 && errno == 0 && isdigit((unsigned char)w.back()); }
static bool tok_num(const std::string& w, double& v) { for (char ch : w) if (!isdigit((unsigned char)ch) && !strchr("+-.eE", ch)) return false; char* e; v = strtod(w.c_str(), &e); return !w.empty() && *e == 0; }
struct FileModel { bool present = false, malformed = false, lenient = false; int F = -1; std::vector<Row> rows; std::vector<std::string> why; };
static FileModel parse_file(const Case& c, const std::string& name, Task t, int extra, int mf) {
	FileModel m; const std::string* s = nullptr; for (auto& f : c.files) if (f.first == name) s = &f.second;
	if (!s) return m;
	m.present = true;
	int ne = t == ICS ? extra : t == PP ? 3 + 2 * extra + 1 : t == SA ? 1 : (t == SLR || t == PLR) ? extra : 0;
	std::istringstream is(*s); std::string l; size_t cols = 0; int ln = 0;
	size_t rawcols = 0; bool ambiguous = false;
	auto mal = [&](const std::string& w) { if (ambiguous) { m.lenient = true; return; } m.malformed = true; m.why.push_back("line " + std::to_string(ln) + ": " + w); };
	std::vector<std::string> lines; while (std::getline(is, l)) lines.push_back(l);
	// a line that the usual number extraction still takes apart completely, such as 0-0, counts as outside the format rather than as damaged
	auto extractable = [&](const std::string& L) {
		std::istringstream is(L); double v; int iv; uint32_t u;
		if (real_label(t)) is >> v; else { is >> iv; if (iv < 0) return false; }
		for (int i = 0; i < ne; i++) if (t == SA || (t == PP && (i == 0 || i == 3 + extra))) is >> iv; else is >> v;
		if (is.fail()) return false;
		std::string rest; std::getline(is, rest); size_t n = rest.size() / 2; if (ln == 0) rawcols = n;
		std::istringstream fs(rest); for (size_t i = 0; i < n && int(i) < mf; i++) { if (!(fs >> u) || u > 1) return false; }
		return n == rawcols;
	};
	for (auto& L : lines) {
		std::istringstream ls(L); std::vector<std::string> w; std::string x; while (ls >> x) w.push_back(x);
		if (ln == 0) cols = w.size();
		if (extractable(L)) ambiguous = true; else ambiguous = false;
		bool bad = false;
		if (w.size() != cols) { mal("different number of columns"); bad = true; }
		if (w.size() < size_t(ne) + 2) { mal("too few columns"); bad = true; }
		Row r;
		if (!bad) {
			double v; long iv;
			if (real_label(t)) { if (!tok_num(w[0], v)) bad = true; r.y = v; } else { if (!tok_int(w[0], iv) || iv < 0) bad = true; r.y = double(iv); }
			if (bad) mal("bad label");
			for (int i = 0; i < ne && !bad; i++) {
				bool integer = t == SA || (t == PP && (i == 0 || i == 3 + extra));
				if (integer ? !tok_int(w[1 + i], iv) : !tok_num(w[1 + i], v)) { mal("bad extra value"); bad = true; }
				r.ex.push_back(integer ? double(iv) : v);
			}
			for (size_t i = 1 + ne; i < w.size() && !bad; i++) { if (w[i] != "0" && w[i] != "1") { mal("non-binary feature"); bad = true; } r.bits += w[i]; }
			// unusual spacing is outside the documented format
			size_t sp = std::count(L.begin(), L.end(), ' '); if (sp + 1 != w.size()) m.lenient = true;
		}
		if (!bad) m.rows.push_back(r);
		ln++;
	}
	if (lines.empty()) m.lenient = true;
	m.F = int(cols) - 1 - ne;
	if (lines.size() == 1 && (m.malformed)) {}
	return m;
}
static std::string row_str(const Row& r) { std::string s = fmt(r.y) + " [" + r.bits + "]"; for (double e : r.ex) s += " " + fmt(e); return s; }
static bool row_eq(const Row& a, const Row& b, int F) { if (a.y != b.y || a.ex.size() != b.ex.size()) return false; for (size_t i = 0; i < a.ex.size(); i++) if (!close(a.ex[i], b.ex[i], 1e-12, 0)) return false; return a.bits.substr(0, F) == b.bits.substr(0, F); }

static void run_load(const Case& c) {
	REQUIRE(c.solvers.size() == 1); auto& s = c.solvers[0]; Task t = s.task; std::string tn = task_name[t];
	int extra = s.p.integer("num-extra-cols", 0), dup = s.p.integer("duplicate-factor", 1), ni = s.p.integer("num-instances", INT32_MAX), mf = s.p.integer("max-num-features", INT32_MAX);
	if (t == ICS || t == PP || t == SLR || t == PLR) REQUIRE(extra >= 1);
	REQUIRE(dup >= 1 && dup <= 5 && ni >= 1 && mf >= 1);
	bool has_test = s.p.has("test-file");
	FileModel a = parse_file(c, "in.txt", t, extra, mf), b = has_test ? parse_file(c, "test.txt", t, extra, mf) : FileModel();
	put_files(c);
	configure(c.sim); V.simtime = -mono_now();
	auto finish = [&](bool ok, const LoadOut* o, const std::string& how) {
		NoSut n;
		std::string reason;
		if (!a.present || (has_test && !b.present)) reason = "a file does not exist";
		if (C.open_failures) reason = "a file could not be opened";
		if (C.eio) reason = "a read failed with an I/O error";
		bool mal = a.malformed || (has_test && b.malformed) || (has_test && a.F != b.F && !a.lenient && !b.lenient);
		bool lenient = a.lenient || b.lenient || (has_test && a.F != b.F);
		bool sampled = ni != INT32_MAX;
		V.st["load_ok"] = ok; V.st["load_error"] = !ok; V.st["malformed"] = mal; V.st["missing"] = !a.present; V.st[std::string("task.") + tn] = 1;
		V.nontrivial = C.short_reads + C.eintr + C.eio + C.open_failures > 0 || mal; V.shape = tn + "|" + (ok ? "o" : "e") + "|" + reason.substr(0, 6) + "|m" + std::to_string(mal) + c.get("damage") + "|r" + bucket(C.reads) + "|s" + std::to_string(C.short_reads) + "i" + std::to_string(C.eintr) + (has_test ? "t" : "") + (sampled ? "n" : "") + (dup > 1 ? "d" : "");
		if (ok) {
			if (!reason.empty()) { V.bad("unreported:" + reason, "loading reports success although " + reason); done(); }
			if ((a.malformed || (has_test && b.malformed)) && !sampled) { V.bad("unreported:malformed", "loading reports success although the content is malformed or cut off (" + (a.why.empty() ? (b.why.empty() ? std::string("files disagree") : b.why[0]) : a.why[0]) + ")"); done(); }
			if (lenient || (sampled && mal)) done();
			int F = std::min(a.F, mf);
			if (o->F != F) { if (!mal) V.bad("features", "file has " + std::to_string(a.F) + " features, loaded data has " + std::to_string(o->F)); done(); }
			auto cmp = [&](const std::vector<Row>& got, const FileModel& m, int dupf, int limit, bool subset, const char* w) {
				std::vector<Row> want; for (auto& r : m.rows) for (int i = 0; i < dupf; i++) want.push_back(r);
				if (!subset && limit != INT32_MAX && int(want.size()) > limit) want.resize(limit);
				if (!subset) {
					if (got.size() != want.size()) { V.bad("rows", std::string(w) + ": file gives " + std::to_string(want.size()) + " rows, loaded " + std::to_string(got.size())); return; }
					for (size_t i = 0; i < got.size(); i++) if (!row_eq(got[i], want[i], F)) { V.bad("content", std::string(w) + ": row " + std::to_string(i) + " is " + row_str(want[i]) + " in the file but was loaded as " + row_str(got[i])); return; }
				} else {
					if (!mal && int(got.size()) != limit) { V.bad("rows", std::string(w) + ": asked for " + std::to_string(limit) + " rows, loaded " + std::to_string(got.size())); return; }
					size_t j = 0; for (auto& r : got) { while (j < want.size() && !row_eq(r, want[j], F)) j++; if (j == want.size()) { V.bad("content", std::string(w) + ": loaded row " + row_str(r) + " is not a line of the file (or is out of order)"); return; } j++; }
				}
			};
			bool subset = sampled && ni <= int(a.rows.size()) + (mal ? 1000000 : 0);
			// order by id: training rows come first
			cmp(o->train, a, dup, ni, subset, "training rows");
			if (!V.violation && has_test) cmp(o->test, b, 1, INT32_MAX, false, "test rows");
			for (size_t i = 0; i < o->train.size() && !V.violation; i++) if (!real_label(t) && o->train_label_slot[i] != int(o->train[i].y)) V.bad("label-slot", "a row is filed under another label than its own");
		} else {
			if (reason.empty() && !mal && !lenient) V.bad("spurious-error", "loading a well-formed file is reported as failed (" + how + ")");
		}
		done();
	};
	exit_policy = [&](int code) { if (code == 134) { V.bad("abort", "loading aborted the process"); done(); } if (code == 0) { V.bad("exit0", "loading ended the process with success status"); done(); } finish(false, nullptr, "exit " + std::to_string(code)); };
	CaptureBuf cb; std::cout.rdbuf(&cb);
	LoadOut o = do_load(t, s.p, s.seed);
	finish(o.ok, &o, o.error);
}

// C14
static void run_loadcost(const Case& c) {
	int K = atoi(c.get("K", "2").c_str()); REQUIRE(K >= 1 && K <= 6);
	put_files(c);
	const std::string* s = c.files.empty() ? nullptr : &c.files[0].second;
	bool mal = false, lenient = false; std::string why; std::vector<std::vector<double>> cm; std::vector<FCost> fc;
	if (s) {
		std::istringstream is(*s); std::string l; std::vector<std::string> lines; while (std::getline(is, l)) lines.push_back(l);
		auto m = [&](int ln, const std::string& w) { if (!mal) why = "line " + std::to_string(ln) + ": " + w; mal = true; };
		if (int(lines.size()) < K) m(int(lines.size()), "the matrix is incomplete");
		else if (int(lines.size()) <= K + 1) lenient = true;
		for (int i = 0; i < int(lines.size()); i++) {
			std::istringstream ls(lines[i]); std::vector<std::string> w; std::string x; while (ls >> x) w.push_back(x);
			if (i < K) {
				std::vector<double> row; double v; bool taken = true; { std::istringstream xs(lines[i]); for (int k = 0; k < K; k++) { xs >> v; } taken = !xs.fail() && (xs >> std::ws).eof(); }
				auto m = [&](int ln, const std::string& w) { if (taken) { lenient = true; return; } if (!mal) why = "line " + std::to_string(ln) + ": " + w; mal = true; };
				for (auto& q : w) { if (!tok_num(q, v)) { m(i, "bad number '" + q + "'"); v = 0; } row.push_back(v); }
				if (int(row.size()) != K) m(i, "wrong number of matrix entries"); cm.push_back(row); }
			else if (i > K) {
				long b = 0, e = 0; double p = 0, q = 0;
				if (w.size() != 6 || !tok_num(w[1], p) || !tok_num(w[2], q) || !tok_int(w[4], b) || !tok_int(w[5], e)) {
					std::istringstream xs(lines[i]); std::string n1, n2; int bi, ei; xs >> n1 >> p >> q >> n2 >> bi >> ei;
					if (xs.fail() || !(xs >> std::ws).eof() || bi < 0 || ei < bi) m(i, "not six proper columns"); else lenient = true;     // still taken apart by number extraction
				}
				else fc.push_back({ p, q, w[3], int(b), int(e) });
			}
		}
		int f = 0; for (auto& x : fc) { if (x.begin != f || x.end < x.begin) lenient = true; f = x.end + 1; if (x.begin < 0 || x.end < x.begin) mal = true, why = "bad column range"; }
	}
	configure(c.sim); V.simtime = -mono_now();
	auto finish = [&](bool ok, const CostOut* o, const std::string& how) {
		NoSut n; std::string reason;
		if (!s) reason = "the file does not exist";
		if (C.open_failures) reason = "the file could not be opened";
		if (C.eio) reason = "a read failed with an I/O error";
		V.st["load_ok"] = ok; V.st["load_error"] = !ok; V.st["malformed"] = mal; V.st["missing"] = !s;
		V.nontrivial = C.short_reads + C.eintr + C.eio + C.open_failures > 0 || mal;
		V.shape = std::string(ok ? "o" : "e") + "|" + reason.substr(0, 6) + "|" + why.substr(0, 16) + "|r" + bucket(C.reads) + "|s" + std::to_string(C.short_reads) + "|i" + std::to_string(C.eintr) + "|K" + std::to_string(K) + "|f" + std::to_string(fc.size());
		if (ok) {
			if (!reason.empty()) { V.bad("unreported:" + reason, "loading reports success although " + reason); done(); }
			if (mal) { V.bad("unreported:malformed", "loading reports success although the content is malformed or cut off (" + why + ")"); done(); }
			if (lenient) done();
			for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) if (!close(o->cm[i][j], cm[i][j], 1e-12, 0)) V.bad("matrix", "matrix entry " + std::to_string(i) + "," + std::to_string(j) + " is " + fmt(cm[i][j]) + " in the file but was loaded as " + fmt(o->cm[i][j]));
			int F = fc.empty() ? 0 : fc.back().end + 1;
			if (int(o->fc.size()) != F || int(o->dc.size()) != F) { V.bad("features", "file describes " + std::to_string(F) + " columns, loaded " + std::to_string(o->fc.size())); done(); }
			std::vector<const FCost*> of(F); for (auto& x : fc) for (int f = x.begin; f <= x.end; f++) of[f] = &x;
			for (int f = 0; f < F; f++) {
				if (!close(o->fc[f], of[f]->cost, 1e-12, 0)) V.bad("cost", "test cost of column " + std::to_string(f) + " is " + fmt(of[f]->cost) + " in the file but was loaded as " + fmt(o->fc[f]));
				if (!close(o->dc[f], of[f]->discount, 1e-12, 0)) V.bad("discount", "discounted cost of column " + std::to_string(f) + " is " + fmt(of[f]->discount) + " in the file but was loaded as " + fmt(o->dc[f]));
				for (int g = 0; g < F; g++) if (f != g) {
					if (bool(o->group[f * F + g]) != (of[f]->group == of[g]->group)) V.bad("group", "columns " + std::to_string(f) + " and " + std::to_string(g) + ": group relation differs from the file");
					if (bool(o->binar[f * F + g]) != (of[f] == of[g])) V.bad("range", "columns " + std::to_string(f) + " and " + std::to_string(g) + ": range relation differs from the file");
				}
			}
		} else if (reason.empty() && !mal && !lenient) V.bad("spurious-error", "loading a well-formed cost file is reported as failed (" + how + ")");
		done();
	};
	exit_policy = [&](int code) { if (code == 134) { V.bad("abort", "loading aborted the process"); done(); } if (code == 0) { V.bad("exit0", "loading ended the process with success status"); done(); } finish(false, nullptr, "exit " + std::to_string(code)); };
	CaptureBuf cb; std::cout.rdbuf(&cb);
	CostOut o;
	try { o = do_cost_file("cost.txt", K); } catch (std::exception& e) { finish(false, nullptr, e.what()); }
	finish(true, &o, "");
}

void execute(const Case& c, void (*report)(const Verdict&)) {
	report_fn = report; V = Verdict();
	on_exit_call = exit_hook; on_endless = endless_hook;
	const std::string& p = c.prop;
	if (p == "C01" || p == "C02" || p == "C03" || p == "C04") run_fit(c);
	if (p == "C05") run_budget(c);
	if (p == "C06") run_history(c);
	if (p == "C07") run_predict(c);
	if (p == "C08") run_threads(c);
	if (p == "C09") run_repro(c);
	if (p == "C10") run_split(c);
	if (p == "C11") run_tune(c);
	if (p == "C12") run_alloc(c);
	if (p == "C13") run_load(c);
	if (p == "C14") run_loadcost(c);
	invalid();
}
}
