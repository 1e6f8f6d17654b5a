// Seeded generators of cases.
#include "props.h"
#include <algorithm>
#include <cstring>

namespace sim {

static std::string itos(int i) { return std::to_string(i); }
static Op op(const std::string& k, std::vector<std::string> a, int th = 0) { Op o; o.kind = k; o.a = a; o.thread = th; return o; }

struct GOpt { int nmin = 3, nmax = 40, fmin = 1, fmax = 6; };

static double r3(double v) { return std::round(v * 1000) / 1000; }

// features with duplicated, complementary, constant, dense and nearly equal columns
static void gen_bits(Rng& r, Data& d, int N) {
	int F = d.F;
	std::vector<std::string> col(F, std::string(N, '0'));
	for (int f = 0; f < F; f++) {
		int st = r.range(0, 11);
		if (f > 0 && st == 0) col[f] = col[r.range(0, f - 1)];
		else if (f > 0 && st == 1) { col[f] = col[r.range(0, f - 1)]; for (auto& c : col[f]) c = c == '1' ? '0' : '1'; }
		else if (f > 0 && st == 2) { col[f] = col[r.range(0, f - 1)]; int k = r.range(1, 3); while (k--) { auto& c = col[f][r.range(0, N - 1)]; c = c == '1' ? '0' : '1'; } }
		else if (st == 3 && r.chance(0.4)) { if (r.chance(0.5)) col[f] = std::string(N, '1'); }
		else if (f > 0 && st == 4) { const auto& a = col[r.range(0, f - 1)]; double p = r.unit(); for (int i = 0; i < N; i++) col[f][i] = a[i] == '1' || r.chance(p) ? '1' : '0'; }   // implication, as thresholds
		else { double p = st < 8 ? 0.5 : r.unit(); for (int i = 0; i < N; i++) col[f][i] = r.chance(p) ? '1' : '0'; }
	}
	d.rows.assign(N, Row());
	for (int i = 0; i < N; i++) { d.rows[i].bits.resize(F); for (int f = 0; f < F; f++) d.rows[i].bits[f] = col[f][i]; }
	if (r.chance(0.4)) for (int k = r.range(1, std::max(1, N / 3)); k > 0; k--) d.rows[r.range(0, N - 1)].bits = d.rows[r.range(0, N - 1)].bits;
}

struct Hidden { // random function of the features: small tree
	std::vector<int> f; std::vector<double> v;
	Hidden(Rng& r, int F) { for (int i = 0; i < 7; i++) f.push_back(r.range(0, F - 1)); for (int i = 0; i < 8; i++) v.push_back(r.unit()); }
	int leaf(const std::string& b) const { int i = 0; for (int k = 0; k < 3; k++) i = 2 * i + 1 + (b[f[i]] == '1'); return i - 7; }
};

static Data gen_data(Rng& r, Task t, const std::string& name, int N, int F, int K, int M) {
	Data d; d.name = name; d.task = t; d.F = F; d.K = K;
	gen_bits(r, d, N);
	Hidden h(r, F);
	double noise = r.chance(0.3) ? 0 : r.unit() * 0.5;
	bool random_labels = r.chance(0.25);
	bool coarse = r.chance(0.5);
	double scale = r.chance(0.2) ? 100 : r.chance(0.2) ? 0.05 : 1;
	std::vector<std::vector<double>> coef(8, std::vector<double>(std::max(1, M)));
	for (auto& c : coef) for (auto& x : c) x = r3(r.unit() * 4 - 2);
	for (int i = 0; i < N; i++) {
		Row& w = d.rows[i]; int lf = h.leaf(w.bits);
		int cls = random_labels || r.chance(noise) ? r.range(0, K - 1) : int(h.v[lf] * K) % K;
		switch (t) {
		case ACC: case CCA: case CS: case F1: case GF: case EO: w.y = cls; break;
		case ICS: {
			for (int k = 0; k < K; k++) { double c = coarse ? r.range(0, 5) : r3(r.unit() * 5); if (k == cls) c = r.chance(0.7) ? 0 : c / 4; w.ex.push_back(r3(c)); }
			w.y = std::min_element(w.ex.begin(), w.ex.end()) - w.ex.begin(); break; }
		case PP: {
			int k = r.range(0, K - 1); double best = -1e9; int kopt = 0; std::vector<double> yh(K);
			for (int q = 0; q < K; q++) { yh[q] = r3((q == cls ? 2 : 0) + r.unit() * 2 - (r.chance(0.2) ? 2 : 0)); if (yh[q] > best) { best = yh[q]; kopt = q; } }
			double mu = r.chance(0.1) ? 0 : r3(0.1 + r.unit() * 0.9), y = r3(yh[k] + r.unit() - 0.5);
			w.y = k; w.ex = { double(k), y, mu }; for (double v : yh) w.ex.push_back(v); w.ex.push_back(kopt); break; }
		case REG: case CCR: {
			double y = random_labels ? r.unit() : h.v[lf] + noise * (r.unit() - 0.5); y *= scale * 10;
			w.y = coarse ? std::round(y) : r3(y); break; }
		case SLR: case PLR: {
			double y = h.v[lf] * 4 + noise * (r.unit() - 0.5);
			for (int j = 0; j < M; j++) { double x = coarse && r.chance(0.5) ? r.range(0, 4) : r3(r.unit() * 6 - 2); w.ex.push_back(x); y += coef[random_labels ? 0 : lf][j] * x; }
			w.y = r3(y * scale); break; }
		case SA: {
			double y = (random_labels ? r.unit() : h.v[lf] + noise * r.unit()) * 20; w.y = coarse ? std::max(1.0, std::round(y)) : r3(y + 0.01);
			w.ex = { double(r.chance(0.7)) }; break; }
		default: break;
		}
	}
	// preconditions of the tasks
	if (t == PP) for (int k = 0; k < K && k < N; k++) { d.rows[k].y = k; d.rows[k].ex[0] = k; }
	if (t == ACC || t == CCA || t == CS) { if (N > 1) d.rows[r.range(0, N - 1)].y = K - 1; }
	if (t == F1) { d.rows[0].y = 1; if (N > 1) d.rows[1].y = 0; }
	if (t == GF || t == EO) {
		for (auto& w : d.rows) w.bits[0] = r.chance(0.5) ? '1' : '0';
		if (F > 1 && r.chance(0.12)) { int g = r.range(1, F - 1); bool inv = r.chance(0.3); for (auto& w : d.rows) { w.bits[g] = w.bits[0]; if (inv) w.bits[g] = w.bits[g] == '1' ? '0' : '1'; } }
		const char* g[4] = { "0", "1", "0", "1" }; int y[4] = { 1, 1, 0, 0 };
		for (int i = 0; i < 4 && i < N; i++) { d.rows[i].bits[0] = g[i][0]; d.rows[i].y = y[i]; }
	}
	if (t == CS) {
		d.cm.assign(K * K, 0);
		for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) if (i != j) d.cm[i * K + j] = coarse ? r.range(1, 10) : r3(0.1 + r.unit() * 20);
		int f = 0, s = 0; bool zero = r.chance(0.2);
		while (f < F) { int e = std::min(F - 1, f + r.range(0, 2)); double c = zero ? 0 : r3(r.unit() * (r.chance(0.5) ? 3 : 0.3)); std::string g = "g" + itos(r.range(0, 2)); if (r.chance(0.5)) g = "n" + itos(s); d.fc.push_back({ c, r3(c * r.unit()), g, f, e }); f = e + 1; s++; }
	}
	return d;
}

static int pickK(Rng& r, Task t) { return (t == F1 || t == GF || t == EO) ? 2 : r.chance(0.6) ? 2 : r.range(2, 4); }
static int pickN(Rng& r, int lo, int hi) { int n = r.chance(0.5) ? r.range(lo, std::max(lo, hi / 3)) : r.range(lo, hi); return n; }

static void gen_limits(Rng& r, Task t, Params& p, int maxdepth) {
	int dep = r.chance(0.06) ? r.range(0, 1) : r.range(std::min(2, maxdepth), maxdepth);
	if (r.chance(0.1)) dep = 1;
	int full = (1 << dep) - 1, nodes = full;
	bool cc = t == CCA || t == CCR || t == PLR || t == SLR;
	if (r.chance(0.4)) nodes = r.range(std::min(dep, full), full);
	if (r.chance(0.03)) nodes = r.range(0, full);
	if (cc && (nodes == full || r.chance(0.3))) {
		nodes = full;
		double a = r.chance(0.2) ? 0 : r.chance(0.5) ? r3(r.unit() * 0.05) : r3(r.unit() * 0.3);
		p.set("cost-complexity", a);
	}
	p.set("max-depth", dep); p.set("max-num-nodes", nodes);
	if (r.chance(0.3)) p.set("min-leaf-node-size", r.range(2, 6));
}

static void gen_switches(Rng& r, Task t, Params& p) {
	const char* b[] = { "use-terminal-solver", "use-similarity-lower-bound", "use-upper-bound", "use-lower-bound", "use-task-lower-bound" };
	if (r.chance(0.65)) for (auto k : b) if (r.chance(0.3)) p.set(k, "0");
	int c = r.range(0, 5);
	if (c == 0) { p.set("use-branch-caching", "1"); p.set("use-dataset-caching", "0"); }
	else if (c == 1) { p.set("use-branch-caching", "1"); p.set("use-dataset-caching", "1"); }
	else if (c == 2) { p.set("use-branch-caching", "0"); p.set("use-dataset-caching", "0"); }
	if (!real_label(t) && r.chance(0.4)) p.set("feature-ordering", "gini");
	if (r.chance(0.12)) p.set("all-trees", "1");
	if (t == CCR) p.set("regression-bound", r.chance(0.5) ? "kmeans" : "equivalent");
	if (t == PP) p.set("ppg-teacher-method", r.chance(0.4) ? "DR" : r.chance(0.5) ? "DM" : "IPW");
}

static void gen_task_params(Rng& r, Task t, Params& p, const Data& d) {
	if (t == ICS) p.set("num-extra-cols", d.K);
	if (t == GF || t == EO) { static const double even[] = { 0, 0.5, 0.25, 1.0 / 3, 0.2 }; double lim = r.chance(0.2) ? 1.0 : r.chance(0.2) ? even[r.range(0, 4)] : r3(r.unit() * r.unit()) + 0.00037; p.set("discrimination-limit", std::min(1.0, lim)); }
	if (t == SLR || t == PLR) {
		int M = d.rows.empty() ? 0 : int(d.rows[0].ex.size());
		p.set("num-extra-cols", M);
		if (r.chance(0.5)) p.set("lasso-penalty", r3(r.unit() * (r.chance(0.3) ? 1 : 0.05)));
		if (t == PLR && r.chance(0.4)) p.set("ridge-penalty", r3(r.unit() * 0.1));
		if (t == PLR) p.set("min-leaf-node-size", std::max(M, p.minleaf()));
	}
}

static void gen_mem(Rng& r, Config& s) {
	static const uint64_t fills[] = { 0, ~0ull, 0xA5A5A5A5A5A5A5A5ull, 0x0101010101010101ull, 0x7FF8000000000001ull };
	s.fill = r.chance(0.7) ? fills[r.range(0, 4)] : r.next();
	s.reuse = r.range(0, 3); s.alloc_seed = r.range(1, 1000000); s.entropy = r.range(1, 1000000); s.arena = r.range(0, 3);
	s.wall0 = 1.0e9 + r.unit() * 1e9; s.mono0 = 100 + r.unit() * 1e5;
}

static double logu(Rng& r, double lo, double hi) { return std::exp(std::log(lo) + r.unit() * (std::log(hi) - std::log(lo))); }

// clock behaviour; returns the time limit
static double gen_clock(Rng& r, Config& s, double qmax, bool deadline_likely) {
	double L = 1e6; s.query_cost = 1e-6;
	int m = r.range(0, 9);
	if (deadline_likely) m = r.range(2, 9);
	auto jump = [&](int k) { while (k--) s.clk.push_back({ uint64_t(logu(r, 1, qmax)), 0, std::round((r.chance(0.5) ? -1 : 1) * logu(r, 0.3, 1e6) * 100) / 100 }); };
	auto stall = [&](int k, double len) { while (k--) s.clk.push_back({ uint64_t(logu(r, 1, qmax)), 1, std::round(len * 100) / 100 }); };
	if (m <= 1) { if (r.chance(0.5)) jump(r.range(1, 3)); if (r.chance(0.3)) stall(1, logu(r, 0.5, 1000)); }
	else {
		static const double Ls[] = { 0.5, 1, 2, 5, 30, 600 };
		L = Ls[r.range(0, 5)];
		double q = logu(r, 1, qmax);
		s.query_cost = L / q;
		if (m == 7) { s.query_cost = L / (qmax * 20); stall(r.range(1, 2), L * (0.4 + r.unit())); }
		if (m == 8) jump(r.range(1, 3));
		if (m == 9) { jump(r.range(1, 2)); stall(1, L * r.unit()); if (r.chance(0.5)) s.clk.push_back({ uint64_t(logu(r, 1, qmax)), 2, L / logu(r, 1, qmax) }); }
		if (r.chance(0.05)) L = 0;
	}
	std::sort(s.clk.begin(), s.clk.end(), [](const ClockEv& a, const ClockEv& b) { return a.query < b.query; });
	return L;
}

static Data gen_for(Rng& r, Task t, const std::string& name, int nmin, int nmax, int fmax) {
	int fmin = (t == GF || t == EO) ? 2 : 1;
	int F = r.chance(0.7) ? r.range(std::max(fmin, std::min(3, fmax)), fmax) : r.range(fmin, fmax);
	int N = pickN(r, std::max(nmin, (t == GF || t == EO) ? 4 : t == PP ? 4 : 2), nmax);
	if (t == GF || t == EO) N = std::min(N, 26);
	int M = t == SLR || t == PLR ? r.range(1, 3) : 0;
	return gen_data(r, t, name, N, F, pickK(r, t), M);
}

// C01..C04: one fit
static void gen_fit(Rng& r, Case& c, std::vector<Task> tasks, bool thorough, bool deadline_likely) {
	Task t = tasks[r.range(0, int(tasks.size()) - 1)];
	int fmax = (t == GF || t == EO) ? 5 : 7, nmax = 45, dmax = (t == GF || t == EO || t == F1) ? 3 : 4;
	if (r.chance(thorough ? 0.15 : 0.06) && !(t == GF || t == EO)) { nmax = 150; fmax = 8; }
	if (t == PLR) { fmax = 4; dmax = 3; nmax = 40; }
	int nmin = 2; const bool front = t == GF || t == EO || t == F1;
	if (t != PLR && r.chance(0.02)) { fmax = front ? 9 : 24; nmax = front ? 40 : 300; nmin = front ? 10 : 60; dmax = 2; }     // wide tables, shallow trees
	else if (t != PLR && r.chance(0.03)) { fmax = 5; nmax = front ? 20 : 40; dmax = front ? 4 : 6; }                          // narrow tables, deep trees
	Data d = gen_for(r, t, "d0", nmin, nmax, fmax);
	SolverDef s; s.name = "s0"; s.task = t;
	gen_limits(r, t, s.p, dmax); gen_switches(r, t, s.p); gen_task_params(r, t, s.p, d);
	gen_mem(r, c.sim);
	double L = gen_clock(r, c.sim, t == PLR ? 400 : 4000, deadline_likely);
	s.p.set("time", L);
	c.data.push_back(d); c.solvers.push_back(s);
	c.ops.push_back(op("fit", { "s0", "d0" }));
}

static void perturb(Rng& r, Data& d) { // same shape, other content
	int k = r.range(1, 3);
	while (k--) {
		Row& w = d.rows[r.range(0, int(d.rows.size()) - 1)];
		if (r.chance(0.5) && d.F > 1) { auto& b = w.bits[r.range((d.task == GF || d.task == EO) ? 1 : 0, d.F - 1)]; b = b == '1' ? '0' : '1'; }
		else if (d.task == ICS || d.task == PP) std::swap(w.ex[d.task == PP ? 3 : 0], w.ex[d.task == PP ? 4 : 1]);
		else std::swap(w.y, d.rows[r.range(0, int(d.rows.size()) - 1)].y);
	}
	if (d.task == ICS) for (auto& w : d.rows) w.y = std::min_element(w.ex.begin(), w.ex.end()) - w.ex.begin();
	if (d.task == PP) for (auto& w : d.rows) { w.ex[0] = w.y; }
	if (r.chance(0.4) && !real_label(d.task)) { // same bits, other labels in the same order of classes
		for (auto& w : d.rows) if (r.chance(0.5)) for (size_t j = 0; j < w.bits.size(); j++) if (!((d.task == GF || d.task == EO) && j == 0) && r.chance(0.3)) w.bits[j] = w.bits[j] == '1' ? '0' : '1';
	}
	if (real_label(d.task) && r.chance(0.5)) for (auto& w : d.rows) if (r.chance(0.5)) w.y = d.task == SA ? std::max(0.5, r3(w.y * (0.5 + r.unit()))) : r3(w.y * (0.5 + r.unit()));
	if (d.task == GF || d.task == EO) { const char* g = "0101"; int y[4] = { 1, 1, 0, 0 }; for (int i = 0; i < 4 && i < int(d.rows.size()); i++) { d.rows[i].bits[0] = g[i]; d.rows[i].y = y[i]; } }
	if (d.task == F1) { d.rows[0].y = 1; if (d.rows.size() > 1) d.rows[1].y = 0; }
	if (d.task == PP) for (int k2 = 0; k2 < d.K && k2 < int(d.rows.size()); k2++) { d.rows[k2].y = k2; d.rows[k2].ex[0] = k2; }
	if (d.task == CS && r.chance(0.5)) for (auto& f : d.fc) { f.cost = r3(r.unit()); f.discount = r3(f.cost * r.unit()); }
}

static std::vector<std::string> setargs(const std::string& s, const Params& p) { std::vector<std::string> a{ s }; for (auto& k : p.kv) a.push_back(k.first + "=" + k.second); return a; }

// C06: history on one solver, then a final fit
static void gen_history(Rng& r, Case& c, bool thorough) {
	Task t = Task(r.range(0, NTASK - 1));
	int nmax = t == PLR ? 22 : 30, fmax = (t == GF || t == EO || t == PLR) ? 4 : 6;
	int nd = r.range(1, 3);
	int F = r.range((t == GF || t == EO) ? 2 : 2, fmax), K = pickK(r, t), M = r.range(1, 2), N = r.range(8, nmax);
	for (int i = 0; i < nd; i++) {
		Data d;
		int how = i == 0 ? 0 : r.range(0, 3);
		if (how <= 1 && i > 0) { d = c.data[r.range(0, i - 1)]; d.name = "d" + itos(i); perturb(r, d); if (t == SLR || t == PLR) for (auto& w : d.rows) if (r.chance(0.3)) for (auto& x : w.ex) x = r3(r.unit() * 5); }
		else if (how == 2) d = gen_data(r, t, "d" + itos(i), r.range(8, nmax), F, K, M);
		else d = gen_data(r, t, "d" + itos(i), i == 0 ? N : r.range(8, nmax), i == 0 ? F : r.range(2, fmax), i == 0 || t == CS ? K : pickK(r, t), M);
		if ((t == GF || t == EO) && int(d.rows.size()) > 20) d.rows.resize(20);
		c.data.push_back(d);
	}
	SolverDef s; s.name = "s0"; s.task = t;
	auto params = [&](const Data& d) {
		Params p; gen_limits(r, t, p, t == PLR ? 2 : 3); gen_switches(r, t, p); gen_task_params(r, t, p, d); p.set("time", 2e9);
		return p;
	};
	s.p = params(c.data[0]);
	Params cur = s.p;
	gen_mem(r, c.sim);
	c.sim.query_cost = 0.01;
	int nops = r.range(1, thorough ? 8 : 5);
	bool kept = false;
	for (int i = 0; i < nops; i++) {
		int k = r.range(0, 9);
		std::string dn = "d" + itos(r.range(0, nd - 1));
		if (k <= 2) {
			Params q = cur; bool to = r.chance(0.5);
			if (r.chance(0.4)) q = params(*c.find(dn));
			if (t == SLR || t == PLR || t == ICS) gen_task_params(r, t, q, *c.find(dn));
			q.set("time", to ? r3(logu(r, 0.02, 20)) : 2e9);
			q.kv.erase("hyper-tune");
			c.ops.push_back(op("set", setargs("s0", q)));
			bool kp = r.chance(0.4);
			c.ops.push_back(op(kp ? "fitk" : "fit", { "s0", dn })); kept = kp; cur = q;
		}
		else if (k == 3 && kept) { if (r.chance(0.5)) { cur.set("time", 2e9); c.ops.push_back(op("set", setargs("s0", cur))); } c.ops.push_back(op("refit", { "s0" })); }
		else if (k == 4 && t != PLR) {
			Params q = cur; q.set("hyper-tune", "1"); q.set("time", r.chance(0.4) ? r3(logu(r, 0.1, 50)) : 2e9); q.kv["max-depth"] = itos(std::min(2, q.depth())); q.kv["max-num-nodes"] = itos((1 << q.depth()) - 1);
			if (t == SLR || t == ICS) gen_task_params(r, t, q, *c.find(dn));
			c.ops.push_back(op("set", setargs("s0", q))); c.ops.push_back(op("fit", { "s0", dn })); kept = false; cur = q; cur.kv.erase("hyper-tune");
		}
		else if (k <= 6) c.ops.push_back(op("pred", { "s0", dn }));
		else if (k <= 8) c.ops.push_back(op("score", { "s0", dn }));
		else { c.ops.push_back(op("fit", { "s0", dn })); kept = false; }
	}
	std::string dn = "d" + itos(r.range(0, nd - 1));
	Params fin = r.chance(0.6) ? cur : params(*c.find(dn));
	if (r.chance(0.5)) { fin = s.p; }
	if (t == SLR || t == PLR || t == ICS) gen_task_params(r, t, fin, *c.find(dn));
	fin.set("time", 2e9); fin.kv.erase("hyper-tune");
	bool rf = kept && r.chance(0.6);
	if (rf && r.chance(0.5)) { fin = cur; fin.set("time", 2e9); }
	if (rf) { if (cur.has("min-leaf-node-size")) fin.kv["min-leaf-node-size"] = cur.kv["min-leaf-node-size"]; else fin.kv.erase("min-leaf-node-size"); } // the kept data was prepared for this size
	c.ops.push_back(op("set", setargs("s0", fin)));
	c.ops.push_back(op(rf ? "refit" : r.chance(0.3) ? "fitk" : "fit", rf ? std::vector<std::string>{ "s0" } : std::vector<std::string>{ "s0", dn }));
	c.solvers.push_back(s);
}

static Data shrink_rows(Rng& r, const Data& d, const std::string& name) { // test set from the same source
	Data o = d; o.name = name; int m = r.range(0, 3);
	if (m == 0) { o.rows.clear(); int n = r.range(1, int(d.rows.size())); for (int i = 0; i < n; i++) o.rows.push_back(d.rows[r.range(0, int(d.rows.size()) - 1)]); }
	else if (m == 1) { for (auto& w : o.rows) for (auto& b : w.bits) if (r.chance(0.3)) b = b == '1' ? '0' : '1'; }
	else if (m == 2) { for (int i = int(o.rows.size()) - 1; i > 0; i--) std::swap(o.rows[i], o.rows[r.range(0, i)]); }
	else { for (auto& w : o.rows) { for (auto& b : w.bits) if (r.chance(0.2)) b = b == '1' ? '0' : '1'; if (!real_label(d.task) && d.task != PP && d.task != ICS && r.chance(0.4)) w.y = d.rows[r.range(0, int(d.rows.size()) - 1)].y; if (real_label(d.task) && r.chance(0.5)) w.y = d.task == SA ? std::max(0.2, r3(w.y * 2 * r.unit())) : r3(w.y * 2 * r.unit()); } }
	if (r.chance(0.3)) { auto x = o.rows; o.rows.insert(o.rows.end(), x.begin(), x.end()); }
	if (o.task == GF || o.task == EO) { // both groups must have (positive) members for the rate to be defined
		Row a = d.rows[0], b = d.rows[1]; a.bits[0] = '0'; a.y = 1; b.bits[0] = '1'; b.y = 1; o.rows.push_back(a); o.rows.push_back(b);
	}
	if (o.task == F1) { Row a = d.rows[0]; a.y = 1; o.rows.push_back(a); }
	return o;
}

// C07: predictions and scores
static void gen_predict(Rng& r, Case& c, bool thorough) {
	int ns = r.chance(0.3) ? 2 : 1;
	gen_mem(r, c.sim);
	for (int i = 0; i < ns; i++) {
		Task t = Task(r.range(0, NTASK - 1));
		Data d = gen_for(r, t, "d" + itos(i), 6, t == PLR ? 20 : 26, (t == GF || t == EO || t == PLR) ? 4 : 6);
		SolverDef s; s.name = "s" + itos(i); s.task = t;
		gen_limits(r, t, s.p, t == PLR ? 2 : 3); gen_switches(r, t, s.p); gen_task_params(r, t, s.p, d); s.p.set("time", 1e6);
		c.data.push_back(d); c.solvers.push_back(s);
		c.ops.push_back(op(r.chance(0.4) ? "fitk" : "fit", { s.name, d.name }));
	}
	for (int i = 0; i < ns; i++) {
		int nt = r.range(1, 3);
		for (int j = 0; j < nt; j++) {
			Data o = r.chance(0.5) && j > 0 ? c.data.back() : shrink_rows(r, *c.find("d" + itos(i)), "");
			o.name = "t" + itos(i) + itos(j);
			if (j > 0 && r.chance(0.6)) perturb(r, o);
			if (o.task == GF || o.task == EO) { // keep the rate defined
				Row a = o.rows[0], b = o.rows[0]; a.bits[0] = '0'; a.y = 1; b.bits[0] = '1'; b.y = 1; o.rows.push_back(a); o.rows.push_back(b); }
			if (o.task == F1) { Row a = o.rows[0]; a.y = 1; o.rows.push_back(a); }
			c.data.push_back(o);
		}
	}
	int nops = r.range(2, thorough ? 10 : 7);
	for (int k = 0; k < nops; k++) {
		int i = r.range(0, ns - 1);
		std::vector<std::string> cand; for (auto& d : c.data) if (d.task == c.solvers[i].task && d.name.size() > 1 && d.name[1] == char('0' + i)) cand.push_back(d.name);
		std::string dn = cand[r.range(0, int(cand.size()) - 1)];
		int q = r.range(0, 9);
		if (q <= 4) c.ops.push_back(op(r.chance(0.25) ? "predk" : "pred", { c.solvers[i].name, dn }));
		else if (q <= 8) c.ops.push_back(op(r.chance(0.25) ? "scorek" : "score", { c.solvers[i].name, dn }));
		else c.ops.push_back(op("fit", { c.solvers[i].name, "d" + itos(i) }));
	}
}

// C08: several solvers on threads
static void gen_threads(Rng& r, Case& c, bool thorough) {
	int nt = r.range(2, r.chance(0.3) ? 4 : 3);
	gen_mem(r, c.sim);
	c.sim.sched_on = true; c.sim.sched_seed = r.range(1, 1000000000); c.sim.sched_p = logu(r, 0.0005, 0.5);
	if (r.chance(0.6)) { c.cfg["dense"] = "1"; c.sim.sched_p = logu(r, 3e-6, 2e-2); }
	bool clocks = r.chance(0.3); if (clocks) c.cfg["clocks"] = "1";
	Task same = Task(r.range(0, NTASK - 1)); bool all_same = r.chance(0.4);
	for (int i = 0; i < nt; i++) {
		Task t = all_same ? same : Task(r.range(0, NTASK - 1));
		Data d = gen_for(r, t, "d" + itos(i), 6, t == PLR ? 16 : 22, (t == GF || t == EO || t == PLR) ? 3 : 5);
		SolverDef s; s.name = "s" + itos(i); s.task = t; s.seed = r.range(1, 1000);
		gen_limits(r, t, s.p, t == PLR ? 2 : 3); gen_switches(r, t, s.p); gen_task_params(r, t, s.p, d); s.p.set("time", clocks && r.chance(0.7) ? std::round(logu(r, 2, 4000)) * c.sim.query_cost : 1e9);
		if (r.chance(0.4)) s.p.set("verbose", "1");
		if (r.chance(0.12) && t != PLR) { s.p.set("hyper-tune", "1"); s.p.kv["max-depth"] = "2"; s.p.kv["max-num-nodes"] = "3"; }
		Data te = shrink_rows(r, d, "t" + itos(i));
		c.data.push_back(d); c.data.push_back(te); c.solvers.push_back(s);
		c.ops.push_back(op("fit", { s.name, d.name }, i));
		int k = r.range(0, 3);
		while (k--) c.ops.push_back(op(r.chance(0.5) ? "pred" : "score", { s.name, r.chance(0.7) ? te.name : d.name }, i));
		if (r.chance(0.2) && !s.p.has("hyper-tune")) c.ops.push_back(op("fit", { s.name, d.name }, i));
	}
}

// C05: time budget
static void gen_budget(Rng& r, Case& c, bool thorough) {
	Task t = Task(r.range(0, NTASK - 1));
	bool ample = r.chance(0.3);
	bool hyper = r.chance(0.3);
	bool fair = t == GF || t == EO || t == F1;
	int F, N;
	if (ample) { F = r.range(2, t == PLR ? 3 : 5); N = r.range(8, t == PLR ? 18 : 24); if (t == PLR) hyper = false; }
	else { F = fair ? r.range(5, 7) : t == PLR ? r.range(3, 5) : r.range(7, 11); N = fair ? r.range(16, 26) : t == PLR ? r.range(16, 30) : r.range(30, 90); }
	bool big = !ample && r.chance(0.35);
	if (big) { F = fair ? r.range(8, 11) : t == PLR ? r.range(4, 7) : r.range(12, 20); N = fair ? r.range(20, 40) : t == PLR ? r.range(20, 40) : r.range(60, 160); }
	Data d = gen_data(r, t, "d0", N, F, pickK(r, t), t == SLR || t == PLR ? r.range(1, 2) : 0);
	SolverDef s; s.name = "s0"; s.task = t; s.seed = r.range(1, 1000);
	gen_limits(r, t, s.p, ample ? 3 : (fair ? 3 : 4)); gen_switches(r, t, s.p); gen_task_params(r, t, s.p, d);
	if (hyper && (t == CCA || t == CCR || t == SLR || t == PLR)) s.p.set("max-num-nodes", (1 << s.p.depth()) - 1);
	if (hyper) { s.p.set("hyper-tune", "1"); if (ample) { s.p.kv["max-depth"] = "2"; s.p.kv["max-num-nodes"] = "3"; } }
	gen_mem(r, c.sim);
	auto jump = [&](int k, double qmax) { while (k--) c.sim.clk.push_back({ uint64_t(logu(r, ample ? 1 : 2, std::max(2.0, qmax))), 0, std::round((r.chance(0.6) ? -1 : 1) * logu(r, 0.5, 1e7) * 100) / 100 }); };
	if (ample) {
		c.cfg["mode"] = "ample";
		static const double Ls[] = { 0.5, 1, 2, 10, 600, 3600 }; double L = Ls[r.range(0, 5)];
		s.p.set("time", L); c.sim.query_cost = L / 4e8;
		if (r.chance(0.6)) jump(r.range(1, 3), 3000);
	} else {
		c.cfg["mode"] = "deadline";
		static const double Ls[] = { 0.4, 1, 3, 20, 600 }; double L = Ls[r.range(0, 4)];
		s.p.set("time", L);
		double q = logu(r, 3, hyper ? 60000 : 20000);
		c.sim.query_cost = L / q; c.sim.alloc_cost = r.chance(0.5) ? L / q : 0;
		if (r.chance(0.5)) jump(r.range(1, 3), q * 1.5);
		if (r.chance(0.25)) c.sim.clk.push_back({ uint64_t(logu(r, 2, q)), 1, std::round(L * (0.3 + r.unit()) * 100) / 100 });
	}
	std::sort(c.sim.clk.begin(), c.sim.clk.end(), [](const ClockEv& a, const ClockEv& b) { return a.query < b.query; });
	c.data.push_back(d); c.solvers.push_back(s); c.ops.push_back(op("fit", { "s0", "d0" }));
}

// C11: tuning
static void gen_tune(Rng& r, Case& c, bool thorough) {
	Task t = Task(r.range(0, NTASK - 1)); if (t == PLR && r.chance(0.7)) t = SLR;
	int N = r.range(12, 40), F = (t == GF || t == EO || t == PLR) ? r.range(2, 4) : r.range(2, 5);
	if (t == PLR) N = r.range(14, 22);
	if (r.chance(0.12)) N = r.range(5, 11);
	int K = pickK(r, t), M = t == SLR || t == PLR ? 1 : 0;
	Data d = gen_data(r, t, "d0", N, F, K, M);
	if (r.chance(0.5) && t != GF && t != EO) { // many repeated rows: fold assignment matters little
		Data e = d; e.rows.resize(std::min<size_t>(e.rows.size(), r.range(5, 8))); int rep = r.range(4, 8); d.rows.clear();
		for (int i = 0; i < rep; i++) for (auto& w : e.rows) d.rows.push_back(w);
		if (t == PP) for (int k = 0; k < K; k++) { d.rows[k].y = k; d.rows[k].ex[0] = k; }
	}
	SolverDef s; s.name = "s0"; s.task = t; s.seed = r.range(1, 1000);
	gen_limits(r, t, s.p, t == PLR ? 1 : r.chance(0.3) ? 3 : 2); gen_switches(r, t, s.p); gen_task_params(r, t, s.p, d);
	s.p.set("hyper-tune", "1"); if (r.chance(0.5)) s.p.set("verbose", "1");
	if (t == CCA || t == CCR || t == SLR || t == PLR) s.p.set("max-num-nodes", (1 << s.p.depth()) - 1);
	gen_mem(r, c.sim);
	if (r.chance(0.5)) { s.p.set("time", 1e6); c.sim.query_cost = 1e-6; c.cfg["mode"] = "ample"; }
	else { double L = gen_clock(r, c.sim, 30000, true); s.p.set("time", L); c.cfg["mode"] = "deadline"; }
	c.data.push_back(d); c.solvers.push_back(s); c.ops.push_back(op("fit", { "s0", "d0" }));
}

// C12: failing allocations
static void gen_alloc(Rng& r, Case& c, bool thorough) {
	Task t = Task(r.range(0, NTASK - 1));
	int nd = r.range(1, 2);
	int F = r.range(2, (t == GF || t == EO || t == PLR) ? 3 : 4), K = pickK(r, t), M = r.range(1, 2);
	for (int i = 0; i < nd; i++) c.data.push_back(gen_data(r, t, "d" + itos(i), r.range(6, 14), F, K, M));
	SolverDef s; s.name = "s0"; s.task = t; s.seed = r.range(1, 1000);
	gen_limits(r, t, s.p, t == PLR ? 2 : 3); gen_switches(r, t, s.p); gen_task_params(r, t, s.p, c.data[0]); s.p.set("time", 1e6);
	if (r.chance(0.3)) s.p.set("verbose", "1");
	if (r.chance(0.15) && t != PLR) { s.p.set("hyper-tune", "1"); s.p.kv["max-depth"] = "1"; s.p.kv["max-num-nodes"] = "1"; }
	gen_mem(r, c.sim);
	int nops = r.range(1, 4);
	for (int i = 0; i < nops; i++) {
		std::string dn = "d" + itos(r.range(0, nd - 1));
		int k = i == 0 ? 0 : r.range(0, 3);
		c.ops.push_back(op(k <= 1 ? "fit" : k == 2 ? "pred" : "score", { "s0", dn }));
	}
	int nf = r.range(1, 2);
	for (int i = 0; i < nf; i++) {
		AllocFault f; f.op = r.range(0, nops - 1);
		f.n = uint64_t(logu(r, 1, c.ops[f.op].kind == "fit" ? 4000 : 120));
		f.count = r.chance(0.5) ? 1 : r.chance(0.5) ? r.range(2, 6) : 0;
		c.sim.af.push_back(f);
	}
	c.solvers.push_back(s);
}

// C09: reproducibility
std::string cli_file(Rng& r, const Data& d, bool trailing_newline);
static void gen_repro(Rng& r, Case& c, bool thorough) {
	Task t = Task(r.range(0, NTASK - 1));
	bool cli = r.chance(0.5);
	int N = r.range(8, t == PLR ? 16 : 30), F = r.range(2, (t == GF || t == EO || t == PLR) ? 4 : 5);
	Data d = gen_data(r, t, "d0", N, F, pickK(r, t), t == SLR || t == PLR ? r.range(1, 2) : 0);
	SolverDef s; s.name = "s0"; s.task = t; s.seed = r.range(1, 1000);
	gen_limits(r, t, s.p, t == PLR ? 1 : 2); gen_switches(r, t, s.p); gen_task_params(r, t, s.p, d); s.p.set("time", 1e9);
	if (r.chance(0.4)) s.p.set("hyper-tune", "1");
	if (t == CS) s.p.kv.erase("hyper-tune");
	gen_mem(r, c.sim);
	c.sim.query_cost = 1e-6;
	c.cfg["arena2"] = itos((c.sim.arena + r.range(1, 3)) % 4);
	c.cfg["entropy2"] = itos(r.range(1, 1000000));
	c.cfg["wall2"] = fmt(std::round(1e9 + r.unit() * 1e9));
	c.cfg["fill2"] = std::to_string(r.next());
	c.cfg["reuse2"] = itos(r.range(0, 3));
	c.cfg["query2"] = fmt(logu(r, 1e-9, 1e-3));
	if (cli) {
		c.cfg["cli"] = "1";
		s.p.set("random-seed", int(s.seed)); s.p.set("verbose", "1"); s.p.set("file", "in.txt");
		if (t == PP) s.p.set("num-extra-cols", d.K);
		if (r.chance(0.6)) s.p.set("num-instances", r.range(std::max(4, N / 3), N + 2));
		if (t != GF && t != EO && t != F1 && r.chance(0.6)) { s.p.set("train-test-split", r3(0.1 + 0.4 * r.unit())); if (N >= 12 && !s.p.has("num-instances")) s.p.set("stratify", r.chance(0.5) ? "1" : "0"); else s.p.set("stratify", "0"); }
		if (t == CS) s.p.set("cost-file", "cost.txt");
		if (t == GF || t == EO || t == CS) s.p.kv.erase("num-instances");
		c.ops.push_back(op("cli", { "s0", "d0" }));
	} else {
		c.ops.push_back(op("fit", { "s0", "d0" })); c.ops.push_back(op("pred", { "s0", "d0" })); c.ops.push_back(op("score", { "s0", "d0" }));
		if (r.chance(0.3)) c.ops.push_back(op("fit", { "s0", "d0" }));
	}
	c.data.push_back(d); c.solvers.push_back(s);
}

// C10: splits
static void gen_split(Rng& r, Case& c, bool thorough) {
	Task t = r.chance(0.5) ? ACC : REG;
	int N = r.chance(0.15) ? r.range(1, 9) : r.range(2, 120);
	Data d = gen_data(r, t, "d0", N, r.range(1, 3), t == ACC ? r.range(2, 5) : 2, 0);
	gen_mem(r, c.sim);
	c.data.push_back(d);
	c.cfg["stratify"] = r.chance(0.5) ? "1" : "0";
	c.cfg["seed"] = itos(r.range(1, 1000000));
	if (r.chance(0.5)) { c.cfg["kind"] = "kfold"; c.cfg["folds"] = itos(r.range(2, 10)); if (r.chance(0.3)) c.cfg["subset"] = "1"; }
	else { c.cfg["kind"] = "split"; double f = r.chance(0.1) ? (r.chance(0.5) ? 0 : 1) : r3(r.unit()); c.cfg["frac"] = fmt(f); }
}

// C13: data files
std::string num(Rng& r, double v) { (void)r; return fmt(v); }
std::string cli_file(Rng& r, const Data& d, bool trailing_newline) {
	std::string o;
	for (size_t i = 0; i < d.rows.size(); i++) {
		auto& w = d.rows[i];
		o += num(r, w.y);
		for (double e : w.ex) o += " " + num(r, e);
		if (d.task == PP) for (int k = 0; k < d.K; k++) o += " " + num(r, r3(r.unit()));
		for (char b : w.bits) { o += " "; o += b; }
		if (i + 1 < d.rows.size() || trailing_newline) o += "\n";
	}
	return o;
}
static void gen_read_faults(Rng& r, Config& s, size_t bytes) {
	int k = r.range(0, 9);
	if (k <= 3) { int n = r.range(1, 8); for (int i = 0; i < n; i++) s.rf.push_back({ uint64_t(r.range(1, 12)), 0, r.range(1, 40) }); }
	if (k == 4 || k == 3) s.rf.push_back({ uint64_t(r.range(1, 6)), 1, 0 });
	if (k == 5 || k == 6) { if (r.chance(0.7)) for (int i = 0; i < 4; i++) s.rf.push_back({ uint64_t(i + 1), 0, r.range(1, int(std::max<size_t>(1, bytes / 3))) }); s.rf.push_back({ uint64_t(r.range(1, 5)), 2, 0 }); }
	if (k == 7 && r.chance(0.5)) s.open_fail = true;
	std::sort(s.rf.begin(), s.rf.end(), [](const ReadFault& a, const ReadFault& b) { return a.n < b.n; });
	// one fault per read call
	std::vector<ReadFault> u; for (auto& f : s.rf) if (u.empty() || u.back().n != f.n) u.push_back(f); s.rf = u;
}
static void damage(Rng& r, std::string& s, Case& c) {
	int k = r.range(0, 9);
	if (s.empty()) return;
	if (k <= 2) { s.resize(r.range(0, int(s.size()) - 1)); c.cfg["damage"] = "cut"; }
	else if (k == 3) { s[r.range(0, int(s.size()) - 1)] = "x2-.%"[r.range(0, 4)]; c.cfg["damage"] = "byte"; }
	else if (k == 4) { // drop one column of one line
		size_t p = s.find(' ', r.range(0, int(s.size()) - 1)); if (p != std::string::npos) { size_t e = p + 1; while (e < s.size() && s[e] != ' ' && s[e] != '\n') e++; s.erase(p, e - p); c.cfg["damage"] = "column"; } }
}
static void gen_datafile(Rng& r, Case& c, bool thorough) {
	Task t = Task(r.range(0, NTASK - 1));
	int N = r.chance(0.1) ? r.range(100, 300) : r.range(2, 30), F = r.range(1, 8);
	if (t == GF || t == EO) { F = std::max(F, 2); N = std::max(N, 4); }
	Data d = gen_data(r, t, "d0", std::max(N, 4), F, pickK(r, t), t == SLR || t == PLR ? r.range(1, 3) : 0);
	SolverDef s; s.name = "s0"; s.task = t; s.seed = r.range(1, 1000);
	int extra = t == ICS ? d.K : t == PP ? d.K : (t == SLR || t == PLR) ? int(d.rows[0].ex.size()) : 0;
	if (extra) s.p.set("num-extra-cols", extra);
	s.p.set("file", "in.txt");
	gen_mem(r, c.sim);
	std::string f = cli_file(r, d, r.chance(0.8));
	if (r.chance(0.5)) damage(r, f, c);
	c.files.push_back({ "in.txt", f });
	if (r.chance(0.2)) { Data e = d; e.rows.resize(std::max<size_t>(1, e.rows.size() / 2)); std::string g = cli_file(r, e, true); if (r.chance(0.3)) damage(r, g, c); c.files.push_back({ "test.txt", g }); s.p.set("test-file", "test.txt"); }
	if (r.chance(0.15)) s.p.set("duplicate-factor", r.range(2, 3));
	if (r.chance(0.15)) s.p.set("num-instances", r.range(1, N + 3));
	if (r.chance(0.15)) s.p.set("max-num-features", r.range(1, F + 1));
	if (r.chance(0.04)) c.files.erase(c.files.begin());
	gen_read_faults(r, c.sim, f.size());
	c.solvers.push_back(s); c.cfg["extra"] = itos(extra); c.cfg["K"] = itos(d.K);
	c.ops.push_back(op("load", { "s0" }));
}

// C14: cost files
static void gen_costfile(Rng& r, Case& c, bool thorough) {
	int F = r.range(1, 8), K = r.range(2, 4);
	Data d = gen_data(r, CS, "d0", 6, F, K, 0);
	std::string f;
	for (int i = 0; i < K; i++) { for (int j = 0; j < K; j++) f += (j ? " " : "") + num(r, d.cm[i * K + j]); f += "\n"; }
	f += "Attribute cost discount group begin end\n";
	int k = 0;
	for (auto& x : d.fc) { f += "attr" + itos(k++) + " " + num(r, x.cost) + " " + num(r, x.discount) + " " + x.group + " " + itos(x.begin) + " " + itos(x.end); if (k < int(d.fc.size()) || r.chance(0.7)) f += "\n"; }
	if (r.chance(0.5)) damage(r, f, c);
	c.files.push_back({ "cost.txt", f });
	if (r.chance(0.04)) c.files.clear();
	gen_mem(r, c.sim); gen_read_faults(r, c.sim, f.size());
	c.cfg["K"] = itos(K);
	c.ops.push_back(op("loadcost", {}));
}

Case generate(const std::string& prop, uint64_t seed, uint64_t run, bool th) {
	uint64_t h = 0; for (char ch : prop) h = h * 131 + (unsigned char)ch;
	Rng r(seed * 0x9E3779B97F4A7C15ull ^ (run * 0xD1B54A32D192ED03ull) ^ (h << 17)); for (int i = 0; i < 3; i++) r.next();
	Case c; c.prop = prop;
	if (prop == "C01") gen_fit(r, c, { ACC, CCA, CS, ICS, PP }, th, false);
	else if (prop == "C02") gen_fit(r, c, { REG, CCR, SLR, SA }, th, false);
	else if (prop == "C03") gen_fit(r, c, { F1, GF, EO }, th, false);
	else if (prop == "C04") gen_fit(r, c, { ACC, CCA, REG, CCR, PLR, SLR, CS, ICS, F1, GF, EO, PP, SA }, th, true);
	else if (prop == "C05") gen_budget(r, c, th);
	else if (prop == "C06") gen_history(r, c, th);
	else if (prop == "C07") gen_predict(r, c, th);
	else if (prop == "C08") gen_threads(r, c, th);
	else if (prop == "C09") gen_repro(r, c, th);
	else if (prop == "C10") gen_split(r, c, th);
	else if (prop == "C11") gen_tune(r, c, th);
	else if (prop == "C12") gen_alloc(r, c, th);
	else if (prop == "C13") gen_datafile(r, c, th);
	else if (prop == "C14") gen_costfile(r, c, th);
	if (prop == "C09" && c.get("cli") == "1") {
		Rng q(run + 17); c.files.push_back({ "in.txt", cli_file(q, c.data[0], true) });
		if (c.data[0].task == CS) {
			std::string f; auto& d = c.data[0];
			for (int i = 0; i < d.K; i++) { for (int j = 0; j < d.K; j++) f += (j ? " " : "") + fmt(d.cm[i * d.K + j]); f += "\n"; }
			f += "Attribute cost discount group begin end\n"; int k = 0;
			for (auto& x : d.fc) f += "attr" + itos(k++) + " " + fmt(x.cost) + " " + fmt(x.discount) + " " + x.group + " " + itos(x.begin) + " " + itos(x.end) + "\n";
			c.files.push_back({ "cost.txt", f });
		}
		c.data.clear();
	}
	return c;
}
}
