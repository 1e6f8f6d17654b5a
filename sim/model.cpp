#include "model.h"
#include <algorithm>
#include <cstring>
#include <set>

namespace sim {

const char* task_name[NTASK] = { "accuracy", "cost-complex-accuracy", "regression", "cost-complex-regression",
	"piecewise-linear-regression", "simple-linear-regression", "cost-sensitive", "instance-cost-sensitive",
	"f1-score", "group-fairness", "equality-of-opportunity", "prescriptive-policy", "survival-analysis" };
Task task_of(const std::string& s) { for (int i = 0; i < NTASK; i++) if (s == task_name[i]) return Task(i); return NTASK; }
static const double INF = std::numeric_limits<double>::infinity();

std::string fmt(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); if (atof(b) == v) { char c[64]; for (int p = 1; p < 17; p++) { snprintf(c, sizeof c, "%.*g", p, v); if (atof(c) == v) return c; } } return b; }
bool close(double a, double b, double rel, double abs_) {
	if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
	if (std::isinf(a) || std::isinf(b)) return a == b;
	return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
}

int Data::num_labels() const {
	if (real_label(task)) return 1;
	int m = 0; for (auto& r : rows) m = std::max(m, int(r.y));
	return task == ICS ? std::max(K, m + 1) : m + 1;
}

// ---------------------------------------------------------------- case text
static std::string esc(const std::string& s) {
	std::string o; char b[8];
	for (unsigned char c : s) { if (c == '\\') o += "\\\\"; else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += char(c); }
	return o;
}
static std::string unesc(const std::string& s) {
	std::string o;
	for (size_t i = 0; i < s.size(); i++) {
		if (s[i] != '\\' || i + 1 >= s.size()) { o += s[i]; continue; }
		char c = s[++i];
		if (c == 'n') o += '\n'; else if (c == 'x' && i + 2 < s.size()) { o += char(strtol(s.substr(i + 1, 2).c_str(), 0, 16)); i += 2; } else o += c;
	}
	return o;
}

std::string Case::text() const {
	std::ostringstream o;
	o << "prop " << prop << "\n";
	for (auto& k : cfg) o << "cfg " << k.first << "=" << k.second << "\n";
	o << "mem fill=" << sim.fill << " reuse=" << sim.reuse << " arena=" << sim.arena << " seed=" << sim.alloc_seed << " entropy=" << sim.entropy << "\n";
	o << "clock wall0=" << fmt(sim.wall0) << " mono0=" << fmt(sim.mono0) << " query=" << fmt(sim.query_cost) << " alloc=" << fmt(sim.alloc_cost) << "\n";
	if (sim.sched_on && sim.switches.empty() && sim.sched_p > 0) o << "sched seed=" << sim.sched_seed << " p=" << fmt(sim.sched_p) << "\n";
	for (auto& e : sim.clk) o << "clk " << e.query << " " << (e.kind == 0 ? "jump" : e.kind == 1 ? "stall" : "rate") << " " << fmt(e.seconds) << "\n";
	for (auto& f : sim.af) o << "fault alloc " << f.op << " " << f.n << " " << f.count << "\n";
	for (auto& f : sim.rf) o << "fault read " << f.n << " " << (f.kind == 0 ? "short" : f.kind == 1 ? "eintr" : f.kind == 2 ? "eio" : "eof") << " " << f.arg << "\n";
	if (sim.open_fail) o << "fault open\n";
	for (auto& d : data) {
		o << "data " << d.name << " " << task_name[d.task] << " F=" << d.F << " K=" << d.K << "\n";
		for (auto& r : d.rows) {
			o << "r " << fmt(r.y) << " " << (r.bits.empty() ? "-" : r.bits);
			for (double e : r.ex) o << " " << fmt(e);
			o << "\n";
		}
		if (!d.cm.empty()) { o << "cm"; for (double v : d.cm) o << " " << fmt(v); o << "\n"; }
		for (auto& f : d.fc) o << "fc " << fmt(f.cost) << " " << fmt(f.discount) << " " << f.group << " " << f.begin << " " << f.end << "\n";
	}
	for (auto& s : solvers) {
		o << "solver " << s.name << " " << task_name[s.task] << " seed=" << s.seed;
		for (auto& k : s.p.kv) o << " " << k.first << "=" << k.second;
		o << "\n";
	}
	for (auto& op : ops) { o << "op"; if (op.thread) o << "@" << op.thread; o << " " << op.kind; for (auto& a : op.a) o << " " << a; o << "\n"; }
	for (auto& f : files) o << "file " << f.first << " " << esc(f.second) << "\n";
	for (auto& s : sim.switches) o << "sw " << s.first << " " << s.second << "\n";
	return o.str();
}

static std::map<std::string, std::string> kvs(std::istringstream& is) {
	std::map<std::string, std::string> m; std::string w;
	while (is >> w) { auto e = w.find('='); if (e != std::string::npos) m[w.substr(0, e)] = w.substr(e + 1); }
	return m;
}

Case Case::parse(const std::string& s) {
	Case c; std::istringstream in(s); std::string line; int ln = 0;
	while (std::getline(in, line)) {
		ln++;
		std::istringstream is(line); std::string w; if (!(is >> w)) continue;
		if (w[0] == '#') continue;
		if (w == "prop") is >> c.prop;
		else if (w == "cfg") { for (auto& k : kvs(is)) c.cfg[k.first] = k.second; }
		else if (w == "mem") {
			for (auto& k : kvs(is)) {
				if (k.first == "fill") c.sim.fill = strtoull(k.second.c_str(), 0, 10);
				else if (k.first == "reuse") c.sim.reuse = atoi(k.second.c_str());
				else if (k.first == "arena") c.sim.arena = atoi(k.second.c_str());
				else if (k.first == "seed") c.sim.alloc_seed = strtoull(k.second.c_str(), 0, 10);
				else if (k.first == "entropy") c.sim.entropy = strtoull(k.second.c_str(), 0, 10);
			}
		} else if (w == "clock") {
			for (auto& k : kvs(is)) {
				double v = atof(k.second.c_str());
				if (k.first == "wall0") c.sim.wall0 = v; else if (k.first == "mono0") c.sim.mono0 = v;
				else if (k.first == "query") c.sim.query_cost = v; else if (k.first == "alloc") c.sim.alloc_cost = v;
			}
		} else if (w == "sched") {
			c.sim.sched_on = true;
			for (auto& k : kvs(is)) { if (k.first == "seed") c.sim.sched_seed = strtoull(k.second.c_str(), 0, 10); else if (k.first == "p") c.sim.sched_p = atof(k.second.c_str()); }
		} else if (w == "clk") {
			ClockEv e; std::string k; is >> e.query >> k >> e.seconds; e.kind = k == "jump" ? 0 : k == "stall" ? 1 : 2; c.sim.clk.push_back(e);
		} else if (w == "fault") {
			std::string k; is >> k;
			if (k == "alloc") { AllocFault f; is >> f.op >> f.n >> f.count; c.sim.af.push_back(f); }
			else if (k == "read") { ReadFault f; std::string q; is >> f.n >> q >> f.arg; f.kind = q == "short" ? 0 : q == "eintr" ? 1 : q == "eio" ? 2 : 3; c.sim.rf.push_back(f); }
			else if (k == "open") c.sim.open_fail = true;
		} else if (w == "data") {
			Data d; std::string t; is >> d.name >> t; d.task = task_of(t);
			for (auto& k : kvs(is)) { if (k.first == "F") d.F = atoi(k.second.c_str()); else if (k.first == "K") d.K = atoi(k.second.c_str()); }
			c.data.push_back(d);
		} else if (w == "r") {
			Row r; is >> r.y >> r.bits; if (r.bits == "-") r.bits = ""; double e; while (is >> e) r.ex.push_back(e);
			if (!c.data.empty()) c.data.back().rows.push_back(r);
		} else if (w == "cm") { double v; while (is >> v) c.data.back().cm.push_back(v); }
		else if (w == "fc") { FCost f; is >> f.cost >> f.discount >> f.group >> f.begin >> f.end; c.data.back().fc.push_back(f); }
		else if (w == "solver") {
			SolverDef d; std::string t; is >> d.name >> t; d.task = task_of(t);
			for (auto& k : kvs(is)) { if (k.first == "seed") d.seed = strtoull(k.second.c_str(), 0, 10); else d.p.kv[k.first] = k.second; }
			c.solvers.push_back(d);
		} else if (w.substr(0, 2) == "op") {
			Op o; if (w.size() > 3 && w[2] == '@') o.thread = atoi(w.c_str() + 3);
			is >> o.kind; std::string a; while (is >> a) o.a.push_back(a); o.line = ln; c.ops.push_back(o);
		} else if (w == "file") {
			std::string n; is >> n; std::string rest; std::getline(is, rest); if (!rest.empty() && rest[0] == ' ') rest = rest.substr(1);
			c.files.push_back({ n, unesc(rest) });
		} else if (w == "sw") { uint64_t p; int t; is >> p >> t; c.sim.switches.push_back({ p, t }); c.sim.sched_on = true; }
	}
	std::sort(c.sim.clk.begin(), c.sim.clk.end(), [](const ClockEv& a, const ClockEv& b) { return a.query < b.query; });
	return c;
}

std::string RTree::str(int i) const {
	std::string s = "[";
	if (n[i].f < 0) { for (size_t k = 0; k < n[i].label.size(); k++) { if (k) s += ";"; s += fmt(n[i].label[k]); } return s + "]"; }
	return s + std::to_string(n[i].f) + "," + str(n[i].l) + "," + str(n[i].r) + "]";
}

double score_f1(int tp, int fp, int fn) { return double(tp) / (double(tp) + 0.5 * (fp + fn)); }

// ---------------------------------------------------------------- reference models
Ref::Ref(Task t, const Params& p, const Data& d) : t(t), p(p), d(d), N(int(d.rows.size())), F(d.F), L(d.num_labels()) {
	present.assign(F, Mask());
	for (int i = 0; i < N; i++) for (int f = 0; f < F; f++) if (d.rows[i].bits[f] == '1') present[f].set(i);
	auto ss = [&](auto get) { double s = 0, q = 0; for (auto& r : d.rows) { s += get(r); q += get(r) * get(r); } return q - s * s / N; };
	switch (t) {
	case ACC: case CCA:
		rc.assign(N, std::vector<double>(L)); for (int i = 0; i < N; i++) for (int k = 0; k < L; k++) rc[i][k] = d.rows[i].y == k ? 0 : 1;
		if (t == CCA) bcost = p.num("cost-complexity", 0) * N;
		break;
	case CS: {
		rc.assign(N, std::vector<double>(L)); for (int i = 0; i < N; i++) for (int k = 0; k < L; k++) rc[i][k] = int(d.rows[i].y) == k ? 0 : d.cm[int(d.rows[i].y) * d.K + k];
		fcv.assign(F, 0); dcv.assign(F, 0); grpname.assign(F, ""); spec.assign(F, -1);
		for (size_t s = 0; s < d.fc.size(); s++) for (int f = d.fc[s].begin; f <= d.fc[s].end && f < F; f++) { fcv[f] = d.fc[s].cost; dcv[f] = d.fc[s].discount; grpname[f] = d.fc[s].group; spec[f] = int(s); }
		std::set<int> seen; std::set<std::string> g;
		for (int f = 0; f < F; f++) {
			if (seen.count(spec[f])) continue;
			total_test += g.count(grpname[f]) ? dcv[f] : fcv[f];
			seen.insert(spec[f]); g.insert(grpname[f]);
		}
		max_mis = -1e300; for (double v : d.cm) max_mis = std::max(max_mis, v);
		break; }
	case ICS:
		rc.assign(N, std::vector<double>(L)); for (int i = 0; i < N; i++) for (int k = 0; k < L; k++) rc[i][k] = d.rows[i].ex[k];
		break;
	case PP: {
		std::string m = p.str("ppg-teacher-method", "DR");
		rc.assign(N, std::vector<double>(L)); double mn = 1;
		for (int i = 0; i < N; i++) {
			auto& e = d.rows[i].ex; int h = int(e[0]); double y = e[1], mu = e[2]; bool z = std::fabs(mu) <= 1e-6;
			for (int k = 0; k < L; k++) {
				double yh = e[3 + k];
				double s = m == "DM" ? yh : m == "IPW" ? (z ? 0 : k == h ? y / mu : 0) : (z ? 0 : yh + (k == h ? (y - e[3 + h]) / mu : 0));
				rc[i][k] = -s; mn = std::min(mn, -s);
			}
		}
		for (auto& r : rc) for (auto& v : r) v -= mn;
		break; }
	case F1: break;
	case GF: case EO:
		grp.assign(N, -1);
		for (int i = 0; i < N; i++) {
			if (t == EO && d.rows[i].y != 1) continue;
			grp[i] = d.rows[i].bits[0] == '1'; (grp[i] ? n1 : n0)++;
		}
		break;
	case REG: case CCR:
		total_ss = ss([](const Row& r) { return r.y; });
		if (t == CCR) bcost = p.num("cost-complexity", 0) * total_ss;
		break;
	case SLR: {
		total_ss = ss([](const Row& r) { return r.y; });
		bcost = p.num("cost-complexity", 0) * total_ss;
		size_t M = N ? d.rows[0].ex.size() : 0; varx.assign(M, 0);
		for (size_t j = 0; j < M; j++) varx[j] = ss([j](const Row& r) { return r.ex[j]; }) / N;
		break; }
	case SA: {
		std::map<double, std::pair<int, int>> ev;   // time -> (deaths, leaving)
		for (auto& r : d.rows) { auto& e = ev[r.y]; e.first += r.ex[0] != 0; e.second++; }
		int risk = N; double s = 0;
		hz[0] = 1.0 / (N + 1);
		for (auto& e : ev) { s += double(e.second.first) / risk; if (e.second.first > 0) hz[e.first] = s; risk -= e.second.second; }
		hzrow.resize(N); for (int i = 0; i < N; i++) hzrow[i] = hazard_at(d.rows[i].y);
		break; }
	default: break;
	}
}

double Ref::hazard_at(double t) const {
	auto it = hz.upper_bound(t + 1e-6);
	if (it == hz.begin()) return it->second;
	return (--it)->second;
}

double Ref::tol(double v) const {
	if (t == ACC || t == F1 || t == GF || t == EO) return 1e-9;
	if (t == CCA || t == CS || t == ICS || t == PP) return 6e-4 * std::fabs(v) + 2e-6;
	return 8e-4 * std::fabs(v) + 1e-5 + 1e-9 * total_ss;
}

// cost of testing f after the given ancestors, per instance
double Ref::fcost(int f, const std::vector<int>& path) const {
	for (int g : path) if (spec[g] == spec[f]) return 0;
	for (int g : path) if (grpname[g] == grpname[f]) return dcv[f];
	return fcv[f];
}
double Ref::branching(int f, const std::vector<int>& path, int n) const {
	if (t == CS) return n * fcost(f, path);
	return bcost;
}

double Ref::leaf_cost(const Mask& m, const std::vector<double>& lab) const {
	double c = 0;
	switch (t) {
	case ACC: case CCA: case CS: case ICS: case PP: {
		int k = int(lab[0]); if (k < 0 || k >= L) return INF;
		for (int i = 0; i < N; i++) if (m[i]) c += rc[i][k];
		return c; }
	case REG: case CCR: for (int i = 0; i < N; i++) if (m[i]) { double e = d.rows[i].y - lab[0]; c += e * e; } return c;
	case SLR: case PLR: {
		for (int i = 0; i < N; i++) if (m[i]) { double q = lab[0]; for (size_t j = 0; j + 1 < lab.size(); j++) q += lab[j + 1] * d.rows[i].ex[j]; double e = d.rows[i].y - q; c += e * e; }
		if (t == SLR) { double ridge = p.num("lasso-penalty", 0); for (size_t j = 0; j + 1 < lab.size(); j++) c += ridge * lab[j + 1] * lab[j + 1] * varx[j] * 1.0; }
		return c; }
	case SA: {
		double ev = 0, neg = 0, hs = 0;
		for (int i = 0; i < N; i++) if (m[i]) { hs += hzrow[i]; if (d.rows[i].ex[0] != 0) { ev++; neg -= std::log(hzrow[i]); } }
		// the search counts an event-free leaf (estimate 0.5 / hazard) as free of loss
		return std::max(0.0, neg - ev * (std::log(lab[0]) + 1) + lab[0] * hs - (ev == 0 ? 0.5 : 0)); }
	default: return 0;
	}
}

double Ref::leaf_opt(const Mask& m) const {
	switch (t) {
	case ACC: case CCA: case CS: case ICS: case PP: {
		double b = INF; for (int k = 0; k < L; k++) { double c = 0; for (int i = 0; i < N; i++) if (m[i]) c += rc[i][k]; b = std::min(b, c); } return b; }
	case REG: case CCR: { double s = 0; int n = 0; for (int i = 0; i < N; i++) if (m[i]) { s += d.rows[i].y; n++; } double mu = s / n, c = 0; for (int i = 0; i < N; i++) if (m[i]) c += (d.rows[i].y - mu) * (d.rows[i].y - mu); return c; }
	case SLR: {
		double ridge = p.num("lasso-penalty", 0), best = INF;
		for (size_t j = 0; j < varx.size(); j++) {
			double w = 0, sx = 0, sy = 0, sxx = 0, sxy = 0, syy = 0;
			for (int i = 0; i < N; i++) if (m[i]) { double x = d.rows[i].ex[j], y = d.rows[i].y; w++; sx += x; sy += y; sxx += x * x; sxy += x * y; syy += y * y; }
			double div = w * sxx - sx * sx + w * varx[j] * ridge, err;
			if (std::fabs(div) < 1e-3) err = syy - sy * sy / w;
			else { double a = (w * sxy - sx * sy) / div, b = (sy - a * sx) / w; err = 0; for (int i = 0; i < N; i++) if (m[i]) { double e = d.rows[i].y - a * d.rows[i].ex[j] - b; err += e * e; } err += ridge * a * a * varx[j]; }
			best = std::min(best, std::max(0.0, err));
		}
		return best; }
	case SA: {
		double ev = 0, neg = 0, hs = 0;
		for (int i = 0; i < N; i++) if (m[i]) { hs += hzrow[i]; if (d.rows[i].ex[0] != 0) { ev++; neg -= std::log(hzrow[i]); } }
		double th = std::max(0.5, ev) / hs;
		return std::max(0.0, neg - ev * std::log(th)); }
	default: return 0;
	}
}

static const uint32_t pow3[] = { 1, 3, 9, 27, 81, 243, 729, 2187, 6561, 19683, 59049, 177147, 531441, 1594323, 4782969, 14348907, 43046721, 129140163, 387420489, 1162261467 };

double Ref::solve(uint32_t code, const Mask& m, std::vector<int>& path, int depth, int nodes) {
	depth = std::min(depth, nodes);
	nodes = std::min(nodes, (1 << depth) - 1);
	Key k{ code, depth, nodes };
	auto it = memo.find(k); if (it != memo.end()) return it->second;
	states++;
	int n = int(m.count());
	double b = n >= p.minleaf() ? leaf_opt(m) : INF;
	if (nodes > 0 && n >= 2 * p.minleaf()) {
		for (int f = 0; f < F; f++) {
			if (std::find(path.begin(), path.end(), f) != path.end()) continue;
			Mask l = m & ~present[f], r = m & present[f];
			if (int(l.count()) < std::max(1, p.minleaf()) || int(r.count()) < std::max(1, p.minleaf())) continue;
			double bc = branching(f, path, n);
			if (bc >= b && t != SA) continue;
			path.push_back(f);
			for (int ln = 0; ln <= nodes - 1; ln++) {
				double lc = solve(code + pow3[f], l, path, depth - 1, ln);
				if (bc + lc >= b) continue;
				double rr = solve(code + 2 * pow3[f], r, path, depth - 1, nodes - 1 - ln);
				b = std::min(b, bc + lc + rr);
			}
			path.pop_back();
		}
	}
	memo[k] = b;
	return b;
}

// Pareto fronts.  F1: key = false negatives, value = false positives.
// Fairness: key = p0*n1 - p1*n0 (p_g: rows of group g predicted positive), value = errors.
static void put(Ref::Front& f, int k, int v) { auto it = f.find(k); if (it == f.end()) f[k] = v; else if (v < it->second) it->second = v; }

const Ref::Front& Ref::front(uint32_t code, const Mask& m, int depth, int nodes) {
	depth = std::min(depth, nodes);
	nodes = std::min(nodes, (1 << depth) - 1);
	Key k{ code, depth, nodes };
	auto it = fmemo.find(k); if (it != fmemo.end()) return it->second;
	states++;
	Front res;
	int n = int(m.count());
	if (n >= p.minleaf()) {
		int pos = 0, neg = 0, g0 = 0, g1 = 0;
		for (int i = 0; i < N; i++) if (m[i]) { if (d.rows[i].y == 1) pos++; else neg++; if (t != F1) { if (grp[i] == 0) g0++; else if (grp[i] == 1) g1++; } }
		if (t == F1) { put(res, pos, 0); put(res, 0, neg); }
		else { put(res, 0, pos); put(res, g0 * n1 - g1 * n0, neg); }
	}
	if (nodes > 0 && n >= 2 * p.minleaf()) {
		for (int f = (t == F1 ? 0 : 1); f < F; f++) {
			if ((code / pow3[f]) % 3) continue;
			Mask l = m & ~present[f], r = m & present[f];
			if (int(l.count()) < std::max(1, p.minleaf()) || int(r.count()) < std::max(1, p.minleaf())) continue;
			for (int ln = 0; ln <= nodes - 1; ln++) {
				Front a = front(code + pow3[f], l, depth - 1, ln);
				const Front& b = front(code + 2 * pow3[f], r, depth - 1, nodes - 1 - ln);
				for (auto& x : a) for (auto& y : b) put(res, x.first + y.first, x.second + y.second);
			}
		}
	}
	if (t == F1) { // drop dominated
		int best = INT32_MAX;
		for (auto i = res.begin(); i != res.end();) { if (i->second >= best) i = res.erase(i); else { best = i->second; ++i; } }
	}
	return fmemo[k] = res;
}

double Ref::front_best(const Front& f) const {
	double best = INF;
	int pos = 0; for (auto& r : d.rows) pos += r.y == 1;
	double lim = p.num("discrimination-limit", 1.0);
	for (auto& e : f) {
		if (t == F1) { double s = score_f1(pos - e.first, e.second, e.first); best = std::min(best, -s); }
		else { double disc = std::fabs(double(e.first) / (double(n0) * n1)); if (disc <= lim + 1e-9) best = std::min(best, double(e.second)); }
	}
	return best;
}

double Ref::best(int depth, int nodes) {
	Mask all; for (int i = 0; i < N; i++) all.set(i);
	if (t == F1 || t == GF || t == EO) return front_best(front(0, all, depth, nodes));
	std::vector<int> path;
	return solve(0, all, path, depth, nodes);
}
double Ref::best_leaf() { return best(0, 0); }

double Ref::objective(const RTree& tr, std::string* why) const {
	auto bad = [&](const std::string& s) { if (why) *why = s; return INF; };
	if (tr.depth() > p.depth()) return bad("tree depth " + std::to_string(tr.depth()) + " exceeds max-depth");
	if (tr.nodes() > p.nodes()) return bad("tree has " + std::to_string(tr.nodes()) + " branching nodes, more than max-num-nodes");
	Mask all; for (int i = 0; i < N; i++) all.set(i);
	double obj = 0; int fp = 0, fn = 0, err = 0; long dd = 0; int tp = 0;
	struct It { int n; Mask m; std::vector<int> path; };
	std::vector<It> st; st.push_back({ 0, all, {} });
	while (!st.empty()) {
		It x = st.back(); st.pop_back();
		auto& nd = tr.n[x.n];
		if (nd.f < 0) {
			int c = int(x.m.count());
			if (c < p.minleaf()) return bad("a leaf has " + std::to_string(c) + " training rows, fewer than min-leaf-node-size");
			if (t == F1 || t == GF || t == EO) {
				int k = int(nd.label[0]);
				for (int i = 0; i < N; i++) if (x.m[i]) {
					bool pos = d.rows[i].y == 1;
					if (k == 1) { if (pos) tp++; else fp++; if (t != F1) { if (grp[i] == 0) dd += n1; else if (grp[i] == 1) dd -= n0; } }
					else if (pos) fn++;
				}
			} else {
				double lc = leaf_cost(x.m, nd.label);
				if (std::isinf(lc)) return bad("leaf label out of range");
				obj += lc;
			}
		} else {
			if (nd.f >= F) return bad("branching on a feature that does not exist");
			if ((t == GF || t == EO) && nd.f == 0) return bad("branching on the protected feature");
			obj += branching(nd.f, x.path, int(x.m.count()));
			auto q = x.path; q.push_back(nd.f);
			st.push_back({ nd.l, x.m & ~present[nd.f], q });
			st.push_back({ nd.r, x.m & present[nd.f], q });
		}
	}
	err = fp + fn;
	if (t == F1) return -score_f1(tp, fp, fn);
	if (t == GF || t == EO) {
		double disc = std::fabs(double(dd) / (double(n0) * n1));
		if (disc > p.num("discrimination-limit", 1.0) + 1e-6) return bad("discrimination " + fmt(disc) + " exceeds the limit");
		return err;
	}
	return obj;
}

double Ref::predict(const RTree& tr, const Row& r) const {
	auto& lab = tr.n[tr.leaf_of(r)].label;
	if (t == SLR || t == PLR) { double q = lab[0]; for (size_t j = 0; j + 1 < lab.size(); j++) q += lab[j + 1] * r.ex[j]; return q; }
	return lab[0];
}

double Ref::score(const RTree& tr, const Data& D, bool train) const {
	int n = int(D.rows.size());
	switch (t) {
	case ACC: case CCA: { int ok = 0; for (auto& r : D.rows) ok += predict(tr, r) == r.y; return double(ok) / n; }
	case REG: case CCR: { double s = 0; for (auto& r : D.rows) { double e = predict(tr, r) - r.y; s += e * e; } return s / n; }
	case PLR: { double s = 0; for (auto& r : D.rows) { double e = predict(tr, r) - r.y; s += e * e; } return s / n; }
	case SLR: {
		double s = 0, ridge = p.num("lasso-penalty", 0);   // the penalty of every leaf is part of the score
		for (auto& r : D.rows) { double e = predict(tr, r) - r.y; s += e * e; }
		for (size_t l = 0; l < tr.n.size(); l++) if (tr.n[l].f < 0) for (size_t j = 1; j < tr.n[l].label.size(); j++) s += ridge * tr.n[l].label[j] * tr.n[l].label[j] * varx[j - 1];
		return s / n; }
	case CS: {
		double c = 0; std::vector<int> cnt(64, 0);
		for (auto& r : D.rows) {
			std::vector<int> path; int i = 0;
			while (tr.n[i].f >= 0) { c += fcost(tr.n[i].f, path); path.push_back(tr.n[i].f); i = r.bits[tr.n[i].f] == '1' ? tr.n[i].r : tr.n[i].l; }
			int k = int(tr.n[i].label[0]); if (k != int(r.y)) c += D.cm.empty() ? d.cm[int(r.y) * d.K + k] : d.cm[int(r.y) * d.K + k];
			cnt[int(r.y)]++;
		}
		double big = *std::max_element(cnt.begin(), cnt.end());
		return (c / n) / (total_test + (1.0 - big / n) * max_mis); }
	case ICS: { double c = 0; for (auto& r : D.rows) c += r.ex[int(predict(tr, r))]; return c; }
	case PP: { int ok = 0; for (auto& r : D.rows) ok += int(predict(tr, r)) == int(r.ex.back()); return double(ok) / n; }
	case F1: { int tp = 0, fp = 0, fn = 0; for (auto& r : D.rows) { bool q = predict(tr, r) == 1, y = r.y == 1; if (q && y) tp++; else if (q) fp++; else if (y) fn++; } return score_f1(tp, fp, fn); }
	case GF: case EO: {
		int ok = 0; double g[2] = { 0, 0 }, q[2] = { 0, 0 };
		for (auto& r : D.rows) {
			bool pr = predict(tr, r) == 1; ok += pr == (r.y == 1);
			if (t == EO && r.y != 1) continue;
			int gr = r.bits[0] == '1'; g[gr]++; q[gr] += pr;
		}
		double disc = std::fabs(q[0] / g[0] - q[1] / g[1]);
		return disc <= p.num("discrimination-limit", 1.0) + 1e-9 ? double(ok) / n : 0; }
	case SA: {
		std::map<int, std::array<double, 3>> lf;
		for (auto& r : D.rows) {
			auto& a = lf[tr.leaf_of(r)]; double h = hazard_at(r.y); a[2] += h;
			if (r.ex[0] != 0) { a[0]++; a[1] -= std::log(h); }
		}
		double s = 0; for (auto& l : lf) { double th = tr.n[l.first].label[0]; auto& a = l.second; s += std::max(0.0, a[1] - a[0] * (std::log(th) + 1) + th * a[2]); }
		return s / n; }
	default: return 0;
	}
}
}
