// Data, parameters, cases and the executable reference models.
// Nothing in here uses code of the project.
#pragma once
#include "seam.h"
#include <map>
#include <string>
#include <vector>
#include <memory>
#include <sstream>
#include <cmath>
#include <array>
#include <bitset>
#include <limits>
#include <unordered_map>

namespace sim {

enum Task { ACC, CCA, REG, CCR, PLR, SLR, CS, ICS, F1, GF, EO, PP, SA, NTASK };
extern const char* task_name[NTASK];
Task task_of(const std::string& s);
inline bool real_label(Task t) { return t == REG || t == CCR || t == PLR || t == SLR || t == SA; }
inline bool merges_rows(Task t) { return t == CCR || t == SLR; }

struct Params {
	std::map<std::string, std::string> kv;
	bool has(const std::string& k) const { return kv.count(k) > 0; }
	double num(const std::string& k, double d) const { auto i = kv.find(k); return i == kv.end() ? d : atof(i->second.c_str()); }
	int integer(const std::string& k, int d) const { return int(num(k, d)); }
	bool flag(const std::string& k, bool d) const { auto i = kv.find(k); return i == kv.end() ? d : (i->second == "1" || i->second == "true"); }
	std::string str(const std::string& k, const std::string& d) const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
	void set(const std::string& k, const std::string& v) { kv[k] = v; }
	void set(const std::string& k, double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); kv[k] = b; }
	void set(const std::string& k, int v) { kv[k] = std::to_string(v); }
	int depth() const { return integer("max-depth", 3); }
	int nodes() const { return integer("max-num-nodes", 7); }
	int minleaf() const { return integer("min-leaf-node-size", 1); }
};

struct FCost { double cost, discount; std::string group; int begin, end; };

struct Row { double y = 0; std::vector<double> ex; std::string bits; };
struct Data {
	std::string name; Task task = ACC; int F = 0; int K = 2; // K: classes for cost vectors
	std::vector<Row> rows;
	std::vector<double> cm;            // cost matrix, K*K (cost-sensitive)
	std::vector<FCost> fc;
	int num_labels() const;            // as the code under test sees it
};

struct Op { std::string kind; std::vector<std::string> a; int line = 0; int thread = 0; };

struct SolverDef { std::string name; Task task = ACC; Params p; uint64_t seed = 4; };

struct Case {
	std::string prop;
	std::map<std::string, std::string> cfg;
	std::vector<Data> data;
	std::vector<SolverDef> solvers;
	std::vector<Op> ops;
	Config sim;
	std::vector<std::pair<std::string, std::string>> files;    // name -> contents (escaped in text)
	std::string text() const;
	static Case parse(const std::string& s);
	const Data* find(const std::string& n) const { for (auto& d : data) if (d.name == n) return &d; return nullptr; }
	std::string get(const std::string& k, const std::string& d = "") const { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; }
};
std::string fmt(double v);

// a tree as observed by the caller
struct RTree {
	struct N { int f = -1; int l = -1, r = -1; std::vector<double> label; };
	std::vector<N> n;
	bool empty() const { return n.empty(); }
	int depth(int i = 0) const { return n[i].f < 0 ? 0 : 1 + std::max(depth(n[i].l), depth(n[i].r)); }
	int nodes(int i = 0) const { return n[i].f < 0 ? 0 : 1 + nodes(n[i].l) + nodes(n[i].r); }
	int leaf_of(const Row& r) const { int i = 0; while (n[i].f >= 0) i = r.bits[n[i].f] == '1' ? n[i].r : n[i].l; return i; }
	int steps(const Row& r) const { int i = 0, s = 1; while (n[i].f >= 0) { i = r.bits[n[i].f] == '1' ? n[i].r : n[i].l; s++; } return s; }
	std::string str(int i = 0) const;
};

using Mask = std::bitset<512>;

// reference for one (task, parameters, training data)
struct Ref {
	Task t; const Params& p; const Data& d; int N, F, L;
	std::vector<Mask> present;
	Ref(Task t, const Params& p, const Data& d);

	// objective the fit minimises, for a given tree on the training data; +inf if the tree is
	// not acceptable (limits, constraint)
	double objective(const RTree& tr, std::string* why = nullptr) const;
	double best(int depth, int nodes);          // optimum over all acceptable trees (+inf: none)
	bool has_reference() const { return t != PLR; }
	double tol(double v) const;

	// score reported for a tree on given rows; train = rows are the training rows
	double score(const RTree& tr, const Data& rows, bool train) const;
	double predict(const RTree& tr, const Row& r) const;
	double best_leaf();                          // objective of the best single leaf (+inf if none)

	// details
	double branching(int f, const std::vector<int>& path, int n) const;
	double leaf_opt(const Mask& m) const;
	double leaf_cost(const Mask& m, const std::vector<double>& label) const;
	double row_cost(int i, int k) const;         // additive classification tasks
	double minw(const Mask& m) const { return double(m.count()); }

	// derived training quantities
	std::vector<std::vector<double>> rc;
	double total_ss = 0, bcost = 0;
	std::vector<double> varx;
	std::map<double, double> hz;                 // survival: cumulative hazard
	std::vector<double> hzrow;
	int n0 = 0, n1 = 0;                          // group sizes
	std::vector<int> grp;
	double fcost(int f, const std::vector<int>& path) const;
	std::vector<double> fcv, dcv; std::vector<std::string> grpname; std::vector<int> spec;
	double total_test = 0, max_mis = 0;

	struct Key { uint32_t code; int d, n; bool operator==(const Key& o) const { return code == o.code && d == o.d && n == o.n; } };
	struct KH { size_t operator()(const Key& k) const { return (size_t(k.code) * 31 + k.d) * 131 + k.n; } };
	std::unordered_map<Key, double, KH> memo;
	double solve(uint32_t code, const Mask& m, std::vector<int>& path, int depth, int nodes);
	using Front = std::map<int, int>;            // F1: fn -> min fp ; fairness: d -> min errors
	std::unordered_map<Key, Front, KH> fmemo;
	const Front& front(uint32_t code, const Mask& m, int depth, int nodes);
	double front_best(const Front& f) const;
	double hazard_at(double t) const;
	uint64_t states = 0;
};

double score_f1(int tp, int fp, int fn);
bool close(double a, double b, double rel = 1e-9, double abs = 1e-9);
}
