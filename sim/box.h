// Thin adapter that drives the project's solver classes the way its bindings do.
#pragma once
#include "model.h"
#include <functional>

namespace sim {

struct FitOut {
	bool ok = false;               // call returned normally
	std::string error;             // exception text
	bool feasible = false, proven = false;
	double score = 0, qlen = 0; int depth = 0, nodes = 0; size_t nsol = 0;
	RTree tree;
	std::string str() const;
	bool same(const FitOut& o, std::string* why) const;     // score, proof status, feasibility
};

struct ScoreOut { bool ok = false; std::string error; double score = 0, qlen = 0; };

struct IBox {
	virtual ~IBox() {}
	// fit as bindings.cpp does: a data object made for this call and destroyed before returning
	virtual FitOut fit(const Data& d, bool keep_data) = 0;
	// solve again on the data object kept from the last fit with keep_data
	virtual FitOut refit() = 0;
	virtual void update(const Params& p) = 0;
	virtual std::vector<double> predict(const Data& d, bool keep_data) = 0;
	virtual ScoreOut score(const Data& d, bool keep_data) = 0;
	virtual RTree tree() = 0;          // of the last result
	virtual bool has_tree() = 0;
	virtual std::map<std::string, double> params_after() = 0;
	virtual void drop_result() = 0;
	virtual void select(int slot) = 0;     // keep several results
};

IBox* make_box(Task t, const Params& p, uint64_t seed);     // call inside a Sut region
void apply_params(void* parameter_handler, Task t, const Params& p);

struct TuneInfo { bool ok = false; };

// splitting
struct SplitOut { std::vector<int> train, test; std::vector<int> train_slot, test_slot; };
std::vector<SplitOut> do_kfold(const Data& d, uint64_t seed, int folds, bool stratify, bool view_from_subset);
SplitOut do_split(const Data& d, uint64_t seed, double frac, bool stratify);

// files: rows as loaded
struct LoadOut { bool ok = false; std::string error; int F = 0; std::vector<Row> train, test; std::vector<int> train_label_slot, test_label_slot; };
LoadOut do_load(Task t, const Params& p, uint64_t seed);
struct CostOut { std::vector<std::vector<double>> cm; std::vector<double> fc, dc; std::vector<int> group, binar; double total = 0, maxm = 0; };
CostOut do_cost_file(const std::string& file, int labels);
int cli_main(int argc, char** argv);
}
