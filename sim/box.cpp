#include "box.h"
#include "utils/parameter_handler.h"
#include "utils/file_reader.h"
#include "solver/result.h"
#include "solver/solver.h"
#include "model/data.h"
#include "tasks/tasks.h"

using namespace STreeD;

namespace sim {

std::string FitOut::str() const {
	if (!ok) return "error(" + error + ")";
	if (!feasible) return std::string("no-tree proven=") + (proven ? "1" : "0");
	return "score=" + fmt(score) + " proven=" + (proven ? "1" : "0") + " depth=" + std::to_string(depth) + " nodes=" + std::to_string(nodes) + " tree=" + tree.str();
}
bool FitOut::same(const FitOut& o, std::string* why) const {
	auto say = [&](const std::string& s) { if (why) *why = s; return false; };
	if (ok != o.ok) return say("one call failed: " + str() + " vs " + o.str());
	if (!ok) return true;
	if (feasible != o.feasible) return say("feasibility differs: " + str() + " vs " + o.str());
	if (proven != o.proven) return say("proof status differs: " + str() + " vs " + o.str());
	if (feasible && !close(score, o.score, 1e-7, 1e-9)) return say("score differs: " + str() + " vs " + o.str());
	return true;
}

static bool is_bool(const std::string& k) {
	static const std::vector<std::string> b = { "hyper-tune", "verbose", "all-trees", "stratify", "use-terminal-solver", "use-similarity-lower-bound",
		"use-upper-bound", "use-lower-bound", "use-task-lower-bound", "use-branch-caching", "use-dataset-caching" };
	return std::find(b.begin(), b.end(), k) != b.end();
}
static bool is_int(const std::string& k) {
	static const std::vector<std::string> b = { "max-depth", "max-num-nodes", "max-num-features", "num-instances", "num-extra-cols", "min-leaf-node-size", "random-seed", "duplicate-factor" };
	return std::find(b.begin(), b.end(), k) != b.end();
}
static bool is_float(const std::string& k) {
	static const std::vector<std::string> b = { "time", "train-test-split", "upper-bound", "cost-complexity", "lasso-penalty", "ridge-penalty", "discrimination-limit" };
	return std::find(b.begin(), b.end(), k) != b.end();
}

static void apply(ParameterHandler& h, Task t, const Params& p) {
	h.SetStringParameter("task", task_name[t]);
	h.SetBooleanParameter("verbose", false);
	for (auto& k : p.kv) {
		if (is_bool(k.first)) h.SetBooleanParameter(k.first, p.flag(k.first, false));
		else if (is_int(k.first)) h.SetIntegerParameter(k.first, atoll(k.second.c_str()));
		else if (is_float(k.first)) h.SetFloatParameter(k.first, atof(k.second.c_str()));
		else h.SetStringParameter(k.first, k.second);
	}
}

template <class OT> typename OT::ET make_extra(const Row& r, int K) {
	using ET = typename OT::ET;
	if constexpr (std::is_same<ET, InstanceCostSensitiveData>::value) {
		std::vector<double> c = r.ex; c.resize(K, 0); return ET(c);
	} else if constexpr (std::is_same<ET, PPGData>::value) {
		std::vector<double> yh(r.ex.begin() + 3, r.ex.begin() + 3 + K), cf(K, 0.0);
		return ET(int(r.ex[0]), r.ex[1], r.ex[2], yh, int(r.ex.back()), cf);
	} else if constexpr (std::is_same<ET, SAData>::value) {
		return ET(r.ex.empty() ? 0 : int(r.ex[0]), -1.0);
	} else if constexpr (std::is_same<ET, PieceWiseLinearRegExtraData>::value || std::is_same<ET, SimpleLinRegExtraData>::value) {
		return ET(r.ex);
	} else return ET();
}
template <class OT> std::vector<double> extra_values(const typename OT::ET& e) {
	using ET = typename OT::ET;
	std::vector<double> o;
	if constexpr (std::is_same<ET, InstanceCostSensitiveData>::value) return e.costs;
	else if constexpr (std::is_same<ET, PPGData>::value) {
		o = { double(e.k), e.y, e.mu }; for (double v : e.yhat) o.push_back(v); o.push_back(e.k_opt); for (double v : e.cf_y) o.push_back(v); return o;
	} else if constexpr (std::is_same<ET, SAData>::value) return { double(e.GetEvent()) };
	else if constexpr (std::is_same<ET, PieceWiseLinearRegExtraData>::value || std::is_same<ET, SimpleLinRegExtraData>::value) return e.x;
	else return o;
}

// the data object and view a binding call would create
template <class OT> struct Bundle {
	AData data; ADataView view;
	Bundle(const Data& d, bool labels) {
		using LT = typename OT::LabelType;
		const bool regression = std::is_same<LT, double>::value;
		std::vector<std::vector<const AInstance*>> per;
		if (regression) per.resize(1);
		int id = 0;
		data.GetInstances().reserve(d.rows.size());
		for (auto& r : d.rows) {
			std::vector<bool> v(d.F); for (int f = 0; f < d.F; f++) v[f] = r.bits[f] == '1';
			LT lab = labels ? LT(r.y) : LT(0);
			auto* in = new Instance<LT, typename OT::ET>(id++, v, lab, make_extra<OT>(r, d.K));
			data.AddInstance(in);
			if (regression) per[0].push_back(in);
			else { int k = int(lab); if (int(per.size()) <= k) per.resize(k + 1); per[k].push_back(in); }
		}
		data.SetNumFeatures(d.F);
		view = ADataView(&data, per, {});
	}
};

template <class T> static std::vector<double> lab(const T& l) {
	if constexpr (std::is_same<T, LinearModel>::value) { std::vector<double> v{ l.b0 }; v.insert(v.end(), l.b.begin(), l.b.end()); return v; }
	else return { double(l) };
}
template <class OT> static int conv(const Tree<OT>* t, RTree& o) {
	int ix = int(o.n.size()); o.n.emplace_back();
	if (t->IsLabelNode()) { o.n[ix].label = lab(t->label); return ix; }
	o.n[ix].f = t->feature;
	int l = conv<OT>(t->left_child.get(), o), r = conv<OT>(t->right_child.get(), o);
	o.n[ix].l = l; o.n[ix].r = r; return ix;
}

template <class OT> struct Box : IBox {
	ParameterHandler ph; std::default_random_engine rng; Solver<OT>* solver = nullptr; Task t;
	std::map<int, std::shared_ptr<SolverTaskResult<OT>>> results; int slot = 0;
	Bundle<OT>* kept = nullptr; Bundle<OT>* kept_test = nullptr; std::vector<Bundle<OT>*> grave;
	Box(Task t, const Params& p, uint64_t seed) : ph(ParameterHandler::DefineParameters()), rng((unsigned)seed), t(t) {
		apply(ph, t, p);
		ph.CheckParameters();
		solver = new Solver<OT>(ph, &rng);
	}
	~Box() { delete solver; delete kept; delete kept_test; for (auto* g : grave) delete g; }

	FitOut out(const std::shared_ptr<SolverTaskResult<OT>>& r) {
		NoSut ns; FitOut o; o.ok = true;
		o.feasible = r->IsFeasible(); o.proven = r->IsProvenOptimal(); o.nsol = r->NumSolutions();
		if (o.feasible) {
			size_t b = r->best_index;
			o.score = r->scores[b]->score; o.qlen = r->scores[b]->average_path_length;
			o.depth = r->GetBestDepth(); o.nodes = r->GetBestNodeCount();
			conv<OT>(r->trees[b].get(), o.tree);
		}
		hist(o.feasible); hist(o.proven); hist_str(o.feasible ? o.tree.str() : "");
		return o;
	}
	FitOut run(Bundle<OT>* b, bool pre) {
		if (pre) solver->PreprocessData(b->data);
		std::shared_ptr<SolverResult> r;
		if (solver->GetParameters().GetBooleanParameter("hyper-tune")) r = solver->HyperSolve(b->view); else r = solver->Solve(b->view);
		auto tr = std::static_pointer_cast<SolverTaskResult<OT>>(r);
		results[slot] = tr;
		return out(tr);
	}
	void specify(const Data& d) {
		if constexpr (std::is_same<OT, CostSensitive>::value) {
			if (d.cm.empty()) return;
			std::vector<std::vector<double>> m(d.K, std::vector<double>(d.K)); for (int i = 0; i < d.K; i++) for (int j = 0; j < d.K; j++) m[i][j] = d.cm[i * d.K + j];
			std::vector<FeatureCostSpecifier> f; for (auto& x : d.fc) f.emplace_back(x.cost, x.discount, x.group, x.begin, x.end);
			solver->GetTask()->UpdateCostSpecifier(CostSpecifier(m, f));
		}
	}
	FitOut fit(const Data& d, bool keep) override {
		{ Hold h; specify(d); }
		if (keep) {
			if (kept) { Hold h; grave.push_back(kept); kept = nullptr; }
			{ Hold h; kept = new Bundle<OT>(d, true); }
			return run(kept, true);
		}
		std::unique_ptr<Bundle<OT>> b; { Hold h; b.reset(new Bundle<OT>(d, true)); }
		return run(b.get(), true);
	}
	FitOut refit() override { if (!kept) { FitOut o; o.error = "nothing kept"; return o; } return run(kept, false); }
	void update(const Params& p) override { Hold h; ph = ParameterHandler::DefineParameters(); apply(ph, t, p); ph.CheckParameters(); solver->UpdateParameters(ph); }
	bool has_tree() override { auto i = results.find(slot); return i != results.end() && i->second && i->second->IsFeasible(); }
	RTree tree() override { NoSut n; RTree o; auto& r = results[slot]; conv<OT>(r->trees[r->best_index].get(), o); return o; }
	std::vector<double> predict(const Data& d, bool keep) override {
		auto& r = results[slot];
		std::unique_ptr<Bundle<OT>> b; { Hold h; b.reset(new Bundle<OT>(d, false)); }
		solver->PreprocessData(b->data, false);
		auto tr = r->trees[r->best_index];
		auto v = solver->Predict(tr, b->view);
		NoSut n; std::vector<double> o; for (auto x : v) { o.push_back(double(x)); uint64_t u; double dd = double(x); memcpy(&u, &dd, 8); hist(u); }
		if (keep) { delete kept_test; kept_test = b.release(); }
		return o;
	}
	ScoreOut score(const Data& d, bool keep) override {
		auto& r = results[slot]; ScoreOut o;
		std::unique_ptr<Bundle<OT>> b; { Hold h; b.reset(new Bundle<OT>(d, true)); }
		solver->PreprocessData(b->data, false);
		auto res = solver->TestPerformance(r, b->view);
		o.ok = true; o.score = res->scores[res->best_index]->score; o.qlen = res->scores[res->best_index]->average_path_length;
		uint64_t u; memcpy(&u, &o.score, 8); hist(u);
		if (keep) { delete kept_test; kept_test = b.release(); }
		return o;
	}
	std::map<std::string, double> params_after() override {
		NoSut n; const ParameterHandler& q = solver->GetParameters(); std::map<std::string, double> m;
		for (auto k : { "max-depth", "max-num-nodes", "min-leaf-node-size" }) m[k] = double(q.GetIntegerParameter(k));
		for (auto k : { "cost-complexity", "lasso-penalty", "ridge-penalty", "time" }) m[k] = q.GetFloatParameter(k);
		return m;
	}
	void drop_result() override { results.clear(); }
	void select(int s) override { slot = s; }
};

IBox* make_box(Task t, const Params& p, uint64_t seed) {
	switch (t) {
	case ACC: return new Box<Accuracy>(t, p, seed);
	case CCA: return new Box<CostComplexAccuracy>(t, p, seed);
	case REG: return new Box<Regression>(t, p, seed);
	case CCR: return new Box<CostComplexRegression>(t, p, seed);
	case PLR: return new Box<PieceWiseLinearRegression>(t, p, seed);
	case SLR: return new Box<SimpleLinearRegression>(t, p, seed);
	case CS: return new Box<CostSensitive>(t, p, seed);
	case ICS: return new Box<InstanceCostSensitive>(t, p, seed);
	case F1: return new Box<F1Score>(t, p, seed);
	case GF: return new Box<GroupFairness>(t, p, seed);
	case EO: return new Box<EqOpp>(t, p, seed);
	case PP: return new Box<PrescriptivePolicy>(t, p, seed);
	case SA: return new Box<SurvivalAnalysis>(t, p, seed);
	default: return nullptr;
	}
}

template <class OT> static void ids(const ADataView& v, std::vector<int>& o, std::vector<int>& slot) {
	for (int k = 0; k < v.NumLabels(); k++) for (auto* i : v.GetInstancesForLabel(k)) { o.push_back(i->GetID()); slot.push_back(k); }
}
template <class OT> static std::vector<SplitOut> kfold_t(const Data& d, uint64_t seed, int folds, bool st, bool sub) {
	std::vector<SplitOut> o; enter_sut();
	{
		Bundle<OT> b(d, true); std::default_random_engine rng((unsigned)seed); std::vector<ADataView> tr, te;
		ADataView view = b.view;
		if (sub) { ADataView tst; ADataView::TrainTestSplitData<typename OT::LabelType>(b.view, view, tst, &rng, 0.25, false); }
		ADataView::KFoldSplit<typename OT::LabelType>(view, tr, te, &rng, folds, st);
		NoSut n;
		SplitOut all; ids<OT>(view, all.train, all.train_slot); o.push_back(all);
		for (size_t i = 0; i < tr.size(); i++) { SplitOut s; ids<OT>(tr[i], s.train, s.train_slot); ids<OT>(te[i], s.test, s.test_slot); o.push_back(s);
			if (tr[i].Size() != int(s.train.size()) || te[i].Size() != int(s.test.size())) o.back().train.push_back(-1); }
	}
	leave_sut(); return o;
}
template <class OT> static SplitOut split_t(const Data& d, uint64_t seed, double frac, bool st) {
	SplitOut s; enter_sut();
	{
		Bundle<OT> b(d, true); std::default_random_engine rng((unsigned)seed); ADataView tr, te;
		ADataView::TrainTestSplitData<typename OT::LabelType>(b.view, tr, te, &rng, frac, st);
		NoSut n; ids<OT>(tr, s.train, s.train_slot); ids<OT>(te, s.test, s.test_slot);
		if (tr.Size() != int(s.train.size()) || te.Size() != int(s.test.size())) s.train.push_back(-1);
	}
	leave_sut(); return s;
}
std::vector<SplitOut> do_kfold(const Data& d, uint64_t seed, int folds, bool st, bool sub) { return real_label(d.task) ? kfold_t<Regression>(d, seed, folds, st, sub) : kfold_t<Accuracy>(d, seed, folds, st, sub); }
SplitOut do_split(const Data& d, uint64_t seed, double frac, bool st) { return real_label(d.task) ? split_t<Regression>(d, seed, frac, st) : split_t<Accuracy>(d, seed, frac, st); }

template <class OT> static void rows_of(const ADataView& v, int F, std::vector<Row>& o, std::vector<int>& slot) {
	std::vector<std::pair<int, Row>> rs; std::vector<std::pair<int, int>> sl;
	for (int k = 0; k < v.NumLabels(); k++) for (auto* i : v.GetInstancesForLabel(k)) {
		Row r; r.y = double(GetInstanceLabel<typename OT::LabelType>(i));
		r.ex = extra_values<OT>(GetInstanceExtraData<typename OT::LabelType, typename OT::ET>(i));
		for (int f = 0; f < F; f++) r.bits += i->IsFeaturePresent(f) ? '1' : '0';
		rs.push_back({ i->GetID(), r }); sl.push_back({ i->GetID(), k });
	}
	std::stable_sort(rs.begin(), rs.end(), [](auto& a, auto& b) { return a.first < b.first; });
	std::stable_sort(sl.begin(), sl.end());
	for (auto& x : rs) o.push_back(x.second);
	for (auto& x : sl) slot.push_back(x.second);
}
template <class OT> static LoadOut load_t(Task t, const Params& p, uint64_t seed) {
	LoadOut o; enter_sut();
	try {
		ParameterHandler h = ParameterHandler::DefineParameters(); apply(h, t, p);
		std::default_random_engine rng((unsigned)seed);
		AData data(int(h.GetIntegerParameter("max-num-features"))); ADataView tr, te;
		track_files(true);
		FileReader::ReadData<OT>(h, data, tr, te, &rng);
		track_files(false);
		NoSut n; o.ok = true; o.F = data.NumFeatures();
		rows_of<OT>(tr, o.F == INT32_MAX ? 0 : o.F, o.train, o.train_label_slot); rows_of<OT>(te, o.F == INT32_MAX ? 0 : o.F, o.test, o.test_label_slot);
	} catch (std::exception& e) { o.error = e.what(); }
	leave_sut(); track_files(false);
	return o;
}
LoadOut do_load(Task t, const Params& p, uint64_t seed) {
	switch (t) {
	case ACC: return load_t<Accuracy>(t, p, seed);
	case CCA: return load_t<CostComplexAccuracy>(t, p, seed);
	case REG: return load_t<Regression>(t, p, seed);
	case CCR: return load_t<CostComplexRegression>(t, p, seed);
	case PLR: return load_t<PieceWiseLinearRegression>(t, p, seed);
	case SLR: return load_t<SimpleLinearRegression>(t, p, seed);
	case CS: return load_t<CostSensitive>(t, p, seed);
	case ICS: return load_t<InstanceCostSensitive>(t, p, seed);
	case F1: return load_t<F1Score>(t, p, seed);
	case GF: return load_t<GroupFairness>(t, p, seed);
	case EO: return load_t<EqOpp>(t, p, seed);
	case PP: return load_t<PrescriptivePolicy>(t, p, seed);
	case SA: return load_t<SurvivalAnalysis>(t, p, seed);
	default: return LoadOut();
	}
}
CostOut do_cost_file(const std::string& file, int labels) {
	CostOut o; enter_sut();
	struct L { ~L() { leave_sut(); track_files(false); } } l;
	track_files(true);
	CostSpecifier c(file, labels);
	track_files(false);
	NoSut n;
	o.cm = c.misclassification_costs; o.fc = c.feature_costs; o.dc = c.discount_costs; o.group = c.same_group; o.binar = c.same_binarized; o.total = c.total_test_costs; o.maxm = c.max_misclassification_costs;
	return o;
}
}
