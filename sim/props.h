#pragma once
#include "model.h"
#include "box.h"

namespace sim {
struct Verdict {
	bool violation = false, invalid = false;
	std::string sig, msg;                 // signature (stable), human text
	std::map<std::string, uint64_t> st;   // what happened in this run (measured)
	bool nontrivial = false;
	std::string shape;                    // abstract class of the run
	double simtime = 0;
	std::vector<std::pair<uint64_t, int>> taken;
	void bad(const std::string& s, const std::string& m) { if (!violation) { violation = true; sig = s; msg = m; } }
};
Case generate(const std::string& prop, uint64_t seed, uint64_t run, bool thorough);
// run the case; report is called exactly once, from wherever the run ends
void execute(const Case& c, void (*report)(const Verdict&));
// fork a child that runs fn under configuration cfg, returns its text output (or "!signal n", "!exit n")
std::string isolated(const Config& cfg, const std::function<std::string()>& fn);
}
