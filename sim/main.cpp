// Runner: forks one child per run.
//   simrun --prop P --seed S --from A --step K --count N [--seconds T] [--thorough] [--hashes FILE] [--log FILE]
//   simrun --gen P S RUN [--thorough]      print the case
//   simrun --case FILE                      execute one case, print the outcome
#include "props.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <unordered_set>
#include <unistd.h>
#include <poll.h>
#include <signal.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>

using namespace sim;

static int out_fd = -1;
static std::string esc(const std::string& s) { std::string o; for (char c : s) { if (c == '\n') o += "\\n"; else if (c == '\\') o += "\\\\"; else o += c; } return o; }

static void report(const Verdict& v) {
	std::string o;
	hist(v.violation); hist_str(v.sig); hist_str(v.msg);
	char b[64]; snprintf(b, sizeof b, "hash %016lx\n", (unsigned long)hist_hash()); o += b;
	o += std::string("verdict ") + (v.invalid ? "invalid" : v.violation ? "violation" : "ok") + "\n";
	if (v.violation) o += "sig " + esc(v.sig) + "\nmsg " + esc(v.msg) + "\n";
	if (v.nontrivial) o += "nontrivial 1\n";
	if (!v.shape.empty()) o += "shape " + v.shape + "\n";
	snprintf(b, sizeof b, "simtime %.9g\n", v.simtime); o += b;
	for (auto& k : v.st) if (k.second) o += "st " + std::to_string(k.second) + " " + k.first + "\n";
	if (v.violation && !v.taken.empty() && v.taken.size() < 200000) { o += "taken"; for (auto& t : v.taken) o += " " + std::to_string(t.first) + ":" + std::to_string(t.second); o += "\n"; }
	o += "end\n";
	size_t p = 0; while (p < o.size()) { ssize_t w = write(out_fd, o.data() + p, o.size() - p); if (w <= 0) _exit(83); p += size_t(w); }
}

struct Out { std::string verdict, sig, msg, hash, shape, taken; bool nontrivial = false; double simtime = 0; std::map<std::string, uint64_t> st; };

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// run fn in a child, collect its report
template <class FN> static Out in_child(FN fn, double limit) {
	int fd[2]; if (pipe(fd)) { perror("pipe"); exit(2); }
	fflush(stdout);
	pid_t p = fork();
	if (p < 0) { perror("fork"); exit(2); }
	if (p == 0) {
		close(fd[0]); out_fd = fd[1];
		setpgid(0, 0);
		struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
		fn(); _exit(84);
	}
	setpgid(p, p);
	close(fd[1]);
	std::string s; char b[65536]; double t0 = now(); bool hang = false;
	while (true) {
		struct pollfd pf = { fd[0], POLLIN, 0 };
		int r = poll(&pf, 1, 1000);
		if (r > 0) { ssize_t n = read(fd[0], b, sizeof b); if (n <= 0) break; s.append(b, size_t(n)); }
		if (now() - t0 > limit) { hang = true; break; }
	}
	if (hang) kill(-p, SIGKILL);
	close(fd[0]);
	int st = 0; waitpid(p, &st, 0);
	Out o;
	if (hang) { o.verdict = "violation"; o.sig = "hang"; o.msg = "the call did not return"; o.hash = "hang"; return o; }
	if (WIFSIGNALED(st)) { o.verdict = "violation"; o.sig = "crash:" + std::to_string(WTERMSIG(st)); o.msg = "the process crashed with signal " + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")"; o.hash = o.sig; return o; }
	if (WEXITSTATUS(st) != 0) { o.verdict = "simfail"; o.msg = "child ended with status " + std::to_string(WEXITSTATUS(st)); return o; }
	std::istringstream is(s); std::string l;
	while (std::getline(is, l)) {
		auto sp = l.find(' '); std::string k = l.substr(0, sp), v = sp == std::string::npos ? "" : l.substr(sp + 1);
		if (k == "hash") o.hash = v; else if (k == "verdict") o.verdict = v; else if (k == "sig") o.sig = v; else if (k == "msg") o.msg = v;
		else if (k == "nontrivial") o.nontrivial = true; else if (k == "shape") o.shape = v; else if (k == "simtime") o.simtime = atof(v.c_str());
		else if (k == "taken") o.taken = v;
		else if (k == "st") { auto q = v.find(' '); o.st[v.substr(q + 1)] = strtoull(v.c_str(), 0, 10); }
	}
	return o;
}

static std::string js(const std::string& s) { std::string o = "\""; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += char(c); } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += char(c); } return o + "\""; }

int main(int argc, char** argv) {
	if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
		setenv("SIM_NO_REEXEC", "1", 1);
		personality(ADDR_NO_RANDOMIZE);
		execv("/proc/self/exe", argv);
	}
	signal(SIGPIPE, SIG_IGN);
	std::string prop, casef, hashes, logf, tmp; uint64_t seed = 1, from = 0, step = 1, count = 1; double seconds = 1e9; bool thorough = false, gen = false; double limit = 150; int maxviol = 6;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--prop") prop = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--from") from = strtoull(nx().c_str(), 0, 10);
		else if (a == "--step") step = strtoull(nx().c_str(), 0, 10); else if (a == "--count") count = strtoull(nx().c_str(), 0, 10); else if (a == "--seconds") seconds = atof(nx().c_str());
		else if (a == "--thorough") thorough = true; else if (a == "--hashes") hashes = nx(); else if (a == "--log") logf = nx(); else if (a == "--case") casef = nx();
		else if (a == "--tmp") tmp = nx(); else if (a == "--maxviol") maxviol = atoi(nx().c_str());
		else if (a == "--gen") { gen = true; prop = nx(); seed = strtoull(nx().c_str(), 0, 10); from = strtoull(nx().c_str(), 0, 10); }
		else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
	}
	if (gen) { fputs(generate(prop, seed, from, thorough).text().c_str(), stdout); return 0; }
	if (!tmp.empty() && chdir(tmp.c_str())) { perror("chdir"); return 2; }
	if (!casef.empty()) {
		std::string s; if (casef == "-") s.assign(std::istreambuf_iterator<char>(std::cin), {}); else { std::ifstream f(casef); if (!f) { perror(casef.c_str()); return 2; } s.assign(std::istreambuf_iterator<char>(f), {}); }
		Out o = in_child([&] { Case c = Case::parse(s); execute(c, report); }, limit);
		printf("verdict %s\nhash %s\n", o.verdict.c_str(), o.hash.c_str());
		if (!o.sig.empty()) printf("sig %s\n", o.sig.c_str());
		if (!o.msg.empty()) printf("msg %s\n", o.msg.c_str());
		if (!o.taken.empty()) printf("taken %s\n", o.taken.c_str());
		if (!o.shape.empty()) printf("shape %s\n", o.shape.c_str());
		printf("simtime %.9g\n", o.simtime);
		for (auto& k : o.st) printf("st %s %lu\n", k.first.c_str(), (unsigned long)k.second);
		return o.verdict == "simfail" ? 2 : 0;
	}
	double t0 = now(); uint64_t runs = 0, inval = 0, nontriv = 0, viol = 0; double simt = 0; std::map<std::string, uint64_t> st; std::set<std::string> sigs;
	std::unordered_set<std::string> shapes; std::unordered_set<uint64_t> hs; std::string samples; int ns = 0; uint64_t last = from;
	FILE* lf = logf.empty() ? nullptr : fopen(logf.c_str(), "w");
	for (uint64_t k = 0; k < count; k++) {
		if (now() - t0 > seconds) break;
		uint64_t run = from + k * step; last = run;
		Out o = in_child([&] { Case c = Case::parse(generate(prop, seed, run, thorough).text()); execute(c, report); }, limit);
		runs++;
		if (lf) fprintf(lf, "%lu %s %s %s\n", (unsigned long)run, o.hash.c_str(), o.verdict.c_str(), o.sig.c_str());
		if (o.verdict == "simfail") { printf("SIMFAIL %lu %s\n", (unsigned long)run, o.msg.c_str()); fflush(stdout); return 2; }
		if (o.verdict == "invalid") { inval++; continue; }
		simt += o.simtime;
		for (auto& q : o.st) if (q.first.substr(0, 4) == "max.") st[q.first] = std::max(st[q.first], q.second); else st[q.first] += q.second;
		if (o.nontrivial) { nontriv++; shapes.insert(o.shape); hs.insert(strtoull(o.hash.c_str(), 0, 16)); if (ns < 3) { if (ns++) samples += ","; samples += "{\"run\":" + std::to_string(run) + ",\"class\":" + js(o.shape) + ",\"history\":" + js(o.hash) + "}"; } }
		if (o.verdict == "violation") {
			viol++; sigs.insert(o.sig);
			printf("VIOL %lu %s\t%s\n", (unsigned long)run, o.sig.c_str(), o.msg.c_str()); fflush(stdout);
			if (int(viol) >= maxviol) break;
		}
	}
	if (lf) fclose(lf);
	if (!hashes.empty()) { FILE* f = fopen(hashes.c_str(), "w"); for (auto& s : shapes) fprintf(f, "S %s\n", s.c_str()); for (auto h : hs) fprintf(f, "H %016lx\n", (unsigned long)h); fclose(f); }
	printf("SUMMARY {\"runs\":%lu,\"invalid\":%lu,\"nontrivial\":%lu,\"violations\":%lu,\"simtime\":%.6f,\"last\":%lu,\"samples\":[%s],\"st\":{", (unsigned long)runs, (unsigned long)inval, (unsigned long)nontriv, (unsigned long)viol, simt, (unsigned long)last, samples.c_str());
	bool first = true; for (auto& q : st) { printf("%s%s:%lu", first ? "" : ",", js(q.first).c_str(), (unsigned long)q.second); first = false; }
	printf("}}\n");
	return 0;
}
