#include "layer.h"
#include <cstdio>
#include <cstring>
#include <time.h>
#include <sys/time.h>
using namespace sym;
std::vector<Task> &tasks() { static std::vector<Task> t; return t; }
BF fromTable(BFManager &m, const Tab &t) { return BFBdd(&m, mk(t)); }
Tab toTable(const BF &f, int n) { Tab r; for (size_t i = 0; i < ((size_t)1 << n); i++) r.push_back(sym::at(f.getCuddNode(), i)); return r; }
long refs(NodeRef f) { return refCountOf(f); }
void refEvents(std::vector<std::string> &v) { v = refMisuse; refMisuse.clear(); }
static std::map<std::string, std::vector<Lit>> choiceBits;
int choose(const std::string &name, int n) {
  auto &b = choiceBits[name]; if (b.empty()) for (int k = 1; k < n; k *= 2) b.push_back(fresh(name + "." + std::to_string(b.size())));
  Lit ok = F; for (int v = 0; v < n; v++) { Lit e = T; for (size_t i = 0; i < b.size(); i++) e = And(e, (v >> i & 1) ? b[i] : neg(b[i])); ok = Or(ok, e); }
  if (!assume(ok)) endPath(false);
  int v = 0; for (size_t i = 0; i < b.size(); i++) if (decide(b[i])) v |= 1 << i; return v;
}
void broken(const std::string &m) { possible(T); violation(m); endPath(true); }
static double nowReal() { struct timeval t; gettimeofday(&t, 0); return t.tv_sec + 1e-6 * t.tv_usec; }
int main(int argc, char **argv) {
  std::map<std::string, std::string> o; for (int i = 1; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
  cfg.workdir = o.count("--workdir") ? o["--workdir"] : "."; cfg.jobs = o.count("--jobs") ? atoi(o["--jobs"].c_str()) : 8;
  if (o.count("--timeout")) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); cfg.deadline = t.tv_sec + atof(o["--timeout"].c_str()); }
  cfg.maxOps = 500000; if (o.count("--samples")) cfg.samples = atoi(o["--samples"].c_str());
  if (o.count("--cross")) { cfg.crossDir = cfg.workdir; cfg.crossEvery = atoi(o["--cross"].c_str()); }
  int a = 0, b = 0; sscanf(o["--shape"].c_str(), "n%dk%d", &a, &b); Task *t = nullptr; for (auto &x : tasks()) if (x.name == o["--check"]) t = &x; if (!t) { fprintf(stderr, "unknown check\n"); return 2; }
  trackRefs = true; double t0 = nowReal();
  dumpHook = [&](FILE *f) { fprintf(f, "check %s %d %d\n", t->name.c_str(), a, b); for (size_t i = 0; i < nofInputs(); i++) fprintf(f, "%s %d\n", inputName(i).c_str(), inputModel(i) ? 1 : 0); };
  explore([&]() { t->body(a, b); });
  Stats st = stats();
  printf("{\"check\":\"%s\",\"shape\":\"%s\",\"inputs\":%zu,\"paths\":%lu,\"infeasible\":%lu,\"decisions\":%lu,\"forks\":%lu,\"sat_queries\":%lu,\"assertions\":%lu,\"solver_s\":%.2f,\"wall_s\":%.2f,\"max_depth\":%lu,\"incomplete\":%lu,\"violated\":%d,\"timeout\":%d,\"witnesses\":[", o["--check"].c_str(), o["--shape"].c_str(), nofInputs(), st.paths, st.infeasible, st.decisions, st.forks, st.satQueries, st.asserts, st.solverTime, nowReal() - t0, st.maxDepth, st.incomplete, violated() ? 1 : 0, outOfTime() ? 1 : 0);
  for (int i = 0; i < 8; i++) printf("%s%lu", i ? "," : "", st.witnesses[i]); printf("]}\n");
  return violated() ? 1 : st.incomplete ? 3 : 0;
}
