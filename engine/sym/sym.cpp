#include "sym.h"
#include <minisat/core/Solver.h>
#include <unordered_map>
#include <sys/mman.h>
#include <sys/wait.h>
#include <semaphore.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/file.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <time.h>
#include <errno.h>
#include <atomic>
namespace sym {
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
struct Shared {
  sem_t slots;
  std::atomic<uint64_t> paths, decisions, forks, satQueries, asserts, infeasible, maxDepth, incomplete, solverNs, crossed, nviol, sampled;
  std::atomic<double> cexDeadline;
  std::atomic<uint64_t> wit[64];
  std::atomic<int> stop;      // 1: violation, 2: time, 3: internal error
};
Shared *sh = nullptr;
Config cfg;
bool concreteMode = false;
std::function<void(FILE *)> dumpHook; std::function<void()> crashHook;

const int W = 4;              // 256 simulated models
struct Node { Lit a, b; int var; uint64_t s[W]; };   // var: SAT variable or -1; input nodes have a==b==~0
static std::vector<Node> N;
static std::unordered_map<uint64_t, uint32_t> strash;
static std::vector<uint32_t> inputs; static std::vector<std::string> names;
static uint64_t validMask[W];
static Minisat::Solver *S = nullptr;
static std::vector<char> inModel;     // last model, per input
static uint64_t myDepth = 0, myOps = 0;
static std::vector<pid_t> kids;
static bool holdsSlot = true;
static uint64_t rngs = 88172645463325252ull;
static uint64_t rng() { rngs ^= rngs << 13; rngs ^= rngs >> 7; rngs ^= rngs << 17; return rngs; }

static void init() {
  if (!N.empty()) return;
  Node n; n.a = n.b = 0; n.var = -1; memset(n.s, 0, sizeof n.s); N.push_back(n);
  for (int i = 0; i < W; i++) validMask[i] = ~0ull;
  S = new Minisat::Solver();
}
Lit fresh(const std::string &name) {
  init();
  Node n; n.a = n.b = ~0u; n.var = -1; for (int i = 0; i < W; i++) n.s[i] = rng();
  N.push_back(n); inputs.push_back(N.size() - 1); names.push_back(name); inModel.push_back(0);
  return 2 * (N.size() - 1);
}
size_t nofInputs() { return inputs.size(); }
const std::string &inputName(size_t i) { return names[i]; }
bool inputModel(size_t i) { return inModel[i]; }
static inline int satVarIfAny(uint32_t n) { return N[n].var; }
Lit resolve(Lit a) {
  if (a <= 1) return a;
  int v = N[a >> 1].var;
  if (v < 0) return a;
  Minisat::lbool b = S->value(v);
  if (b == Minisat::lbool((uint8_t)0)) return T ^ (a & 1);
  if (b == Minisat::lbool((uint8_t)1)) return F ^ (a & 1);
  return a;
}
static inline uint64_t simw(Lit a, int i) { return N[a >> 1].s[i] ^ ((a & 1) ? ~0ull : 0ull); }
Lit And(Lit a, Lit b) {
  a = resolve(a); b = resolve(b);
  if (a == F || b == F) return F;
  if (a == T) return b;
  if (b == T || a == b) return a;
  if (a == neg(b)) return F;
  if (a > b) std::swap(a, b);
  uint64_t key = ((uint64_t)a << 32) | b;
  auto it = strash.find(key);
  if (it != strash.end()) return resolve(2 * it->second);
  // two-level rules
  for (int k = 0; k < 2; k++) {
    Lit x = k ? b : a, y = k ? a : b;
    const Node &nx = N[x >> 1];
    if (nx.a != ~0u && (x >> 1)) {
      if (!(x & 1)) { // x = p&q
        if (nx.a == y || nx.b == y) return x;
        if (nx.a == neg(y) || nx.b == neg(y)) return F;
      } else { // x = !(p&q)
        if (nx.a == neg(y) || nx.b == neg(y)) return y;
        if (nx.a == y) return And(y, neg(nx.b));
        if (nx.b == y) return And(y, neg(nx.a));
      }
    }
  }
  Node n; n.a = a; n.b = b; n.var = -1; for (int i = 0; i < W; i++) n.s[i] = simw(a, i) & simw(b, i);
  N.push_back(n); strash[key] = N.size() - 1;
  return 2 * (N.size() - 1);
}
Lit Xor(Lit a, Lit b) {
  a = resolve(a); b = resolve(b);
  if (a == F) return b; if (b == F) return a; if (a == T) return neg(b); if (b == T) return neg(a);
  if (a == b) return F; if (a == neg(b)) return T;
  return Or(And(a, neg(b)), And(neg(a), b));
}
Lit Ite(Lit c, Lit t, Lit e) {
  c = resolve(c); if (c == T) return t; if (c == F) return e; if (t == e) return t;
  return Or(And(c, t), And(neg(c), e));
}
Lit AndAll(const std::vector<Lit> &v) { Lit r = T; for (Lit l : v) r = And(r, l); return r; }
Lit OrAll(const std::vector<Lit> &v) { Lit r = F; for (Lit l : v) r = Or(r, l); return r; }

static Minisat::Lit satLit(Lit a) {
  // Tseitin of the cone of a (iterative)
  std::vector<uint32_t> st; st.push_back(a >> 1);
  while (!st.empty()) {
    uint32_t n = st.back();
    if (N[n].var >= 0) { st.pop_back(); continue; }
    if (n == 0) { int v = S->newVar(); N[0].var = v; S->addClause(~Minisat::mkLit(v)); st.pop_back(); continue; }
    if (N[n].a == ~0u) { N[n].var = S->newVar(); st.pop_back(); continue; }
    uint32_t x = N[n].a >> 1, y = N[n].b >> 1;
    if (N[x].var < 0) { st.push_back(x); continue; }
    if (N[y].var < 0) { st.push_back(y); continue; }
    int v = S->newVar(); N[n].var = v;
    Minisat::Lit lv = Minisat::mkLit(v), lx = Minisat::mkLit(N[x].var, N[n].a & 1), ly = Minisat::mkLit(N[y].var, N[n].b & 1);
    S->addClause(~lv, lx); S->addClause(~lv, ly); S->addClause(lv, ~lx, ~ly);
    st.pop_back();
  }
  return Minisat::mkLit(N[a >> 1].var, a & 1);
}
static void resim() {
  for (size_t i = 1; i < N.size(); i++) { Node &n = N[i]; if (n.a == ~0u) continue; for (int w = 0; w < W; w++) n.s[w] = simw(n.a, w) & simw(n.b, w); }
}
static void readModelFromSlot(int w, int b) { for (size_t i = 0; i < inputs.size(); i++) inModel[i] = (N[inputs[i]].s[w] >> b) & 1; }
static void addModelToSim() {
  // put the model into an invalid slot (or slot 0 if all are valid); fill further invalid slots with perturbations lazily
  for (int w = 0; w < W; w++) if (~validMask[w]) {
    int b = __builtin_ctzll(~validMask[w]);
    for (size_t i = 0; i < inputs.size(); i++) { uint64_t &s = N[inputs[i]].s[w]; s = (s & ~(1ull << b)) | ((uint64_t)inModel[i] << b); }
    validMask[w] |= 1ull << b;
    resim(); return;
  }
}
static bool simFind(Lit a) { // is there a valid simulated model with a true? loads inModel
  for (int w = 0; w < W; w++) { uint64_t m = validMask[w] & simw(a, w); if (m) { readModelFromSlot(w, __builtin_ctzll(m)); return true; } }
  return false;
}
static bool solve(Lit a) {
  Minisat::Lit l = satLit(a);
  double t = now();
  bool r = S->solve(l);
  sh->solverNs += (uint64_t)((now() - t) * 1e9); sh->satQueries++;
  if (r) {
    for (size_t i = 0; i < inputs.size(); i++) { int v = N[inputs[i]].var; inModel[i] = v >= 0 ? (S->model[v] == Minisat::lbool((uint8_t)0)) : ((N[inputs[i]].s[0]) & 1); }
    addModelToSim();
  }
  return r;
}
bool possible(Lit a) {
  a = resolve(a);
  if (concreteMode) { if (a > 1) { fprintf(stderr, "symbolic literal in concrete mode\n"); abort(); } return a == T; }
  if (a == F) return false;
  init();
  if (simFind(a)) return true;
  if (a == T) return solve(T);
  return solve(a);
}
static uint64_t modelId = 1;
bool modelValue(Lit a) {
  if (a <= 1) return a == T;
  // evaluate under inModel
  static std::vector<signed char> val; static uint64_t valId = 0;
  if (valId == modelId && val.size() == N.size()) return val[a >> 1] ^ (a & 1);
  valId = modelId; val.assign(N.size(), -1); val[0] = 0;
  for (size_t i = 0; i < inputs.size(); i++) val[inputs[i]] = inModel[i];
  for (size_t i = 1; i < N.size(); i++) if (N[i].a != ~0u) val[i] = (val[N[i].a >> 1] ^ (N[i].a & 1)) & (val[N[i].b >> 1] ^ (N[i].b & 1));
  return val[a >> 1] ^ (a & 1);
}
static void addUnit(Lit a) {
  Minisat::Lit l = satLit(a);
  S->addClause(l);
  for (int w = 0; w < W; w++) validMask[w] &= simw(a, w);
}
bool assume(Lit a) {
  a = resolve(a);
  if (a == T) return true;
  if (!possible(a)) return false;
  addUnit(a);
  return true;
}
static void finish(int code) {
  // release the slot before waiting for asynchronous children
  if (holdsSlot) { sem_post(&sh->slots); holdsSlot = false; }
  for (pid_t k : kids) { int st; while (waitpid(k, &st, 0) < 0 && errno == EINTR) {} if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { sh->incomplete++; int z = 0; sh->stop.compare_exchange_strong(z, 3); } }
  fflush(stdout); _exit(code);
}
bool violated() { return sh->nviol.load() > 0; }
static void dumpModel(const std::string &base, int k, const std::string &msg) {
  modelId++;
  std::string fn = cfg.workdir + "/" + base + "_" + std::to_string(k) + ".txt";
  FILE *f = fopen((fn + ".part").c_str(), "w"); if (!f) return;
  fprintf(f, "# %s\n", msg.c_str());
  if (dumpHook) dumpHook(f);
  fclose(f); rename((fn + ".part").c_str(), fn.c_str());
}
bool outOfTime() { return sh->stop.load() == 2; }
void endPath(bool ok) { if (ok) { uint64_t k = sh->paths++; if (cfg.samples && (k < 8 || k % 41 == 0)) { uint64_t n = sh->sampled++; if (n < (uint64_t)cfg.samples && possible(T)) dumpModel("sample", n, "path sample"); }
    uint64_t m = sh->maxDepth; while (m < myDepth && !sh->maxDepth.compare_exchange_weak(m, myDepth)) {} } else sh->infeasible++; finish(0); }
static void stopCheck() {
  if (sh->stop.load()) { sh->incomplete++; finish(0); }
  double cd = sh->cexDeadline.load(); if (cd > 0 && now() > cd) { int z = 0; sh->stop.compare_exchange_strong(z, 1); sh->incomplete++; finish(0); }
  if (cfg.deadline && now() > cfg.deadline) { int z = 0; sh->stop.compare_exchange_strong(z, 2); sh->incomplete++; finish(0); }
}
bool decide(Lit a) {
  a = resolve(a);
  if (a == T) return true;
  if (a == F) return false;
  if (concreteMode) { fprintf(stderr, "symbolic decision in concrete mode\n"); abort(); }
  sh->decisions++;
  stopCheck();
  bool pt = possible(a);
  if (!pt) { addUnit(neg(a)); return false; }
  bool pf = possible(neg(a));
  if (!pf) { addUnit(a); return true; }
  // both feasible: fork
  sh->forks++; myDepth++;
  fflush(stdout); fflush(stderr);
  bool async = sem_trywait(&sh->slots) == 0;
  pid_t p = fork();
  if (p < 0) { if (async) sem_post(&sh->slots); perror("fork"); sh->incomplete++; int z = 0; sh->stop.compare_exchange_strong(z, 3); finish(3); }
  if (p == 0) {
    kids.clear(); holdsSlot = true; rngs ^= (uint64_t)getpid() * 0x9E3779B97F4A7C15ull;
    addUnit(a); return true;
  }
  if (async) kids.push_back(p);
  else {
    holdsSlot = false; // handed to the child, which releases it when done
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { sh->incomplete++; int z = 0; sh->stop.compare_exchange_strong(z, 3); }
    while (sem_wait(&sh->slots) < 0 && errno == EINTR) {}
    holdsSlot = true;
    stopCheck();
  }
  addUnit(neg(a));
  return false;
}
void witness(int i) { if (!concreteMode) sh->wit[i]++; }
uint64_t ops() { return myOps; }
void countOp() {
  myOps++;
  if ((myOps & 255) == 0 && !concreteMode) stopCheck();
  if (cfg.maxOps && myOps > cfg.maxOps) { possible(T); violation("no termination within " + std::to_string(cfg.maxOps) + " Boolean function operations"); }
}
void violation(const std::string &msg) {
  if (concreteMode) { printf("REPRODUCED %s\n", msg.c_str()); fflush(stdout); _exit(1); }
  int k = sh->nviol++;
  if (k < cfg.maxCex) dumpModel("cex", k, msg);
  if (k + 1 >= cfg.maxCex) { int z = 0; sh->stop.compare_exchange_strong(z, 1); }
  if (k == 0) sh->cexDeadline.store(now() + 30);
  finish(0);
}
static void crossDump(Lit a) {
  // DIMACS of: cone(a), the path condition's units are included through the solver's level-0 trail of the cone's inputs
  uint64_t k = sh->crossed++;
  if (cfg.crossEvery <= 0 || k % cfg.crossEvery || k / cfg.crossEvery >= 400) return;
  std::string fn = cfg.crossDir + "/q" + std::to_string(k) + ".cnf";
  Minisat::vec<Minisat::Lit> as; as.push(satLit(a));
  S->toDimacs(fn.c_str(), as);
}
void check(Lit a, const std::string &msg) {
  if (concreteMode) { if (a == T) return; if (a == F) violation(msg); fprintf(stderr, "symbolic assertion in concrete mode\n"); abort(); }
  sh->asserts++;
  Lit n = resolve(neg(a));
  if (n == F) return;
  if (possible(n)) { addUnit(n); possible(T); violation(msg); }
  crossDump(n);
}
static void crash(int sig) {
  signal(sig, SIG_DFL);
  if (crashHook) { auto f = crashHook; crashHook = nullptr; f(); }
  char b[64]; snprintf(b, sizeof b, "program crashed with signal %d", sig);
  possible(T); violation(b);
}
Stats stats() {
  Stats s; s.paths = sh->paths; s.decisions = sh->decisions; s.forks = sh->forks; s.satQueries = sh->satQueries; s.asserts = sh->asserts;
  for (int i = 0; i < 64; i++) s.witnesses[i] = sh->wit[i]; s.solverTime = sh->solverNs * 1e-9; s.infeasible = sh->infeasible; s.maxDepth = sh->maxDepth; s.incomplete = sh->incomplete + (sh->stop.load() ? 1 : 0);
  return s;
}
void explore(std::function<void()> body) {
  init();
  if (concreteMode) { body(); return; }
  if (!sh) sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sem_init(&sh->slots, 1, cfg.jobs - 1);
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    static char alt[1 << 16]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = crash; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    sigaction(SIGSEGV, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGBUS, &sa, 0);
    body(); endPath(true);
  }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { sh->incomplete++; int z = 0; sh->stop.compare_exchange_strong(z, 3); }
}
}
