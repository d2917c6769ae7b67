// Simulation 6: generators that write C++ for themselves.  Histories of settings, copies and generation
// calls; the text goes to a simulated stream that may fail at any byte.  Complete texts are compiled by
// the driver (cppcheck.py), which then runs the scenario again with the resulting objects ("lib" first).
#include "scenario.h"
#include "hooks.h"
#include <dlfcn.h>
#include "CglRedSplit.hpp"
extern void note(const std::string &);
namespace {
struct Setting { const char *key; std::vector<double> v; };
const std::vector<std::string> kinds = {"KNAP", "CLIQ", "MIRO", "REDS", "SIMP", "ZERO", "LIFT", "ALLD", "DUPR"};
const std::vector<Setting> &table(const std::string &k) { // what each class writes
  static std::map<std::string, std::vector<Setting>> m = {
    {"KNAP", {{"maxIn", {1, 2, 3, 5, 10, 50, 77, 1000}}, {"expensive", {0, 1}}}},
    {"CLIQ", {{"rule", {0, 1, 2}}, {"sclLen", {0, 1, 2, 5, 12, 40}}, {"rclLen", {0, 1, 3, 6, 12, 33}}, {"sclRep", {0, 1}}, {"rclRep", {0, 1}}, {"star", {0, 1}}, {"row", {0, 1}}, {"minViol", {-1, 1e-6, 0.01, 0.125, 0.3}}}},
    {"MIRO", {{"maxAggr", {1, 2, 3, 6}}, {"mult", {0, 1}}, {"crit", {1, 2, 3}}, {"preproc", {-1, 0, 1}}}},
    {"REDS", {{"limit", {1, 2, 5, 50, 300}}, {"away", {0.05, 0.01, 0.2}}, {"lub", {1000, 2, 50}}, {"EPS", {1e-7, 1e-6, 1e-8}}, {"epsCoeff", {1e-8, 1e-6}}, {"EPS_COEFF_LUB", {1e-13, 1e-12}}, {"EPS_RELAX", {1e-8, 1e-7, 0}}, {"normZero", {1e-5, 1e-3}}, {"minReduc", {0.05, 0.01, 0.3}}, {"maxTab", {1e7, 11, 100}}}},
    {"SIMP", {}}, {"ZERO", {{"flags", {0, 1}}, {"sparse", {0, 3, 8000}}, {"pairs", {-1, 1, 6}}, {"fracs", {-1, 2, 4}}}},
    {"LIFT", {{"beta", {-1, 1}}}}, {"ALLD", {{"maxLook", {1, 2, 4, 9}}, {"log", {0, 1, 2}}}},
    {"DUPR", {{"maxRhs", {1, 2, 5}}, {"maxDom", {2, 1000, 77}}, {"mode", {1, 2, 3, 8}}}}};
  return m[k];
}
void put(CglCutGenerator *g, const GenCfg &c, const std::string &key, double x) {
  LibCall L; if (c.kind == "REDS") { auto *o = static_cast<CglRedSplit *>(g); if (key == "EPS") { o->setEPS(x); return; } if (key == "EPS_COEFF_LUB") { o->setEPS_COEFF_LUB(x); return; } if (key == "EPS_RELAX") { o->setEPS_RELAX(x); return; } }
  applySetting(g, c, key, x);
}
std::string emit(CglCutGenerator *g, const std::string &path, long failAt, bool unbuffered, std::string *name = nullptr) {
  seam::SimFile &f = seam::file(path); f = seam::SimFile(); f.failWriteAt = failAt; FILE *fp = fopen(path.c_str(), "w"); if (!fp) return ""; if (unbuffered) setvbuf(fp, nullptr, _IONBF, 0);
  std::string nm; { LibCall L; nm = g->generateCpp(fp); } fclose(fp); if (name) *name = nm; return f.data;
}
struct Obj { std::shared_ptr<CglCutGenerator> g; GenCfg c; };
std::shared_ptr<CglCutGenerator> own(CglCutGenerator *q) { return std::shared_ptr<CglCutGenerator>(q, [](CglCutGenerator *z) { LibCall L; delete z; }); }
struct Sim {
  const Scenario &s; Result &r; const Problem &p; std::shared_ptr<OsiClpSolverInterface> root, si; std::vector<Obj> o; void *lib = nullptr; bool clean = false;
  Sim(const Scenario &a, Result &b) : s(a), r(b), p(a.probs[0]) {}
  bool callable(const Obj &b) { if (b.c.kind != "REDS") return true; if (!clean || !si->isProvenOptimal()) return false; std::vector<double> x(si->getColSolution(), si->getColSolution() + p.n); si->enableFactorization(); bool same = true; for (int j = 0; j < p.n; j++) if (!(fabs(si->getColSolution()[j] - x[j]) <= 1e-7 * (1 + fabs(x[j])))) same = false; si->disableFactorization(); return same; }
  std::string cuts(CglCutGenerator *g, int z) { CoinThreadRandom rnd(12345); CglTreeInfo info; info.inTree = z & 1; info.options = (z & 2) ? 16 : 0; info.pass = (z >> 2) % 3; info.level = info.inTree ? 1 : 0; info.formulation_rows = (int)p.rows.size(); info.randomNumberGenerator = &rnd; OsiCuts cs; std::unique_ptr<OsiSolverInterface> c(si->clone()); { LibCall L; g->generateCuts(*c, cs, info); } if (cs.sizeRowCuts() + cs.sizeColCuts()) r.inc("nonempty-cut-lists"); return dumpCuts(cs); }
  void doEmit(const Op &op) {
    Obj &b = o[op.ai(0) % o.size()]; const std::string &k = b.c.kind; note(k + "| " + op.text()); std::string name, st0 = settings(b.g.get(), k);
    std::shared_ptr<CglCutGenerator> before; { LibCall L; before = own(b.g->clone()); }
    std::string full = emit(b.g.get(), "/sim/a", -1, op.ai(1) & 1, &name), again; r.inc("emissions");
    if (full.empty() || name.empty()) { r.fail("nothing written " + k, "generateCpp wrote nothing"); return; }
    if (op.ai(1) & 2) { long at = op.ai(2) % ((long)full.size() + 1); again = emit(b.g.get(), "/sim/b", at, op.ai(1) & 1); r.inc("fault-write-error"); if (full.compare(0, again.size(), again) != 0 || (long)again.size() > at) r.fail("partial text is not a prefix " + k, "got " + again); }
    else again = emit(b.g.get(), "/sim/b", -1, true);
    if (!(op.ai(1) & 2) && again != full) r.fail("text differs when written again " + k, full + "\nthen\n" + again);
    if (emit(before.get(), "/sim/c", -1, false) != full) r.fail("text of a copy differs " + k, full);
    std::string st1 = settings(b.g.get(), k); if (st1 != st0) r.fail("writing changed the settings " + k, st0 + " -> " + st1);
    if (callable(b)) { std::shared_ptr<CglCutGenerator> after; { LibCall L; after = own(b.g->clone()); } std::string a = cuts(before.get(), op.ai(3)), c = cuts(after.get(), op.ai(3)); r.inc("compared"); if (a != c) r.fail("writing changed the cuts " + k, a + "\nthen\n" + c); }
    Hash h; h.s(full); h.s(name); char id[32]; snprintf(id, sizeof id, "%016llx", (unsigned long long)h.h); r.states.insert(h.h);
    r.log("emit " + k + " " + id); r.log(full); r.scenarioNote += std::string("%% ") + k + " " + name + " " + id + "\n" + full;
    if (lib) for (int v = 0; v < 2; v++) {
      typedef CglCutGenerator *(*FN)(); FN f = (FN)dlsym(lib, (std::string("emitted_") + id + (v ? "_all" : "_min")).c_str()); if (!f) { r.inc("not-compiled"); continue; }
      std::shared_ptr<CglCutGenerator> e; { LibCall L; e = own(f()); } r.inc("rebuilt"); const char *w = v ? " (with default lines)" : "";
      std::string se = settings(e.get(), k); if (se != st0) r.fail("rebuilt generator has other settings " + k, st0 + " -> " + se + w + "\n" + full);
      std::string t = emit(e.get(), "/sim/d", -1, false); if (t != full) r.fail("rebuilt generator writes other settings " + k, full + "\n-> " + t + w);
      if (k != "ALLD" && callable(b)) { std::shared_ptr<CglCutGenerator> m; { LibCall L; m = own(b.g->clone()); std::unique_ptr<OsiSolverInterface> c1(root->clone()), c2(root->clone()); attach(m.get(), b.c, p, c1.get()); attach(e.get(), b.c, p, c2.get()); } std::string a = cuts(m.get(), op.ai(3)), c = cuts(e.get(), op.ai(3)); r.inc("rebuilt-cuts-compared"); if (a != c) r.fail("rebuilt generator makes other cuts " + k, a + "\n-> " + c + w + "\n" + full); }
    }
  }
  void run() {
    root.reset(makeSolver(p)); si.reset(dynamic_cast<OsiClpSolverInterface *>(root->clone())); si->initialSolve(); clean = si->isProvenOptimal();
    for (auto &c : s.gens) { Obj b; b.c = c; { LibCall L; b.g = own(buildGen(c, p)); } if (!b.g) continue; for (auto &e : c.p) put(b.g.get(), c, e.first, e.second); std::unique_ptr<OsiSolverInterface> cl(root->clone()); { LibCall L; attach(b.g.get(), c, p, cl.get()); } o.push_back(b); }
    if (o.empty()) return;
    for (auto &op : s.ops) {
      if (r.v.on) break; const std::string &nm = op.name; if (nm == "lib") { lib = dlopen(op.s.c_str(), RTLD_NOW | RTLD_LOCAL); if (!lib) { fprintf(stderr, "%s\n", dlerror()); _exit(79); } continue; }
      Obj &b = o[op.ai(0) % o.size()];
      if (nm == "set") { if (op.s.compare(0, 4, b.c.kind) == 0) { put(b.g.get(), b.c, op.s.substr(5), op.arg(1)); b.c.p[op.s.substr(5)] = op.arg(1); r.inc("settings-changed"); } }
      else if (nm == "gen") { if (callable(b)) { note(b.c.kind + "| " + op.text()); r.log(cuts(b.g.get(), op.ai(1))); r.inc("calls"); } }
      else if (nm == "refresh") { std::unique_ptr<OsiSolverInterface> cl(root->clone()); LibCall L; attach(b.g.get(), b.c, p, cl.get()); }
      else if (nm == "copy") { LibCall L; int h = op.ai(1) % 3; if (h == 0) b.g = own(b.g->clone()); else if (h == 1) b.g = own(copyConstruct(b.g.get(), b.c.kind)); else { auto n = own(buildGen(b.c, p)); if (assignTo(n.get(), b.g.get(), b.c.kind)) b.g = n; } r.inc("copies"); }
      else if (nm == "obj") { Rng q((uint64_t)op.arg(1) + 11); for (int j = 0; j < p.n; j++) si->setObjCoeff(j, p.lb[j] <= -INF || p.ub[j] >= INF ? fabs(p.obj[j]) * (p.lb[j] > -INF) : q.range(-7, 7)); si->resolve(); clean = si->isProvenOptimal(); }
      else if (nm == "bound") { int j = op.ai(1) % p.n; if (p.isInt[j] && si->getColUpper()[j] - si->getColLower()[j] > 0.5 && si->getColUpper()[j] < 1e6) { double m = floor((si->getColLower()[j] + si->getColUpper()[j]) / 2); if (op.ai(2)) si->setColLower(j, m + 1); else si->setColUpper(j, m); si->resolve(); clean = si->isProvenOptimal(); } }
      else if (nm == "emit") doEmit(op);
    }
  }
};
}
void runCpp(const Scenario &s, Result &r) { if (s.probs.empty()) return; Sim q(s, r); q.run(); }
Scenario genCpp(const std::string &prop, uint64_t seed) {
  Rng r(seed * 2654435761ull + 515); Scenario s; s.prop = prop; s.seed = seed; s.env["sim"] = 6;
  static const std::map<std::string, std::vector<std::string>> fit = {{"KNAP", {"knap", "eqk", "vub"}}, {"CLIQ", {"pack"}}, {"MIRO", {"mixed", "vub", "gen"}}, {"REDS", {"gen", "mixed", "zh"}}, {"SIMP", {"gen", "knap"}}, {"ZERO", {"zh", "gen"}}, {"LIFT", {"canon"}}, {"ALLD", {"alld"}}, {"DUPR", {"dup", "pack"}}};
  static const std::vector<std::string> draw = {"KNAP", "CLIQ", "CLIQ", "MIRO", "MIRO", "REDS", "REDS", "SIMP", "ZERO", "ZERO", "LIFT", "ALLD", "DUPR"};
  std::string k = r.pick(draw); Problem p; for (int t = 0; t < 30; t++) { p = randomProblem(r, r.pick(fit.at(k))); if (suits(k, p) && (!p.rows.empty() || k == "ALLD")) break; }
  if (!suits(k, p)) { p = randomProblem(r, "gen"); k = "SIMP"; } s.probs.push_back(p);
  int ng = r.range(1, 2), dens = r.below(4); for (int i = 0; i < ng; i++) { GenCfg c; c.kind = k; for (auto &e : table(k)) if (r.chance(dens, 5)) c.p[e.key] = r.pick(e.v); if (r.chance(1, 3)) c.p["aggr"] = r.pick(std::vector<double>{0, 50, 100, 7}); s.gens.push_back(c); }
  int len = r.range(3, 12);
  for (int i = 0; i < len; i++) { Op o; double g = r.below(ng); switch (r.below(8)) {
    case 0: case 1: { auto &t = table(k); o.name = "set"; if (t.empty() || r.chance(1, 5)) { o.s = k + ".aggr"; o.a = {g, (double)r.pick(std::vector<int>{0, 50, 100, 3})}; } else { auto &e = r.pick(t); o.s = k + "." + e.key; o.a = {g, r.pick(e.v)}; } break; }
    case 2: o.name = "gen"; o.a = {g, (double)r.below(12)}; break; case 3: o.name = "copy"; o.a = {g, (double)r.below(3)}; break; case 4: o.name = "obj"; o.a = {g, (double)r.below(10000)}; break;
    case 5: o.name = r.chance(1, 2) ? "refresh" : "bound"; o.a = {g, (double)r.below(10), (double)r.below(2)}; break;
    default: o.name = "emit"; o.a = {g, (double)r.below(4), (double)r.below(3000), (double)r.below(12)}; } s.ops.push_back(o); }
  Op o; o.name = "emit"; o.a = {0, 0, 0, (double)r.below(12)}; s.ops.push_back(o); return s;
}
