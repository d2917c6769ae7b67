// Simulation 9: settings.  A plain dictionary is the reference model of every object's settings; after
// every operation (setter with a good or a bad value, generation call, deadline, copy, assignment,
// refresh, C++ emission) every getter of every object is compared with it.
#include "scenario.h"
#include "hooks.h"
#include "CglKnapsackCover.hpp"
#include "CglClique.hpp"
#include "CglOddHole.hpp"
#include "CglMixedIntegerRounding.hpp"
#include "CglRedSplit.hpp"
#include "CglSimpleRounding.hpp"
#include "CglZeroHalf.hpp"
#include "CglLiftAndProject.hpp"
#include "CglAllDifferent.hpp"
#include "CglDuplicateRow.hpp"
#include "CglStored.hpp"
extern void note(const std::string &);
namespace {
typedef CglCutGenerator G;
struct St { const char *key; std::function<void(G *, double)> set; std::function<double(const G *)> get; std::function<bool(double)> ok; std::vector<double> v; };
typedef CglRedSplitParam RP;
struct Ps { const char *key; std::function<void(RP &, double)> set; std::function<double(const RP &)> get; std::function<bool(double)> ok; std::vector<double> v; };
bool any(double) { return true; }
const std::vector<Ps> &ptable() {
  static const std::vector<double> small = {1e-9, 1e-7, 1e-5, 0.01, 0.1, 0.100001, 0.5, 0, -1e-9, -1, 2};
  static std::vector<Ps> t = {
#define P(n, cond, ...) {#n, [](RP &p, double x) { p.set##n(x); }, [](const RP &p) { return (double)p.get##n(); }, [](double x) { return cond; }, __VA_ARGS__}
    P(INFINIT, x > 0, {1e50, 1e30, 1e20, 0, -1}), P(EPS, x >= 0, {1e-7, 1e-6, 1e-8, 0, -1e-9}), P(EPS_COEFF, x >= 0, {1e-8, 1e-6, 1e-5, 0, -1e-9}), P(MAX_SUPPORT, x > 0, {1, 2, 5, 50, 300, 0, -3}),
    P(Away, x > 0 && x <= 0.5, {0.05, 0.01, 0.2, 0.5, 0.500001, 0, -0.1, 0.9}), P(LUB, x > 0, {1000, 2, 50, 0, -4}), P(EPS_ELIM, x >= 0, {1e-12, 1e-10, 0, -1e-12}), P(EPS_RELAX_ABS, x >= 0, {1e-8, 1e-6, 0, -1e-9}),
    P(EPS_RELAX_REL, x >= 0, {0, 1e-8, 1e-6, -1e-9}), P(MAXDYN, x > 1, {1e8, 1e6, 20, 1.5, 1, 0, -5}), P(MAXDYN_LUB, x > 1, {1e13, 1e10, 30, 1.25, 1, 0.5, -5}), P(EPS_COEFF_LUB, x > 0 && x <= 0.1, {1e-13, 1e-12, 0.1, 0.11, 0, -1}),
    P(MINVIOL, x > 0 && x <= 0.1, small), P(USE_INTSLACKS, true, {0, 1}), P(USE_CG2, true, {0, 1}), P(NormIsZero, x > 0 && x <= 1, {1e-5, 1e-3, 1, 1.0001, 0, -1}), P(MinReduc, x > 0 && x <= 1, {0.05, 0.01, 0.3, 1, 1.01, 0, -0.2}), P(MaxTab, x > 10, {1e7, 11, 100, 10, 10.5, 0, -7})};
#undef P
  return t;
}
const std::vector<St> &table(const std::string &k) {
  static std::map<std::string, std::vector<St>> m;
  if (m.empty()) {
#define S(C, key, setx, getx, okx, ...) {key, [](G *g, double x) { auto *o = static_cast<C *>(g); int i = (int)x; (void)i; (void)o; setx; }, [](const G *g) { auto *o = static_cast<const C *>(g); return (double)(getx); }, [](double x) { return okx; }, __VA_ARGS__}
    m["KNAP"] = {S(CglKnapsackCover, "maxIn", o->setMaxInKnapsack(i), o->getMaxInKnapsack(), x > 0, {1, 2, 3, 10, 50, 1000, 0, -2})};
    m["CLIQ"] = {S(CglClique, "minViol", o->setMinViolation(x), o->getMinViolation(), true, {-1, 1e-6, 0.01, 0.125, 0.3})};
    m["ODDH"] = {S(CglOddHole, "minViol", o->setMinimumViolation(x), o->getMinimumViolation(), x > 1e-8 && x <= 0.5, {0.001, 0.1, 0.25, 0.5, 0.51, 1e-8, 0, -1}), S(CglOddHole, "minPer", o->setMinimumViolationPer(x), o->getMinimumViolationPer(), x > 1e-8 && x <= 0.25, {0.0003, 0.05, 0.25, 0.26, 1e-8, 0, -1}),
                 S(CglOddHole, "maxEnt", o->setMaximumEntries(i), o->getMaximumEntries(), x > 2, {3, 4, 5, 100, 200, 2, 0, -1})};
    m["MIRO"] = {S(CglMixedIntegerRounding, "maxAggr", o->setMAXAGGR_(i), o->getMAXAGGR_(), x > 0, {1, 2, 3, 6, 0, -1}), S(CglMixedIntegerRounding, "mult", o->setMULTIPLY_(i != 0), o->getMULTIPLY_(), true, {0, 1}),
                 S(CglMixedIntegerRounding, "crit", o->setCRITERION_(i), o->getCRITERION_(), x >= 1 && x <= 3, {1, 2, 3, 0, 4, -1}), S(CglMixedIntegerRounding, "preproc", o->setDoPreproc(i), o->getDoPreproc(), true, {0, 1})};
    m["REDS"] = {
#define R(n, cond, ...) S(CglRedSplit, #n, o->set##n(x), o->get##n(), cond, __VA_ARGS__)
      R(Limit, x > 0, {1, 2, 5, 50, 300, 0, -3}), R(Away, x > 0 && x <= 0.5, {0.05, 0.01, 0.2, 0.5, 0.51, 0, -1}), R(LUB, x > 0, {1000, 2, 50, 0, -1}), R(EPS, x > 0 && x <= 0.1, {1e-7, 1e-6, 0.1, 0.2, 0, -1}), R(EPS_COEFF, x > 0 && x <= 0.1, {1e-8, 1e-6, 0.2, 0, -1}),
      R(EPS_COEFF_LUB, x > 0 && x <= 0.1, {1e-13, 1e-12, 0.2, 0, -1}), R(EPS_RELAX, x > 0 && x <= 0.1, {1e-8, 1e-7, 0.2, 0, -1}), R(NormIsZero, x > 0 && x <= 1, {1e-5, 1e-3, 1, 1.5, 0}), R(MinReduc, x > 0 && x <= 1, {0.05, 0.01, 0.3, 1.5, 0}), R(MaxTab, x > 10, {1e7, 11, 100, 10, 3})};
#undef R
    for (auto &q : ptable()) { // through getParam / setParam
      const Ps *z = &q; m["REDS"].push_back({q.key, [z](G *g, double x) { auto *o = static_cast<CglRedSplit *>(g); RP p = o->getParam(); z->set(p, x); o->setParam(p); }, [z](const G *g) { return z->get(static_cast<const CglRedSplit *>(g)->getParam()); }, q.ok, q.v}); }
    m["SIMP"] = {};
    m["ZERO"] = {S(CglZeroHalf, "flags", o->setFlags(i), o->getFlags(), true, {0, 1}), S(CglZeroHalf, "sparse", o->setSepGraphSparseThreshold(i), o->getSepGraphSparseThreshold(), true, {0, 3, 2000, 8000}), S(CglZeroHalf, "pairs", o->setRowMaxPairCount(i), o->getRowMaxPairCount(), true, {-1, 1, 6, 40}), S(CglZeroHalf, "fracs", o->setRowMaxFractionalCount(i), o->getRowMaxFractionalCount(), true, {-1, 2, 4, 9})};
    m["LIFT"] = {S(CglLiftAndProject, "beta", o->setBeta(i), o->getBeta(), x == 1 || x == -1, {1, -1, 0, 2, -3})};
    m["ALLD"] = {S(CglAllDifferent, "maxLook", o->setMaxLook(i), o->getMaxLook(), true, {1, 2, 4, 9}), S(CglAllDifferent, "log", o->setLogLevel(i), o->getLogLevel(), true, {0, 1, 2})};
    m["DUPR"] = {S(CglDuplicateRow, "maxRhs", o->setMaximumRhs(i), o->maximumRhs(), true, {1, 2, 5}), S(CglDuplicateRow, "maxDom", o->setMaximumDominated(i), o->maximumDominated(), true, {2, 1000, 77}), S(CglDuplicateRow, "mode", o->setMode(i), o->mode(), true, {1, 2, 3, 8}), S(CglDuplicateRow, "log", o->setLogLevel(i), o->logLevel(), true, {0, 1})};
    m["STOR"] = {S(CglStored, "viol", o->setRequiredViolation(x), o->getRequiredViolation(), true, {1e-5, 0, 0.1, 0.5, 2})};
    for (auto &e : m) {
      e.second.push_back(S(G, "aggr", o->setAggressiveness(i), o->getAggressiveness(), true, {0, 50, 100, 7, -1}));
      e.second.push_back(S(G, "canGlobal", o->setGlobalCuts(i != 0), o->canDoGlobalCuts(), true, {0, 1}));
      e.second.push_back(S(G, "maxSecs", o->setMaxSeconds(x), o->getMaxSeconds(), true, {0, 0.5, 1000, 1e-4}));
    }
  }
  return m[k];
}
// settings that are two names of one value
std::string alias(const std::string &kind, const std::string &key) {
  if (kind != "REDS") return key; if (key == "Limit") return "MAX_SUPPORT"; if (key == "EPS_RELAX") return "EPS_RELAX_ABS"; return key;
}
struct Obj { std::string kind; std::shared_ptr<G> g; std::map<std::string, double> want; GenCfg c; };
std::shared_ptr<G> own(G *q) { return std::shared_ptr<G>(q, [](G *z) { LibCall L; delete z; }); }
struct Sim {
  const Scenario &s; Result &r; const Problem &p; std::shared_ptr<OsiClpSolverInterface> root, si; std::vector<Obj> o; std::vector<RP> ps; std::vector<std::map<std::string, double>> pw; bool clean = false;
  Sim(const Scenario &a, Result &b) : s(a), r(b), p(a.probs[0]) {}
  void adopt(Obj &b) { b.want.clear(); for (auto &t : table(b.kind)) { InLibRead(b, t); } }
  void InLibRead(Obj &b, const St &t) { b.want[alias(b.kind, t.key)] = t.get(b.g.get()); }
  bool same(double a, double b) { return a == b; }
  void checkAll(const std::string &what) {
    for (size_t q = 0; q < o.size() && !r.v.on; q++) { Obj &b = o[q]; std::string log;
      for (auto &t : table(b.kind)) { double w = b.want[alias(b.kind, t.key)], v = t.get(b.g.get()); r.inc("reads"); log += num(v) + " ";
        if (!same(v, w)) r.fail("setting differs " + b.kind + " " + t.key, fmt("object %zu after %s: reads %.17g, last accepted value is %.17g", q, what.c_str(), v, w)); }
      Hash h; h.s(b.kind); h.s(log); r.states.insert(h.h); r.log(log); }
    for (size_t q = 0; q < ps.size() && !r.v.on; q++) for (auto &t : ptable()) { double w = pw[q][t.key], v = t.get(ps[q]); if (!same(v, w)) r.fail(std::string("setting differs parameters ") + t.key, fmt("parameter object %zu after %s: reads %.17g, last accepted value is %.17g", q, what.c_str(), v, w)); }
  }
  bool callable(const Obj &b) { if (b.kind != "REDS") return true; if (!clean || !si->isProvenOptimal()) return false; std::vector<double> x(si->getColSolution(), si->getColSolution() + p.n); si->enableFactorization(); bool sm = true; for (int j = 0; j < p.n; j++) if (!(fabs(si->getColSolution()[j] - x[j]) <= 1e-7 * (1 + fabs(x[j])))) sm = false; si->disableFactorization(); return sm; }
  void gen(Obj &b, int z, double jump) {
    if (b.kind == "DUPR" && b.want["mode"] < 8 && b.want["mode"] > 3) return;
    CoinThreadRandom rnd(12345); CglTreeInfo info; info.inTree = z & 1; info.options = (z & 2) ? 16 : 0; info.pass = (z >> 2) % 3; info.level = info.inTree ? 1 : 0; info.formulation_rows = (int)p.rows.size(); info.randomNumberGenerator = &rnd; OsiCuts cs; std::unique_ptr<OsiSolverInterface> c(si->clone());
    if (jump > 0) { seam::jumps.push_back({seam::libPolls + z % 7, jump}); r.inc("fault-clock-jump"); }
    { LibCall L; b.g->generateCuts(*c, cs, info); } r.inc("calls"); if (cs.sizeRowCuts() + cs.sizeColCuts()) r.inc("nonempty-cut-lists"); }
  void run() {
    root.reset(makeSolver(p)); si.reset(dynamic_cast<OsiClpSolverInterface *>(root->clone())); si->initialSolve(); clean = si->isProvenOptimal();
    for (auto &c : s.gens) { Obj b; b.kind = c.kind; b.c = c; { LibCall L; b.g = own(buildGen(c, p)); } if (!b.g) continue; adopt(b); std::unique_ptr<OsiSolverInterface> cl(root->clone()); { LibCall L; attach(b.g.get(), c, p, cl.get()); } o.push_back(b); }
    if (o.empty()) return; for (int i = 0; i < 2; i++) { LibCall L; ps.emplace_back(); pw.emplace_back(); for (auto &t : ptable()) pw.back()[t.key] = t.get(ps.back()); }
    checkAll("construction");
    for (auto &op : s.ops) {
      if (r.v.on) break; const std::string &nm = op.name; size_t bi = op.ai(0) % o.size(); Obj &b = o[bi]; note(b.kind + "| " + op.text()); r.inc("ops");
      if (nm == "set") { auto &t = table(b.kind); auto &e = t[op.ai(1) % t.size()]; double x = e.v[op.ai(2) % e.v.size()]; bool ok = e.ok(x), threw = false; try { LibCall L; e.set(b.g.get(), x); } catch (CoinError &) { threw = true; }
        if (ok && threw) r.fail("good value refused " + b.kind + " " + e.key, num(x)); if (ok) { b.want[alias(b.kind, e.key)] = x; r.inc("settings-changed"); } else { r.inc("fault-bad-value"); } r.log(fmt("%s=%g%s", e.key, x, ok ? "" : " refused")); }
      else if (nm == "pset") { size_t q = op.ai(0) % ps.size(); auto &e = ptable()[op.ai(1) % ptable().size()]; double x = e.v[op.ai(2) % e.v.size()]; { LibCall L; e.set(ps[q], x); } if (e.ok(x)) pw[q][e.key] = x; else r.inc("fault-bad-value"); r.inc("settings-changed"); }
      else if (nm == "pcopy") { size_t q = op.ai(0) % ps.size(), z = op.ai(1) % ps.size(); LibCall L; if (op.ai(2)) { ps[q] = ps[z]; pw[q] = pw[z]; } else { RP t(ps[z]); ps[q] = t; pw[q] = pw[z]; } r.inc("copies"); }
      else if (nm == "pgive") { size_t q = op.ai(1) % ps.size(); if (b.kind == "REDS") { LibCall L; if (op.ai(2)) static_cast<CglRedSplit *>(b.g.get())->setParam(ps[q]); else { double a = b.want["aggr"], c = b.want["canGlobal"], m = b.want["maxSecs"]; b.g = own(new CglRedSplit(ps[q])); b.g->setAggressiveness((int)a); b.g->setGlobalCuts(c != 0); b.g->setMaxSeconds(m); } for (auto &e : pw[q]) b.want[alias("REDS", e.first)] = e.second; r.inc("parameter-sets-given"); } }
      else if (nm == "gen") { if (callable(b)) gen(b, op.ai(1), op.arg(2)); }
      else if (nm == "refresh") { std::unique_ptr<OsiSolverInterface> cl(root->clone()); LibCall L; attach(b.g.get(), b.c, p, cl.get()); r.inc("refreshes"); }
      else if (nm == "copy") { size_t q = op.ai(1) % o.size(); LibCall L; int h = op.ai(2) % 3; Obj &src = o[q];
        if (h == 2) { if (src.kind == b.kind && b.kind != "CLIQ" && assignTo(b.g.get(), src.g.get(), b.kind)) { b.want = src.want; r.inc("assignments"); } }
        else { std::shared_ptr<G> n = own(h ? copyConstruct(src.g.get(), src.kind) : src.g->clone()); Obj t = src; t.g = n; o[bi] = t; r.inc("copies"); } }
      else if (nm == "cpp") { seam::SimFile &f = seam::file("/sim/s"); f = seam::SimFile(); f.failWriteAt = op.ai(1) % 2 ? op.ai(2) : -1; FILE *fp = fopen("/sim/s", "w"); if (fp) { LibCall L; b.g->generateCpp(fp); } if (fp) fclose(fp); r.inc("emissions"); }
      else if (nm == "bound") { int j = op.ai(1) % p.n; if (p.isInt[j] && si->getColUpper()[j] - si->getColLower()[j] > 0.5 && si->getColUpper()[j] < 1e6) { double m = floor((si->getColLower()[j] + si->getColUpper()[j]) / 2); if (op.ai(2)) si->setColLower(j, m + 1); else si->setColUpper(j, m); si->resolve(); clean = si->isProvenOptimal(); } }
      else if (nm == "reset") { si.reset(dynamic_cast<OsiClpSolverInterface *>(root->clone())); si->initialSolve(); clean = si->isProvenOptimal(); r.inc("fault-worker-restart"); }
      checkAll(op.text());
    }
  }
};
}
void runSettings(const Scenario &s, Result &r) { if (s.probs.empty()) return; Sim q(s, r); q.run(); seam::clockReset(); }
Scenario genSettings(const std::string &prop, uint64_t seed) {
  Rng r(seed * 2654435761ull + 919); Scenario s; s.prop = prop; s.seed = seed; s.env["sim"] = 9;
  static const std::map<std::string, std::vector<std::string>> fit = {{"KNAP", {"knap", "eqk", "vub"}}, {"CLIQ", {"pack"}}, {"ODDH", {"pack", "cover"}}, {"MIRO", {"mixed", "vub", "gen"}}, {"REDS", {"gen", "mixed", "zh"}}, {"SIMP", {"gen", "knap"}}, {"ZERO", {"zh", "gen"}}, {"LIFT", {"canon"}}, {"ALLD", {"alld"}}, {"DUPR", {"dup", "pack"}}, {"STOR", {"knap", "gen"}}};
  static const std::vector<std::string> draw = {"KNAP", "CLIQ", "ODDH", "MIRO", "REDS", "REDS", "SIMP", "ZERO", "ZERO", "LIFT", "ALLD", "DUPR", "STOR"};
  std::string k = r.pick(draw); Problem p; for (int t = 0; t < 30; t++) { p = randomProblem(r, r.pick(fit.at(k))); if (suits(k, p) && (!p.rows.empty() || k == "ALLD")) break; }
  if (!suits(k, p)) { p = randomProblem(r, "gen"); k = "SIMP"; } s.probs.push_back(p);
  std::vector<std::string> kinds; for (auto &q : allKinds()) if (suits(q, p)) kinds.push_back(q);
  int ng = r.range(2, 4); for (int i = 0; i < ng; i++) { GenCfg c; c.kind = i < 2 || r.chance(1, 2) ? k : r.pick(kinds); s.gens.push_back(c); }
  bool faults = r.chance(3, 4); int len = r.range(5, 30);
  for (int i = 0; i < len; i++) { Op o; double g = r.below(ng); switch (r.below(faults ? 15 : 13)) {
    case 0: case 1: case 2: case 3: o.name = "set"; o.a = {g, (double)r.below(64), (double)r.below(64)}; break;
    case 4: case 5: o.name = "gen"; o.a = {g, (double)r.below(12), 0}; break; case 6: o.name = "copy"; o.a = {g, (double)r.below(ng), (double)r.below(3)}; break;
    case 7: o.name = r.chance(1, 2) ? "refresh" : "bound"; o.a = {g, (double)r.below(10), (double)r.below(2)}; break;
    case 8: o.name = "cpp"; o.a = {g, faults ? (double)r.below(2) : 0, (double)r.below(900)}; break;
    case 9: o.name = "pset"; o.a = {(double)r.below(2), (double)r.below(64), (double)r.below(64)}; break;
    case 10: o.name = "pset"; o.a = {(double)r.below(2), (double)r.below(64), (double)r.below(64)}; break;
    case 11: o.name = "pcopy"; o.a = {(double)r.below(2), (double)r.below(2), (double)r.below(2)}; break;
    case 12: o.name = "pgive"; o.a = {g, (double)r.below(2), (double)r.below(2)}; break;
    case 13: o.name = "gen"; o.a = {g, (double)r.below(40), 5000}; break; default: o.name = "reset"; o.a = {g}; } s.ops.push_back(o); }
  return s;
}
