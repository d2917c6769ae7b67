#include "gens.h"
#include "hooks.h"
#include "CglKnapsackCover.hpp"
#include "CglClique.hpp"
#include "CglOddHole.hpp"
#include "CglMixedIntegerRounding.hpp"
#include "CglRedSplit.hpp"
#include "CglSimpleRounding.hpp"
#include "CglZeroHalf.hpp"
#include "CglLiftAndProject.hpp"
#include "CglAllDifferent.hpp"
#include "CglDuplicateRow.hpp"
#include "CglStored.hpp"

struct InLib { InLib() { seam::inLib++; } ~InLib() { seam::inLib--; } };

std::string GenCfg::text() const {
  std::string o = kind;
  for (auto &e : p) o += " " + e.first + "=" + num(e.second);
  for (auto &e : v) { o += " " + e.first + "@"; for (size_t i = 0; i < e.second.size(); i++) o += (i ? "," : "") + std::to_string(e.second[i]); }
  return o;
}
GenCfg GenCfg::parse(std::istringstream &is) {
  GenCfg c; is >> c.kind; std::string t;
  while (is >> t) {
    size_t e = t.find('='), a = t.find('@');
    if (e != std::string::npos) c.p[t.substr(0, e)] = strtod(t.c_str() + e + 1, nullptr);
    else if (a != std::string::npos) {
      std::vector<int> l; std::stringstream ss(t.substr(a + 1)); std::string q;
      while (std::getline(ss, q, ',')) if (!q.empty()) l.push_back(atoi(q.c_str()));
      c.v[t.substr(0, a)] = l;
    }
  }
  return c;
}
const std::vector<std::string> &allKinds() {
  static const std::vector<std::string> k = {"KNAP", "CLIQ", "ODDH", "MIRO", "REDS", "SIMP", "ZERO", "LIFT", "ALLD", "STOR", "DUPR"};
  return k;
}
static bool cliqueRow(const Problem &p, const Row &r) {
  if (r.hi != 1 || r.idx.empty() || (r.lo > -INF && r.lo != 1 && r.lo > 0)) return false;
  for (size_t k = 0; k < r.idx.size(); k++) if (r.val[k] != 1 || !p.binary(r.idx[k])) return false;
  return true;
}
static bool purePacking(const Problem &p) {
  if (p.rows.empty()) return false;
  for (auto &r : p.rows) if (!cliqueRow(p, r)) return false;
  for (int j = 0; j < p.n; j++) if (!p.binary(j)) return false;
  return true;
}
bool suits(const std::string &k, const Problem &p) {
  if (k == "LIFT") return p.family == "canon";
  if (k == "ALLD") return !p.alldiff.empty();
  if (k == "STOR") return true;
  return !p.rows.empty();
}
static int pickI(Rng &r, std::initializer_list<int> l) { return *(l.begin() + r.below((int)l.size())); }
static double pickD(Rng &r, std::initializer_list<double> l) { return *(l.begin() + r.below((int)l.size())); }
struct SettingGen { const char *key; std::function<double(Rng &)> f; };
static const std::vector<SettingGen> &settingGens(const std::string &k) {
  static std::map<std::string, std::vector<SettingGen>> m;
  if (m.empty()) {
    m["KNAP"] = {{"maxIn", [](Rng &r) { return (double)pickI(r, {2, 3, 4, 6, 50, 50}); }}, {"expensive", [](Rng &r) { return (double)r.below(2); }}};
    m["CLIQ"] = {{"rule", [](Rng &r) { return (double)r.below(3); }}, {"sclLen", [](Rng &r) { return (double)pickI(r, {0, 1, 3, 12}); }},
                 {"rclLen", [](Rng &r) { return (double)pickI(r, {0, 1, 3, 12}); }}, {"star", [](Rng &r) { return (double)r.below(2); }},
                 {"row", [](Rng &r) { return (double)r.below(2); }}, {"minViol", [](Rng &r) { return pickD(r, {-1.0, 1e-6, 0.01, 0.125, 0.3}); }},
                 {"sclRep", [](Rng &r) { return r.chance(1, 8) ? 1.0 : 0.0; }}, {"rclRep", [](Rng &r) { return r.chance(1, 8) ? 1.0 : 0.0; }},
                 {"maxNum", [](Rng &r) { return (double)pickI(r, {2, 4, 5000}); }}};
    m["ODDH"] = {{"minViol", [](Rng &r) { return pickD(r, {0.001, 0.0001, 0.1, 0.25, 0.4}); }}, {"minPer", [](Rng &r) { return pickD(r, {0.0003, 0.00001, 0.05}); }},
                 {"maxEnt", [](Rng &r) { return (double)pickI(r, {3, 4, 5, 100}); }}};
    m["MIRO"] = {{"maxAggr", [](Rng &r) { return (double)r.range(1, 4); }}, {"mult", [](Rng &r) { return (double)r.below(2); }},
                 {"crit", [](Rng &r) { return (double)r.range(1, 3); }}, {"preproc", [](Rng &r) { return (double)r.range(-1, 1); }}};
    m["REDS"] = {{"limit", [](Rng &r) { return (double)pickI(r, {1, 2, 3, 5, 50}); }}, {"away", [](Rng &r) { return pickD(r, {0.05, 0.01, 0.2}); }},
                 {"maxTab", [](Rng &r) { return pickD(r, {1e7, 1e7, 11, 30, 100}); }}, {"lub", [](Rng &r) { return pickD(r, {1000, 1000, 2, 50}); }},
                 {"minReduc", [](Rng &r) { return pickD(r, {0.05, 0.01, 0.3}); }}, {"normZero", [](Rng &r) { return pickD(r, {1e-5, 1e-3}); }},
                 {"cg2", [](Rng &r) { return (double)r.below(2); }}, {"intSlacks", [](Rng &r) { return (double)r.below(2); }},
                 {"minViol", [](Rng &r) { return pickD(r, {1e-7, 0.01, 0.05}); }}, {"relaxRel", [](Rng &r) { return pickD(r, {0, 1e-8}); }},
                 {"epsCoeff", [](Rng &r) { return pickD(r, {1e-8, 1e-6}); }},
                 {"maxDyn", [](Rng &r) { return pickD(r, {1e8, 2, 5, 1.25, 30}); }}, {"maxDynLub", [](Rng &r) { return pickD(r, {1e13, 3, 6, 40}); }}, {"relaxAbs", [](Rng &r) { return pickD(r, {1e-8, 1e-7}); }}, {"elim", [](Rng &r) { return pickD(r, {1e-12, 1e-10}); }}, {"eps", [](Rng &r) { return pickD(r, {1e-7, 1e-6}); }}};
    m["ZERO"] = {{"flags", [](Rng &r) { return (double)r.below(2); }}, {"sparse", [](Rng &r) { return (double)pickI(r, {0, 3, 8000}); }},
                 {"pairs", [](Rng &r) { return (double)pickI(r, {-1, -1, 1, 6}); }}, {"fracs", [](Rng &r) { return (double)pickI(r, {-1, -1, 2, 4}); }}};
    m["LIFT"] = {{"beta", [](Rng &r) { return r.below(2) ? 1.0 : -1.0; }}};
    m["ALLD"] = {{"maxLook", [](Rng &r) { return (double)pickI(r, {2, 2, 1, 4}); }}, {"log", [](Rng &r) { return (double)r.below(3); }}};
    m["DUPR"] = {{"maxRhs", [](Rng &r) { return (double)pickI(r, {1, 2, 5}); }}, {"maxDom", [](Rng &r) { return (double)pickI(r, {2, 1000}); }}};
    m["STOR"] = {{"viol", [](Rng &r) { return pickD(r, {1e-5, 0, 0.1, 0.5, 2}); }}};
    for (auto &e : m) {
      e.second.push_back({"aggr", [](Rng &r) { return (double)pickI(r, {0, 50, 100}); }});
      e.second.push_back({"canGlobal", [](Rng &r) { return (double)r.below(2); }});
      e.second.push_back({"maxSecs", [](Rng &r) { return pickD(r, {0, 0, 1000}); }});
    }
  }
  return m[k];
}
bool randomSetting(Rng &r, const std::string &kind, const Problem &, std::string &key, double &val) {
  if (kind == "KNAP" && r.chance(1, 4)) { key = "rowsN"; val = r.below(3); return true; }
  auto &s = settingGens(kind); if (s.empty()) return false;
  auto &g = s[r.below((int)s.size())]; key = g.key; val = g.f(r); return true;
}
GenCfg randomCfg(Rng &r, const std::string &kind, const Problem &p) {
  GenCfg c; c.kind = kind;
  int dens = r.below(4);
  for (auto &s : settingGens(kind)) if (dens && r.chance(dens, 5)) c.p[s.key] = s.f(r);
  int m = (int)p.rows.size();
  auto subset = [&](int num, int den) { std::vector<int> v; for (int i = 0; i < m; i++) if (r.chance(num, den)) v.push_back(i); return v; };
  if (kind == "KNAP") {
    if (r.chance(1, 5)) { c.v["rows"] = subset(2, 3); if (r.chance(1, 5)) { auto &l = c.v["rows"]; l.insert(l.begin() + r.below((int)l.size() + 1), r.chance(1, 2) ? -r.range(1, 3) : m + r.below(3)); } }
    if (r.chance(1, 3)) c.p["cliques"] = r.range(1, 2);
  } else if (kind == "CLIQ") {
    c.p["justOrig"] = r.chance(1, 3);
    if (purePacking(p) && r.chance(1, 2)) c.p["packing"] = 1;
  } else if (kind == "ODDH") {
    int k = r.below(4);
    if (k == 1) c.p["rowList"] = 1;
    else if (k == 2) { c.v["rows"] = subset(3, 4); }
    if (r.chance(1, 6)) { // extra cliques (taken from clique rows so that they are true)
      for (int i = 0; i < m; i++) if (cliqueRow(p, p.rows[i]) && r.chance(1, 2)) { auto &s = c.v["cliqueRows"]; s.push_back(i); }
    }
  } else if (kind == "MIRO") { if (r.chance(1, 4)) c.p["ctor"] = 1;
  } else if (kind == "ZERO") {
    // flag 1 asks for global cuts
  } else if (kind == "DUPR") c.p["mode"] = 8;
  else if (kind == "STOR") {
    c.v["rows"] = subset(2, 3);
    c.p["glob"] = r.below(2);
    if (r.chance(1, 3)) c.p["looseSum"] = 1;
  }
  return c;
}
CglCutGenerator *construct(const GenCfg &c) {
  InLib L; const std::string &k = c.kind;
  if (k == "KNAP") return new CglKnapsackCover();
  if (k == "CLIQ") return new CglClique(c.get("packing") != 0, c.get("justOrig") != 0);
  if (k == "ODDH") return new CglOddHole();
  if (k == "MIRO") {
    if (c.get("ctor")) return new CglMixedIntegerRounding((int)c.get("maxAggr", 1), c.get("mult", 1) != 0, (int)c.get("crit", 1), (int)c.get("preproc", -1));
    return new CglMixedIntegerRounding();
  }
  if (k == "REDS") return new CglRedSplit();
  if (k == "SIMP") return new CglSimpleRounding();
  if (k == "ZERO") return new CglZeroHalf();
  if (k == "LIFT") return new CglLiftAndProject();
  if (k == "DUPR") return new CglDuplicateRow();
  if (k == "STOR") return new CglStored();
  return nullptr; // ALLD is built in configure-time from the model
}
static CglCutGenerator *constructAlld(const Problem &p) {
  InLib L;
  std::vector<int> st(1, 0), w;
  for (auto &s : p.alldiff) { for (int j : s) w.push_back(j); st.push_back((int)w.size()); }
  return new CglAllDifferent((int)p.alldiff.size(), st.data(), w.data());
}
void applySetting(CglCutGenerator *g, const GenCfg &c, const std::string &key, double x) {
  InLib L; const std::string &k = c.kind; int i = (int)x;
  if (key == "aggr") { g->setAggressiveness(i); return; }
  if (key == "canGlobal") { g->setGlobalCuts(i != 0); return; }
  if (key == "maxSecs") { g->setMaxSeconds(x); return; }
  if (k == "KNAP") {
    auto *o = static_cast<CglKnapsackCover *>(g);
    if (key == "rowsN") { std::vector<int> l; for (int q = 0; q < i; q++) l.push_back(q); l.push_back(0); o->setTestedRowIndices(i, l.data()); }
    else if (key == "maxIn") o->setMaxInKnapsack(i);
    else if (key == "expensive") { if (i) o->switchOnExpensive(); else o->switchOffExpensive(); }
  } else if (k == "CLIQ") {
    auto *o = static_cast<CglClique *>(g);
    if (key == "rule") o->setStarCliqueNextNodeMethod((CglClique::scl_next_node_method)i);
    else if (key == "sclLen") o->setStarCliqueCandidateLengthThreshold(i);
    else if (key == "rclLen") o->setRowCliqueCandidateLengthThreshold(i);
    else if (key == "star") o->setDoStarClique(i != 0);
    else if (key == "row") o->setDoRowClique(i != 0);
    else if (key == "minViol") o->setMinViolation(x);
    else if (key == "sclRep") o->setStarCliqueReport(i != 0);
    else if (key == "rclRep") o->setRowCliqueReport(i != 0);
    else if (key == "maxNum") o->setMaxNumber(i);
  } else if (k == "ODDH") {
    auto *o = static_cast<CglOddHole *>(g);
    if (key == "minViol") o->setMinimumViolation(x);
    else if (key == "minPer") o->setMinimumViolationPer(x);
    else if (key == "maxEnt") o->setMaximumEntries(i);
  } else if (k == "MIRO") {
    auto *o = static_cast<CglMixedIntegerRounding *>(g);
    if (key == "maxAggr") o->setMAXAGGR_(i);
    else if (key == "mult") o->setMULTIPLY_(i != 0);
    else if (key == "crit") o->setCRITERION_(i);
    else if (key == "preproc") o->setDoPreproc(i);
  } else if (k == "REDS") {
    auto *o = static_cast<CglRedSplit *>(g);
    if (key == "limit") o->setLimit(i);
    else if (key == "away") o->setAway(x);
    else if (key == "maxTab") o->setMaxTab(x);
    else if (key == "lub") o->setLUB(x);
    else if (key == "minReduc") o->setMinReduc(x);
    else if (key == "normZero") o->setNormIsZero(x);
    else if (key == "epsCoeff") o->setEPS_COEFF(x);
    else {
      CglRedSplitParam q = o->getParam();
      if (key == "cg2") q.setUSE_CG2(i);
      else if (key == "intSlacks") q.setUSE_INTSLACKS(i);
      else if (key == "minViol") q.setMINVIOL(x);
      else if (key == "relaxRel") q.setEPS_RELAX_REL(x);
      else if (key == "maxDyn") q.setMAXDYN(x);
      else if (key == "maxDynLub") q.setMAXDYN_LUB(x);
      else if (key == "relaxAbs") q.setEPS_RELAX_ABS(x);
      else if (key == "elim") q.setEPS_ELIM(x);
      else if (key == "eps") q.setEPS(x);
      o->setParam(q);
    }
  } else if (k == "ZERO") {
    auto *o = static_cast<CglZeroHalf *>(g);
    if (key == "flags") o->setFlags(i);
    else if (key == "sparse") o->setSepGraphSparseThreshold(i);
    else if (key == "pairs") o->setRowMaxPairCount(i);
    else if (key == "fracs") o->setRowMaxFractionalCount(i);
  } else if (k == "LIFT") { if (key == "beta") static_cast<CglLiftAndProject *>(g)->setBeta(i); }
  else if (k == "ALLD") {
    auto *o = static_cast<CglAllDifferent *>(g);
    if (key == "maxLook") o->setMaxLook(i);
    else if (key == "log") o->setLogLevel(i);
  } else if (k == "DUPR") {
    auto *o = static_cast<CglDuplicateRow *>(g);
    if (key == "maxRhs") o->setMaximumRhs(i);
    else if (key == "maxDom") o->setMaximumDominated(i);
    else if (key == "mode") o->setMode(i);
  } else if (k == "STOR") { if (key == "viol") static_cast<CglStored *>(g)->setRequiredViolation(x); }
}
CglCutGenerator *buildGen(const GenCfg &c, const Problem &p) {
  return c.kind == "ALLD" ? constructAlld(p) : construct(c);
}
void configure(CglCutGenerator *g, const GenCfg &c, const Problem &p) {
  for (auto &e : c.p) applySetting(g, c, e.first, e.second);
  InLib L;
  if (c.kind == "KNAP") {
    auto i = c.v.find("rows");
    if (i != c.v.end()) static_cast<CglKnapsackCover *>(g)->setTestedRowIndices((int)i->second.size(), i->second.data());
  } else if (c.kind == "ODDH") {
    auto *o = static_cast<CglOddHole *>(g);
    auto i = c.v.find("rows");
    if (i != c.v.end()) {
      std::vector<int> w(p.rows.size() + 1, 0);
      for (int q : i->second) if (q < (int)p.rows.size()) w[q] = 1;
      o->createRowList((int)p.rows.size(), w.data());
    }
    auto j = c.v.find("cliqueRows");
    if (j != c.v.end()) {
      std::vector<int> st(1, 0), mem;
      for (int q : j->second) if (q < (int)p.rows.size()) { for (int t : p.rows[q].idx) mem.push_back(t); st.push_back((int)mem.size()); }
      mem.push_back(0);
      o->createCliqueList((int)st.size() - 1, st.data(), mem.data());
    }
  } else if (c.kind == "STOR") {
    auto *o = static_cast<CglStored *>(g);
    auto i = c.v.find("rows");
    bool glob = c.get("glob") != 0;
    if (i != c.v.end()) for (int q : i->second) if (q < (int)p.rows.size() && !p.rows[q].idx.empty()) {
      const Row &r = p.rows[q];
      OsiRowCut rc; rc.setRow((int)r.idx.size(), r.idx.data(), r.val.data()); rc.setLb(osiInf(r.lo)); rc.setUb(osiInf(r.hi));
      if (glob) rc.setGloballyValid();
      o->addCut(rc);
    }
    if (c.get("looseSum") && p.rows.size() > 1) {
      std::map<int, double> a; double b = 0; bool ok = true;
      for (int q = 0; q < 2; q++) { const Row &r = p.rows[q]; if (r.hi >= INF) ok = false; b += r.hi; for (size_t k = 0; k < r.idx.size(); k++) a[r.idx[k]] += r.val[k]; }
      if (ok) { std::vector<int> ix; std::vector<double> vl; for (auto &e : a) if (e.second != 0) { ix.push_back(e.first); vl.push_back(e.second); }
        if (!ix.empty()) o->addCut(-COIN_DBL_MAX, b, (int)ix.size(), ix.data(), vl.data()); }
    }
  }
}
void attach(CglCutGenerator *g, const GenCfg &c, const Problem &, OsiSolverInterface *root) {
  InLib L;
  g->refreshSolver(root);
  if (c.kind == "KNAP" && c.get("cliques")) static_cast<CglKnapsackCover *>(g)->createCliques(*root, 2, 100, c.get("cliques") > 1);
  if (c.kind == "ODDH" && c.get("rowList")) static_cast<CglOddHole *>(g)->createRowList(*root);
}
bool needsAttachAfterCopy(const std::string &k) { (void)k; return false; }
#define KINDS(X) X("KNAP", CglKnapsackCover) X("CLIQ", CglClique) X("ODDH", CglOddHole) X("MIRO", CglMixedIntegerRounding) X("REDS", CglRedSplit) \
  X("SIMP", CglSimpleRounding) X("ZERO", CglZeroHalf) X("LIFT", CglLiftAndProject) X("ALLD", CglAllDifferent) X("DUPR", CglDuplicateRow) X("STOR", CglStored)
CglCutGenerator *copyConstruct(const CglCutGenerator *g, const std::string &kind) {
  InLib L;
#define X(s, T) if (kind == s) return new T(*static_cast<const T *>(g));
  KINDS(X)
#undef X
  return nullptr;
}
// CglClique declares its assignment operator private (not copy-assignable by design).
bool assignTo(CglCutGenerator *d, const CglCutGenerator *s, const std::string &kind) {
  InLib L;
#define A(n, T) if (kind == n) { *static_cast<T *>(d) = *static_cast<const T *>(s); return true; }
  A("KNAP", CglKnapsackCover) A("ODDH", CglOddHole) A("MIRO", CglMixedIntegerRounding) A("REDS", CglRedSplit)
  A("SIMP", CglSimpleRounding) A("ZERO", CglZeroHalf) A("LIFT", CglLiftAndProject) A("ALLD", CglAllDifferent) A("DUPR", CglDuplicateRow) A("STOR", CglStored)
#undef A
  return false;
}
std::string settings(const CglCutGenerator *g, const std::string &k) {
  std::string o = fmt("aggr=%d glob=%d secs=%.17g rowsInTree=%d basis=%d orig=%d len=%d", g->getAggressiveness(), g->canDoGlobalCuts(), g->getMaxSeconds(), g->mayGenerateRowCutsInTree(), g->needsOptimalBasis(), g->needsOriginalModel(), g->maximumLengthOfCutInTree());
  if (k == "KNAP") o += fmt(" maxIn=%d", static_cast<const CglKnapsackCover *>(g)->getMaxInKnapsack());
  else if (k == "CLIQ") o += fmt(" minViol=%.17g", static_cast<const CglClique *>(g)->getMinViolation());
  else if (k == "ODDH") { auto *q = static_cast<const CglOddHole *>(g); o += fmt(" %.17g %.17g %d possible=%d", q->getMinimumViolation(), q->getMinimumViolationPer(), q->getMaximumEntries(), const_cast<CglOddHole *>(q)->numberPossible()); }
  else if (k == "MIRO") { auto *q = static_cast<const CglMixedIntegerRounding *>(g); o += fmt(" %d %d %d %d", q->getMAXAGGR_(), q->getMULTIPLY_(), q->getCRITERION_(), q->getDoPreproc()); }
  else if (k == "REDS") {
    auto *q = static_cast<const CglRedSplit *>(g); CglRedSplitParam a = q->getParam();
    o += fmt(" %d %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g", q->getLimit(), q->getAway(), q->getLUB(), q->getEPS(), q->getEPS_COEFF(), q->getEPS_COEFF_LUB(), q->getEPS_RELAX(), q->getNormIsZero(), q->getMinReduc(), q->getMaxTab());
    o += fmt(" %.17g %.17g %.17g %.17g %.17g %.17g %d %d %.17g", a.getEPS_ELIM(), a.getEPS_RELAX_ABS(), a.getEPS_RELAX_REL(), a.getMAXDYN(), a.getMAXDYN_LUB(), a.getMINVIOL(), a.getUSE_INTSLACKS(), a.getUSE_CG2(), a.getINFINIT());
  } else if (k == "ZERO") { auto *q = static_cast<const CglZeroHalf *>(g); o += fmt(" %d %d %d %d", q->getFlags(), q->getSepGraphSparseThreshold(), q->getRowMaxPairCount(), q->getRowMaxFractionalCount()); }
  else if (k == "LIFT") o += fmt(" beta=%.17g", static_cast<const CglLiftAndProject *>(g)->getBeta());
  else if (k == "ALLD") { auto *q = static_cast<const CglAllDifferent *>(g); o += fmt(" %d %d", q->getLogLevel(), q->getMaxLook()); }
  else if (k == "DUPR") { auto *q = static_cast<const CglDuplicateRow *>(g); o += fmt(" %d %d %d %d", q->logLevel(), q->maximumRhs(), q->maximumDominated(), q->mode()); }
  else if (k == "STOR") { auto *q = static_cast<const CglStored *>(g); o += fmt(" viol=%.17g n=%d", q->getRequiredViolation(), q->sizeRowCuts()); }
  return o;
}
