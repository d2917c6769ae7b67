// Simulation 4: several stored-cut pools driven by one history of additions, copies, assignments,
// saved solutions and generation calls at reported points (optimal, stale, perturbed, arbitrary);
// refinement against a plain list.
#include "scenario.h"
#include "hooks.h"
#include "CglStored.hpp"
extern void note(const std::string &);

namespace {
struct MCut { double lb, ub; std::vector<int> ix; std::vector<double> el; bool glob; };
struct Pool {
  std::shared_ptr<CglStored> g;
  std::vector<MCut> cuts; double req = 1e-5; int ncols = 0;
  bool saved = false, hasBest = false; std::vector<double> best, lo, up; double obj = 0;
  int aggr = 0; 
};
struct StoredSim {
  const Scenario &s; Result &r; std::shared_ptr<OsiClpSolverInterface> si; std::vector<Pool> ps; OsiCuts cs; std::vector<Point> seen;
  StoredSim(const Scenario &a, Result &b) : s(a), r(b) {}
  static std::shared_ptr<CglStored> own(CglStored *p) { return std::shared_ptr<CglStored>(p, [](CglStored *q) { LibCall L; delete q; }); }
  static std::string same(const OsiRowCut &c, const MCut &m) {
    if (c.lb() != m.lb || c.ub() != m.ub) return "sides differ";
    if (c.globallyValid() != m.glob) return "global flag differs";
    const CoinPackedVector &v = c.row();
    if (v.getNumElements() != (int)m.ix.size()) return "length differs";
    for (size_t k = 0; k < m.ix.size(); k++) if (v.getIndices()[k] != m.ix[k] || v.getElements()[k] != m.el[k]) return "entries differ";
    return "";
  }
  static double viol(const MCut &m, const double *x) {
    double a = 0; for (size_t k = 0; k < m.ix.size(); k++) a += x[m.ix[k]] * m.el[k];
    if (a > m.ub) return a - m.ub; if (a < m.lb) return m.lb - a; return 0;
  }
  void content(const Pool &p, const char *when) {
    const CglStored &g = *p.g;
    if (g.sizeRowCuts() != (int)p.cuts.size()) { r.fail("pool size", fmt("%s: pool holds %d cuts, the list holds %zu", when, g.sizeRowCuts(), p.cuts.size())); return; }
    for (size_t i = 0; i < p.cuts.size(); i++) { std::string d = same(*g.rowCutPointer((int)i), p.cuts[i]); if (!d.empty()) { r.fail("pool content", fmt("%s: cut %zu: %s: ", when, i, d.c_str()) + humanCut(*g.rowCutPointer((int)i))); return; } }
    if (g.getRequiredViolation() != p.req) r.fail("pool setting", fmt("%s: required violation is %g, was set to %g", when, g.getRequiredViolation(), p.req));
    if (g.getAggressiveness() != p.aggr) r.fail("pool setting", fmt("%s: aggressiveness is %d, was set to %d", when, g.getAggressiveness(), p.aggr));
    const double *b = g.bestSolution();
    if ((b != nullptr) != p.hasBest) { r.fail("saved solution", fmt("%s: best solution %s", when, b ? "appears from nowhere" : "is lost")); return; }
    if (p.hasBest) { for (int j = 0; j < p.ncols; j++) if (b[j] != p.best[j]) r.fail("saved solution", fmt("%s: value %d of the best solution changed", when, j)); if (g.bestObjective() != p.obj) r.fail("saved solution", fmt("%s: best objective changed", when)); }
    else if (g.bestObjective() != COIN_DBL_MAX) r.fail("saved solution", fmt("%s: an objective without a solution", when));
    if ((g.tightLower() != nullptr) != p.saved) { r.fail("saved bounds", fmt("%s: bounds %s", when, p.saved ? "are lost" : "appear from nowhere")); return; }
    if (p.saved) for (int j = 0; j < p.ncols; j++) if (g.tightLower()[j] != p.lo[j] || g.tightUpper()[j] != p.up[j]) r.fail("saved bounds", fmt("%s: bounds of column %d changed", when, j));
  }
  MCut randomCut(Rng &q) {
    int n = s.probs[0].n; MCut m; int len = q.chance(1, 12) ? 0 : q.range(1, std::min(n, 6));
    std::set<int> u; while ((int)u.size() < len) u.insert(q.below(n));
    for (int j : u) m.ix.push_back(j);
    for (int k = (int)m.ix.size() - 1; k > 0; k--) if (q.chance(1, 2)) std::swap(m.ix[k], m.ix[q.below(k + 1)]);
    for (int k = 0; k < len; k++) m.el.push_back(q.chance(1, 4) ? q.unit() * 10 - 5 : q.range(-3, 3) + (q.chance(1, 2) ? 0.5 : 1));
    int t = q.below(4); double b = q.chance(1, 3) ? q.unit() * 4 - 2 : q.range(-2, 4);
    m.lb = t == 0 ? b : t == 2 ? b : t == 3 ? b - q.range(0, 2) : -COIN_DBL_MAX; m.ub = t == 0 ? COIN_DBL_MAX : b; m.glob = q.chance(1, 3);
    if (q.chance(1, 60)) { m.lb = 1; m.ub = 0; } // infeasibility marker
    return m;
  }
  void step(const Op &op) {
    Rng q((uint64_t)op.arg(1) * 7919 + 13); size_t i = ps.empty() ? 0 : op.ai(0) % ps.size(); const std::string &nm = op.name; int n = s.probs[0].n;
    note("pool| in " + op.text());
    if (nm == "new") { if (ps.size() >= 6) return; Pool p; p.ncols = op.ai(1) ? n : 0; { LibCall L; p.g = own(p.ncols ? new CglStored(p.ncols) : new CglStored()); } ps.push_back(p); r.inc("pools"); return; }
    if (nm == "point") {
      Point x(si->getColSolution(), si->getColSolution() + n); int k = op.ai(0);
      if (k == 0) { Rng o((uint64_t)op.arg(1)); for (int j = 0; j < n; j++) si->setObjCoeff(j, o.range(-5, 5)); si->resolve(); seen.push_back(Point(si->getColSolution(), si->getColSolution() + n)); return; }
      if (k == 1) for (auto &v : x) v += 1e-5 * (2 * q.unit() - 1);
      else if (k == 2 && !seen.empty()) x = seen[q.below((int)seen.size())];
      else if (k == 3) for (auto &v : x) v = q.unit() * 4 - 1; else for (auto &v : x) v = q.range(-1, 3);
      si->setColSolution(x.data()); r.inc(k == 1 ? "fault-lp-perturbed" : k == 2 ? "fault-lp-stale-or-foreign" : "fault-lp-arbitrary-point"); return;
    }
    if (ps.empty()) return;
    Pool &p = ps[i];
    if (nm == "add") {
      int how = op.ai(2) % 4; MCut m = randomCut(q); double eff = q.chance(1, 2) ? q.unit() : 0;
      if (how >= 2) m.glob = false;
      if (how == 0 || how == 1) {
        OsiRowCut c; c.setRow((int)m.ix.size(), m.ix.data(), m.el.data(), false); c.setLb(m.lb); c.setUb(m.ub); c.setGloballyValid(m.glob); c.setEffectiveness(eff);
        if (how == 0) { { LibCall L; p.g->addCut(c); } p.cuts.push_back(m); }
        else { OsiCuts many; many.insert(c); p.cuts.push_back(m); int k = q.below(3); for (int t = 0; t < k; t++) { MCut m2 = randomCut(q); OsiRowCut c2; c2.setRow((int)m2.ix.size(), m2.ix.data(), m2.el.data(), false); c2.setLb(m2.lb); c2.setUb(m2.ub); c2.setGloballyValid(m2.glob); many.insert(c2); p.cuts.push_back(m2); }
          LibCall L; p.g->addCut(many); }
      } else if (how == 2) { CoinPackedVector v((int)m.ix.size(), m.ix.data(), m.el.data()); { LibCall L; p.g->addCut(m.lb, m.ub, v); } p.cuts.push_back(m); }
      else { { LibCall L; p.g->addCut(m.lb, m.ub, (int)m.ix.size(), m.ix.data(), m.el.data()); } p.cuts.push_back(m); }
      r.inc("added");
    } else if (nm == "again") { if (p.cuts.empty()) return; MCut m = p.cuts[q.below((int)p.cuts.size())]; OsiRowCut c; c.setRow((int)m.ix.size(), m.ix.data(), m.el.data(), false); c.setLb(m.lb); c.setUb(m.ub); c.setGloballyValid(m.glob); { LibCall L; p.g->addCut(c); } p.cuts.push_back(m); r.inc("added-duplicate"); }
    else if (nm == "feed") { // what an earlier call returned goes back into a pool
      OsiCuts some; for (int k = 0; k < cs.sizeRowCuts() && k < 6; k++) { const OsiRowCut &c = cs.rowCut(k); some.insert(c); MCut m; m.lb = c.lb(); m.ub = c.ub(); m.glob = c.globallyValid(); const CoinPackedVector &v = c.row(); m.ix.assign(v.getIndices(), v.getIndices() + v.getNumElements()); m.el.assign(v.getElements(), v.getElements() + v.getNumElements()); p.cuts.push_back(m); }
      { LibCall L; p.g->addCut(some); } r.inc("fed-back");
    } else if (nm == "viol") { static const double vs[] = {1e-5, 0, 0.1, 0.5, 2, 1e-9, 1e6, -1}; p.req = vs[op.ai(1) % 8]; p.g->setRequiredViolation(p.req); }
    else if (nm == "aggr") { p.aggr = op.ai(1); p.g->setAggressiveness(p.aggr); }
    else if (nm == "save") {
      if (!p.ncols) return;
      p.hasBest = q.chance(3, 4); p.saved = true; p.best.clear(); p.lo.clear(); p.up.clear();
      for (int j = 0; j < n; j++) { p.best.push_back(q.unit() * 7 - 3); p.lo.push_back(-q.below(5)); p.up.push_back(q.below(9)); } p.obj = q.unit() * 100 - 50;
      { LibCall L; p.g->saveStuff(p.obj, p.hasBest ? p.best.data() : nullptr, p.lo.data(), p.up.data()); } r.inc("saves");
    } else if (nm == "copy") {
      Pool c = p; int how = op.ai(1) % 4;
      if (how == 0) { LibCall L; c.g = own(static_cast<CglStored *>(p.g->clone())); }
      else if (how == 1) { LibCall L; c.g = own(new CglStored(*p.g)); }
      else if (how == 2) { LibCall L; c.g = own(new CglStored(op.ai(2) % 2 ? n : 0)); *c.g = *p.g; }
      else { size_t t = op.ai(2) % ps.size(); { LibCall L; *ps[t].g = *p.g; } auto keep = ps[t].g; Pool m = p; ps[t] = m; ps[t].g = keep; r.inc("assignments"); if (t == i) r.inc("self-assignments"); content(ps[t], "after assignment"); content(ps[i], "source after assignment"); return; }
      content(c, "copy"); r.inc("copies"); if (ps.size() < 6) ps.push_back(c); else ps[op.ai(2) % ps.size()] = c;
    } else if (nm == "kill") { if (ps.size() > 1) ps.erase(ps.begin() + i); r.inc("destroyed"); return; }
    else if (nm == "clear") { cs = OsiCuts(); return; }
    else if (nm == "gen") {
      const double *x = si->getColSolution(); int r0 = cs.sizeRowCuts(), c0 = cs.sizeColCuts(); std::string before = dumpCuts(cs);
      CglTreeInfo info; info.inTree = q.chance(1, 2); info.level = q.below(4); info.pass = q.below(3); info.options = q.chance(1, 2) ? 4 : 0;
      { LibCall L; p.g->generateCuts(*si, cs, info); }
      std::string now = dumpCuts(cs); OsiCuts old; if (now.compare(0, 0, "") != 0) {}
      int k = r0, returned = 0;
      for (size_t c = 0; c < p.cuts.size(); c++) {
        double v = viol(p.cuts[c], x), tol = 1e-12 * (1 + fabs(v) + fabs(p.req)); for (double e : p.cuts[c].el) tol += 1e-12 * fabs(e);
        bool must = v > p.req + tol, may = v >= p.req - tol;
        bool here = k < cs.sizeRowCuts() && same(*cs.rowCutPtr(k), p.cuts[c]).empty();
        if (must && !here) { r.fail("cut missing or changed", fmt("stored cut %zu is violated by %.17g (required %.17g) but is not next in the result", c, v, p.req)); return; }
        if (here && (must || may)) { k++; returned++; if (p.g->rowCutPointer((int)c)->effectiveness() != cs.rowCutPtr(k - 1)->effectiveness()) r.fail("cut missing or changed", "effectiveness differs from the stored one"); }
      }
      if (k != cs.sizeRowCuts()) r.fail("cut invented", "the call returned a cut that is not violated enough, out of order or not stored: " + humanCut(*cs.rowCutPtr(k)));
      if (cs.sizeColCuts() != c0) r.fail("cut invented", "bound changes from a pool of row cuts");
      { OsiCuts pre; std::string d; for (int t = 0; t < r0; t++) d += dumpRowCut(*cs.rowCutPtr(t)) + "\n"; std::string e; std::istringstream is(before); std::string l; int t = 0; while (std::getline(is, l) && t < r0) { e += l.substr(0, l.rfind(" e")) + "\n"; t++; } if (d != e) r.fail("collection disturbed", "cuts already in the collection changed"); }
      r.inc("calls"); if (returned) { r.inc("calls-returning"); Hash h; h.i((long long)p.cuts.size()); for (int t = r0; t < cs.sizeRowCuts(); t++) h.s(dumpRowCut(*cs.rowCutPtr(t))); h.d(p.req); r.states.insert(h.h); }
      r.log(fmt("gen %d", returned));
      if (cs.sizeRowCuts() > 200) cs = OsiCuts();
    }
    for (auto &e : ps) { content(e, ("after " + nm).c_str()); if (r.v.on) return; }
  }
  void run() {
    si.reset(makeSolver(s.probs[0])); si->initialSolve(); seen.push_back(Point(si->getColSolution(), si->getColSolution() + s.probs[0].n));
    for (auto &op : s.ops) { step(op); r.log(op.text()); if (r.v.on) return; }
  }
};
}
void runStored(const Scenario &s, Result &r) { if (s.probs.empty()) return; StoredSim q(s, r); q.run(); }
Scenario genStored(const std::string &prop, uint64_t seed) {
  Rng r(seed * 2654435761ull + 4177); Scenario s; s.prop = prop; s.seed = seed; s.env["sim"] = 4;
  Problem p = randomProblem(r, r.pick(std::vector<std::string>{"knap", "gen", "mixed", "pack"})); s.probs.push_back(p);
  bool faults = r.chance(3, 4); int len = r.range(8, 40);
  auto add = [&](const char *n, std::vector<double> a) { Op o; o.name = n; o.a = a; s.ops.push_back(o); };
  add("new", {0, (double)r.below(3)}); if (r.chance(1, 2)) add("new", {0, (double)r.below(2)});
  int wc = r.range(0, 4), wa = r.range(2, 6), ws = r.below(3), wk = r.below(2), wg = r.range(2, 5), wp = r.range(1, 4);
  for (int i = 0; i < len; i++) {
    double a = r.below(8), b = r.below(100000); int t = r.below(wc + wa + ws + wk + wg + wp + 3);
    if ((t -= wa) < 0) add(r.chance(1, 6) ? "again" : "add", {a, b, (double)r.below(4)});
    else if ((t -= wg) < 0) add("gen", {a, b});
    else if ((t -= wp) < 0) add("point", {faults ? (double)r.below(5) : 0.0, b});
    else if ((t -= wc) < 0) add("copy", {a, b, (double)r.below(8)});
    else if ((t -= ws) < 0) add("save", {a, b});
    else if ((t -= wk) < 0) add("kill", {a});
    else if (t == 0) add("viol", {a, (double)r.below(8)});
    else if (t == 1) add(r.chance(1, 2) ? "new" : "aggr", {a, (double)(r.below(3) * 50)});
    else add(r.chance(2, 3) ? "feed" : "clear", {a, b});
  }
  return s;
}
