// Simulation 7: models are cleaned of duplicate and dominated clique rows, again and again, at the
// root and at nodes, by generators that are copied, assigned, refreshed and shared between workers
// which crash and start again from the root model.  Oracle: the exhaustive list of feasible
// mixed-integer points before and after each cleaning.
#include "scenario.h"
#include "hooks.h"
#include "CglDuplicateRow.hpp"
#include "CglStored.hpp"
extern void note(const std::string &);
namespace {
typedef std::shared_ptr<CglDuplicateRow> G;
static G own(CglDuplicateRow *q) { return G(q, [](CglDuplicateRow *z) { LibCall L; delete z; }); }
struct Gen { G g; int rows = 0; /* rows of the model it was last given */ };
struct Wk { std::shared_ptr<OsiClpSolverInterface> si; std::vector<Gen> g; };
struct Sim {
  const Scenario &s; Result &r; const Problem &p; std::shared_ptr<OsiClpSolverInterface> root; std::vector<Wk> w;
  Sim(const Scenario &a, Result &b) : s(a), r(b), p(a.probs[0]) {}
  Problem model(const OsiSolverInterface &si) {
    Problem q; for (int j = 0; j < p.n; j++) q.addCol(si.getColLower()[j], si.getColUpper()[j], si.isInteger(j), si.getObjCoefficients()[j]);
    const CoinPackedMatrix *M = si.getMatrixByRow();
    for (int i = 0; i < si.getNumRows(); i++) { Row t; t.lo = si.getRowLower()[i] < -1e30 ? -INF : si.getRowLower()[i]; t.hi = si.getRowUpper()[i] > 1e30 ? INF : si.getRowUpper()[i]; CoinBigIndex b = M->getVectorStarts()[i]; for (int k = 0; k < M->getVectorLengths()[i]; k++) { t.idx.push_back(M->getIndices()[b + k]); t.val.push_back(M->getElements()[b + k]); } q.rows.push_back(t); }
    return q;
  }
  static std::string pt(const Point &x) { std::string t = "("; for (size_t j = 0; j < x.size(); j++) t += (j ? "," : "") + num(x[j]); return t + ")"; }
  static bool sat(const Problem &q, const Point &x, std::string &why) {
    for (int j = 0; j < q.n; j++) if (x[j] < q.lb[j] - 1e-6 || x[j] > q.ub[j] + 1e-6) { why = fmt("the bounds of column %d", j); return false; }
    for (size_t i = 0; i < q.rows.size(); i++) { const Row &t = q.rows[i]; double a = 0, m = 1; for (size_t k = 0; k < t.idx.size(); k++) { a += t.val[k] * x[t.idx[k]]; m += fabs(t.val[k] * x[t.idx[k]]); } if ((t.hi < INF && a > t.hi + 1e-6 * m) || (t.lo > -INF && a < t.lo - 1e-6 * m)) { why = fmt("row %zu", i); return false; } }
    return true;
  }
  // everything the cleaning may not change
  void compare(const Problem &a, const Problem &b, const std::string &what) {
    Oracle A, B; A.build(a, 6000); B.build(b, 6000); std::string why; double va = 1e100, vb = 1e100;
    for (auto &x : A.pts) { double v = 0; for (int j = 0; j < p.n; j++) v += a.obj[j] * x[j]; va = std::min(va, v); if (!sat(b, x, why)) { r.fail("cleaning loses a feasible point", what + ": " + pt(x) + " now violates " + why); return; } }
    for (auto &x : B.pts) { double v = 0; for (int j = 0; j < p.n; j++) v += b.obj[j] * x[j]; vb = std::min(vb, v); if (!sat(a, x, why)) { r.fail("cleaning admits an infeasible point", what + ": " + pt(x) + " violates " + why + " of the model before"); return; } }
    if (A.complete && B.complete && fabs(va - vb) > 1e-6 * (1 + fabs(va))) r.fail("cleaning changes the optimum", what + fmt(": %g -> %g", va, vb));
    r.inc("compared-points", (long)(A.pts.size() + B.pts.size())); if (A.pts.empty()) r.inc("infeasible-models");
  }
  void step(const Op &op) {
    const std::string &nm = op.name; note("cleaning| in " + op.text()); Wk &k = w[op.ai(0) % w.size()]; Gen &o = k.g[op.ai(1) % k.g.size()];
    if (nm == "clean" || nm == "cuts") {

      if (!k.si->getNumRows()) return;
      Problem a = model(*k.si); int m = (int)a.rows.size(); r.inc("calls");
      if (nm == "clean") {
        CglStored *st; { LibCall L; st = o.g->outDuplicates(k.si.get()); } (void)st;
        Problem b = model(*k.si); compare(a, b, fmt("mode %d", o.g->mode()));
        int dropped = m - (int)b.rows.size(), fixed = 0; for (int j = 0; j < p.n; j++) if (a.lb[j] != b.lb[j] || a.ub[j] != b.ub[j]) fixed++;
        // what is left is a subsequence of the rows before
        size_t q = 0; for (auto &t : b.rows) { while (q < a.rows.size() && !(a.rows[q].lo == t.lo && a.rows[q].hi == t.hi && a.rows[q].idx == t.idx && a.rows[q].val == t.val)) q++; if (q++ >= a.rows.size()) { r.fail("cleaning changes a row", fmt("of the %d rows left one was not there before", (int)b.rows.size())); break; } }
        int marked = 0; for (int i = 0; i < m; i++) { int d = o.g->duplicate()[i]; if (d == -2 || d >= 0) marked++; }
        if (marked != dropped) r.fail("cleaning miscounts", fmt("%d rows are reported as duplicates, %d were removed", marked, dropped));
        r.inc("rows-removed", dropped); r.inc("columns-fixed", fixed); r.log(fmt("dropped %d fixed %d", dropped, fixed));
        if (dropped || fixed) { Hash h; h.s(a.text()); h.i(dropped); h.i(fixed); r.states.insert(h.h); }
      } else {
        OsiCuts cs; CglTreeInfo info; info.inTree = op.ai(2) & 1; { LibCall L; o.g->generateCuts(*k.si, cs, info); }
        Problem b = a; bool inf = false; // apply what it says
        for (int i = 0; i < cs.sizeColCuts(); i++) { const OsiColCut &c = *cs.colCutPtr(i); for (int q = 0; q < c.lbs().getNumElements(); q++) { int j = c.lbs().getIndices()[q]; b.lb[j] = std::max(b.lb[j], c.lbs().getElements()[q]); } for (int q = 0; q < c.ubs().getNumElements(); q++) { int j = c.ubs().getIndices()[q]; b.ub[j] = std::min(b.ub[j], c.ubs().getElements()[q]); } }
        for (int i = 0; i < cs.sizeRowCuts(); i++) if (cs.rowCutPtr(i)->lb() > cs.rowCutPtr(i)->ub()) inf = true;
        if (inf) { r.inc("infeasible-verdicts"); Oracle A; A.build(a, 6000); if (!A.pts.empty()) r.fail("false infeasibility", pt(A.pts[0]) + " is feasible"); }
        if (!info.inTree && o.g->mode() == 8) { b.rows.clear(); for (int i = 0; i < m; i++) { int d = o.g->duplicate()[i]; if (!(d == -2 || d >= 0)) b.rows.push_back(a.rows[i]); } }
        compare(a, b, fmt("mode %d, marks only", o.g->mode())); r.log(dumpCuts(cs));
      }
    } else if (nm == "node") { // tighten bounds
      Rng q((uint64_t)op.arg(2) + 31);
      for (int j = 0; j < p.n; j++) if (q.chance(op.ai(3, 1), 6)) { double lo = k.si->getColLower()[j], up = k.si->getColUpper()[j]; if (up - lo < 0.5) continue; if (k.si->isInteger(j)) { double v = lo + q.below((int)(up - lo) + 1); if (q.chance(1, 3)) { if (q.chance(1, 2)) k.si->setColLower(j, v); else k.si->setColUpper(j, v); } else k.si->setColBounds(j, v, v); } else { double v = lo + (up - lo) * q.below(5) / 4.0; k.si->setColBounds(j, v, v); } }
      r.inc("nodes");
    } else if (nm == "reset") { k.si.reset(dynamic_cast<OsiClpSolverInterface *>(root->clone())); r.inc("fault-worker-restart"); }
    else if (nm == "refresh") { LibCall L; o.g->refreshSolver(k.si.get()); o.rows = k.si->getNumRows(); r.inc("refreshes"); }
    else if (nm == "solve") { if (op.ai(2) & 1) { k.si->setIntParam(OsiMaxNumIteration, op.ai(2) % 5); r.inc("fault-lp-stopped-early"); } else k.si->setIntParam(OsiMaxNumIteration, 100000); k.si->initialSolve(); }
    else if (nm == "row") { if (k.si->getNumRows() > 14) return; CoinPackedVector v; const Row &t = p.rows[op.ai(2) % p.rows.size()]; for (size_t q = 0; q < t.idx.size(); q++) if (((op.ai(3) >> q) & 1) == 0) v.insert(t.idx[q], t.val[q]); if (v.getNumElements() < 1) return; k.si->addRow(v, op.ai(4) & 1 ? 1.0 : -COIN_DBL_MAX, 1.0); r.inc("rows-added"); }
    else if (nm == "copy") {
      int how = op.ai(2) % 4; Gen c = o;
      if (how == 0) { LibCall L; c.g = own(static_cast<CglDuplicateRow *>(o.g->clone())); } else if (how == 1) { LibCall L; c.g = own(new CglDuplicateRow(*o.g)); }
      else if (how == 2) { LibCall L; c.g = own(new CglDuplicateRow()); *c.g = *o.g; }
      else { Gen &t = k.g[op.ai(3) % k.g.size()]; LibCall L; *t.g = *o.g; t.rows = o.rows; r.inc("assignments"); return; }
      Wk &d = w[op.ai(3) % w.size()]; if (op.ai(2) & 4 && d.g.size() < 4) d.g.push_back(c); else d.g[op.ai(1) % d.g.size()] = c; r.inc("copies");
    } else if (nm == "set") { LibCall L; if (op.ai(2) == 0) o.g->setMode(op.ai(3) % 4 ? 8 : op.ai(3) % 3 + 1); else if (op.ai(2) == 1) o.g->setMaximumRhs(op.ai(3) + 1); else o.g->setMaximumDominated(op.ai(3) + 1); }
  }
  void run() {
    root.reset(makeSolver(p)); w.resize(std::max(1, (int)s.e("workers", 1)));
    for (auto &k : w) { k.si.reset(dynamic_cast<OsiClpSolverInterface *>(root->clone())); Gen g; g.rows = root->getNumRows(); { LibCall L; g.g = own(new CglDuplicateRow(k.si.get())); g.g->setMode(8); } k.g.push_back(g); }
    for (auto &op : s.ops) { step(op); r.log(op.text()); if (r.v.on) return; }
  }
};
}
void runClean(const Scenario &s, Result &r) { if (s.probs.empty() || s.probs[0].rows.empty()) return; Sim q(s, r); q.run(); }
Scenario genClean(const std::string &prop, uint64_t seed) {
  Rng r(seed * 2654435761ull + 7701); Scenario s; s.prop = prop; s.seed = seed; s.env["sim"] = 7; s.env["workers"] = r.range(1, 3);
  Problem p; int n = r.range(3, 10), oc = r.below(3), og = r.below(3), nc = 0; bool fractional = r.chance(1, 5);
  for (int j = 0; j < n; j++) { int t = r.below(10); if (j > 1 && t < oc && nc < 3) { p.addCol(0, r.chance(2, 3) ? 1 : 3, false, r.range(-4, 4)); nc++; } else if (j > 1 && t < oc + og) { double l = r.range(-1, 1); p.addCol(l, l + r.below(4), true, r.range(-4, 4)); } else p.addCol(0, 1, true, r.range(-5, 5)); }
  int m = r.range(2, 9); std::vector<std::vector<int>> sets;
  for (int i = 0; i < m; i++) {
    std::vector<int> c; int how = r.below(sets.empty() ? 2 : 6);
    if (how < 2) { for (int j = 0; j < n; j++) if (r.chance(1, 2)) c.push_back(j); }
    else { c = r.pick(sets); if (how == 3 && c.size() > 2) c.erase(c.begin() + r.below((int)c.size())); else if (how == 4) { std::vector<int> d; for (int j : c) if (r.chance(2, 3)) d.push_back(j); if (d.size() >= 2) c = d; } else if (how == 5) { int j = r.below(n); if (std::find(c.begin(), c.end(), j) == c.end()) c.push_back(j); } }
    if (c.size() < 2) c = {0, 1};
    sets.push_back(c); if (r.chance(1, 4)) for (size_t q = c.size() - 1; q > 0; q--) std::swap(c[q], c[r.below((int)q + 1)]); // in any order
    Row t; t.idx = c; t.val.assign(c.size(), 1.0); t.hi = 1; t.lo = -INF; int ty = r.below(12);
    if (ty < 4) t.lo = 1; else if (ty == 4) t.lo = 0; else if (ty == 5) { t.lo = 1; t.hi = INF; } else if (ty == 6) t.hi = 2; else if (ty == 7 && r.chance(1, 2)) t.hi = 0; else if (ty == 8) { t.lo = t.hi = r.range(1, 2); } else if (ty == 9 && fractional) t.hi = 1.5; else if (ty == 10 && fractional) t.lo = r.below(5) / 4.0; else if (ty == 11 && r.chance(1, 3)) { t.val[r.below((int)c.size())] = r.pick(std::vector<double>{-1, 2, 1, 0.5}); }
    p.rows.push_back(t);
  }
  p.family = "cliques"; s.probs.push_back(p);
  auto add = [&](const char *nm, std::vector<double> a) { Op o; o.name = nm; o.a = a; s.ops.push_back(o); };
  int len = r.range(1, 9), wn = r.below(4), wr = r.below(2), wc = r.below(3), wf = r.below(2), wa = r.below(3);
  for (int i = 0; i < len; i++) {
    double a = r.below(3), g = r.below(4); int t = r.below(4 + wn + wr + wc + wf + wa + 1);
    if ((t -= 3) < 0) add("clean", {a, g}); else if ((t -= 1) < 0) add("cuts", {a, g, (double)(r.below(4) == 0)});
    else if ((t -= wn) < 0) { add("node", {a, g, (double)r.below(100000), (double)r.range(1, 4)}); if (r.chance(2, 3)) add("clean", {a, g}); }
    else if ((t -= wr) < 0) { add("reset", {a, g}); if (r.chance(1, 3)) add("refresh", {a, g}); }
    else if ((t -= wc) < 0) add("copy", {a, g, (double)r.below(8), (double)r.below(4)});
    else if ((t -= wf) < 0) add("refresh", {a, g});
    else if ((t -= wa) < 0) { add("row", {a, g, (double)r.below(9), (double)(r.chance(1, 2) ? 0 : r.below(64)), (double)r.below(2)}); add("refresh", {a, g}); add("clean", {a, g}); }
    else if (r.chance(1, 2)) add("set", {a, g, (double)r.below(3), (double)r.below(12)}); else add("solve", {a, g, (double)r.below(10)});
  }
  add("clean", {0, 0});
  return s;
}
