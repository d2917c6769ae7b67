// Simulation 5: stores of probing implications.  One history of recordings, conversions, packings,
// copies, assignments and queries at node boxes runs over several stores; the reference model is the
// plain set of recorded implications, the oracle enumerates all 0-1 assignments of the node.
#include "scenario.h"
#include "hooks.h"
#include "CglStored.hpp"
#include "CglTreeInfo.hpp"
extern void note(const std::string &);
namespace {
struct Imp { int i, v, k, t; bool operator<(const Imp &o) const { return std::tie(i, v, k, t) < std::tie(o.i, o.v, o.k, o.t); } bool operator==(const Imp &o) const { return i == o.i && v == o.v && k == o.k && t == o.t; } };
struct Store { std::shared_ptr<CglTreeProbingInfo> g; std::set<Imp> imp; int state = -1; /* -1 new, 0 collecting, 1 in use */ bool empty = false; bool full = false; };
typedef std::vector<double> Vec;
struct Sim {
  const Scenario &s; Result &r; const Problem &p; std::shared_ptr<OsiClpSolverInterface> root, node; std::vector<Store> st; std::vector<int> bin; std::vector<int> num_;
  Sim(const Scenario &a, Result &b) : s(a), r(b), p(a.probs[0]) {}
  static std::shared_ptr<CglTreeProbingInfo> own(CglTreeProbingInfo *q) { return std::shared_ptr<CglTreeProbingInfo>(q, [](CglTreeProbingInfo *z) { LibCall L; delete z; }); }
  static std::string text(const Imp &m) { return fmt("x%d=%d forces x%d to its %s bound", m.i, m.v, m.k, m.t ? "upper" : "lower"); }
  // all 0-1 assignments in the box that satisfy the implications among 0-1 columns (values of other columns are handled separately)
  std::vector<Vec> points(const Store &o, const double *lo, const double *up) {
    std::vector<Vec> out; int nb = (int)bin.size();
    for (int mask = 0; mask < (1 << nb); mask++) {
      Vec x(lo, lo + p.n); bool ok = true;
      for (int q = 0; q < nb && ok; q++) { double v = (mask >> q) & 1; if (v < lo[bin[q]] || v > up[bin[q]]) ok = false; x[bin[q]] = v; }
      if (!ok) continue;
      for (auto &m : o.imp) if (num_[m.k] >= 0 && x[m.i] == m.v && x[m.k] != m.t) { ok = false; break; }
      if (ok) out.push_back(x);
    }
    return out;
  }
  // the same with every other column at each end of the range its implications leave
  std::vector<Vec> corners(const Store &o, const double *lo, const double *up) {
    std::vector<Vec> in = points(o, lo, up), out;
    for (auto &x0 : in) {
      Vec a(lo, lo + p.n), b(up, up + p.n); bool ok = true;
      for (auto &m : o.imp) if (num_[m.k] < 0 && x0[m.i] == m.v) { if (m.t) { if (p.ub[m.k] > b[m.k]) ok = false; a[m.k] = std::max(a[m.k], p.ub[m.k]); } else { if (p.lb[m.k] < a[m.k]) ok = false; b[m.k] = std::min(b[m.k], p.lb[m.k]); } }
      for (int j = 0; j < p.n; j++) if (num_[j] < 0 && a[j] > b[j]) ok = false;
      if (!ok) continue;
      for (int side = 0; side < 2; side++) { Vec x = x0; for (int j = 0; j < p.n; j++) if (num_[j] < 0) x[j] = side ? std::min(b[j], 1e6) : std::max(a[j], -1e6); out.push_back(x); }
    }
    return out;
  }
  void entries(Store &o, const char *when) { // through the public accessors
    int nI, *z, *u; CliqueEntry *e; { LibCall L; z = o.g->toZero(); u = o.g->toOne(); e = o.g->fixEntries(); nI = o.g->numberIntegers(); }
    if (o.state == 0) o.state = 1;
    if (o.empty) return;
    if (nI != (int)bin.size() || o.g->numberVariables() != p.n) { r.fail("store dimensions", fmt("%s: %d 0-1 columns of %d", when, nI, o.g->numberVariables())); return; }
    std::set<Imp> got; const int *iv = o.g->integerVariable();
    for (int i = 0; i < nI; i++) for (int j = z[i]; j < z[i + 1]; j++) {
      Imp m; m.i = iv[i]; m.v = j >= u[i]; int q = sequenceInCliqueEntry(e[j]); if (q < nI) m.k = iv[q]; else m.k = q - nI; m.t = oneFixesInCliqueEntry(e[j]);
      if (q >= nI && (m.k < 0 || m.k >= p.n)) { r.fail("store content", fmt("%s: an entry refers to column %d", when, m.k)); return; }
      got.insert(m);
    }
    for (auto &m : o.imp) if (!got.count(m)) { r.fail("implication lost", std::string(when) + ": " + text(m)); return; }
    for (auto &m : got) if (!o.imp.count(m)) { r.fail("implication invented", std::string(when) + ": " + text(m)); return; }
    for (int j = 0; j < p.n; j++) { int b = o.g->backward()[j]; if (num_[j] >= 0 ? b != num_[j] : b >= 0) r.fail("store dimensions", fmt("%s: column %d is looked up as %d", when, j, b)); }
  }
  bool ready(const Store &o) { return o.state == 1 || o.state == -1; } // -1: built from a model or default, nothing recorded
  void afterFix(const Store &o, const Vec &l0, const Vec &u0, OsiSolverInterface &si, int ret, int var, int val, const std::string &what) {
    Vec l1(si.getColLower(), si.getColLower() + p.n), u1(si.getColUpper(), si.getColUpper() + p.n); Vec l = l0, u = u0;
    if (var >= 0) { l[var] = std::max(l[var], (double)val); u[var] = std::min(u[var], (double)val); }
    std::vector<Vec> pts = points(o, l.data(), u.data());
    if (ret < 0) { r.inc("infeasible-verdicts"); if (!pts.empty()) r.fail("false infeasibility", what + ": the node has assignments satisfying every implication"); return; }
    int changed = 0;
    for (int j = 0; j < p.n; j++) {
      if (l1[j] < l0[j] || u1[j] > u0[j]) r.fail("bounds relaxed", what + fmt(": column %d", j));
      if (l1[j] != l0[j]) changed++; if (u1[j] != u0[j]) changed++;
      for (auto &x : pts) if (num_[j] >= 0 && (x[j] < l1[j] || x[j] > u1[j])) { r.fail("fixed what does not follow", what + fmt(": column %d was fixed to [%g,%g]", j, l1[j], u1[j])); return; }
    }
    if (changed != ret) r.fail("wrong count", what + fmt(": %d bounds changed but %d were reported", changed, ret));
    for (auto &m : o.imp) if (num_[m.k] >= 0 && (var >= 0 ? m.i == var && m.v == val : m.v ? l0[m.i] == 1 : u0[m.i] == 0) && !(l1[m.k] == m.t && u1[m.k] == m.t)) { r.fail("direct implication not applied", what + ": " + text(m)); return; }
    if (ret > 0) { r.inc("fixed", ret); Hash h; for (double d : l1) h.d(d); for (double d : u1) h.d(d); h.i((long long)o.imp.size()); h.i(var * 2 + val); r.states.insert(h.h); }
  }
  void checkCuts(const Store &o, const OsiCuts &cs, const std::string &what, bool stored, double need) {
    const double *lo = node->getColLower(), *up = node->getColUpper(), *x = node->getColSolution();
    std::vector<Vec> pts = stored ? corners(o, lo, up) : points(o, lo, up); std::vector<const Point *> pp; for (auto &v : pts) pp.push_back(&v);
    bool infeasible = false;
    for (int i = 0; i < cs.sizeRowCuts(); i++) {
      const OsiRowCut &rc = *cs.rowCutPtr(i); if (rc.lb() > rc.ub()) infeasible = true;
      if (infeasible) { if (!pts.empty()) r.fail("false infeasibility", what); continue; }
      if (const Point *y = violates(rc, pp)) { std::string t; for (double v : *y) t += " " + num(v); r.fail("cut does not follow", what + ": " + humanCut(rc) + " excludes" + t); return; }
    }
    Vec l1(lo, lo + p.n), u1(up, up + p.n);
    for (int i = 0; i < cs.sizeColCuts(); i++) {
      const OsiColCut &cc = *const_cast<OsiCuts &>(cs).colCutPtr(i);
      for (int q = 0; q < cc.lbs().getNumElements(); q++) { int j = cc.lbs().getIndices()[q]; l1[j] = std::max(l1[j], cc.lbs().getElements()[q]); }
      for (int q = 0; q < cc.ubs().getNumElements(); q++) { int j = cc.ubs().getIndices()[q]; u1[j] = std::min(u1[j], cc.ubs().getElements()[q]); }
    }
    for (auto &y : pts) for (int j = 0; j < p.n; j++) if (y[j] < l1[j] - 1e-9 || y[j] > u1[j] + 1e-9) { r.fail("fixed what does not follow", what + fmt(": bound change on column %d", j)); return; }
    if (infeasible) { r.inc("infeasible-verdicts"); return; }
    for (auto &m : o.imp) { // completeness
      if (num_[m.k] >= 0 && !stored && (m.v ? lo[m.i] == 1 : up[m.i] == 0) && !(l1[m.k] >= m.t && u1[m.k] <= m.t)) { r.fail("direct implication not applied", what + ": " + text(m)); return; }
      if (!(lo[m.i] == 0 && up[m.i] == 1)) continue;
      if (num_[m.k] >= 0 && !(lo[m.k] == 0 && up[m.k] == 1)) continue;
      if (num_[m.k] < 0 && !stored) continue;
      double L = lo[m.k], U = up[m.k], z = m.v ? x[m.i] : 1 - x[m.i]; // z=1: at the value that fixes
      double v = m.t ? L + (U - L) * z - x[m.k] : x[m.k] - (U - (U - L) * z);
      if (v <= need + 1e-4) continue;
      bool found = false;
      for (int i = 0; i < cs.sizeRowCuts() && !found; i++) { const OsiRowCut &rc = *cs.rowCutPtr(i); if (rc.row().getNumElements() != 2) continue; int a = rc.row().getIndices()[0], b = rc.row().getIndices()[1]; if (((a == m.i && b == m.k) || (a == m.k && b == m.i)) && const_cast<OsiRowCut &>(rc).violated(x) > need) found = true; }
      if (!found) { r.fail("violated implication not returned", what + fmt(": violated by %g: ", v) + text(m)); return; }
    }
    if (cs.sizeRowCuts() + cs.sizeColCuts()) { r.inc("cuts", cs.sizeRowCuts() + cs.sizeColCuts()); Hash h; h.s(dumpCuts(cs)); for (int j = 0; j < p.n; j++) { h.d(lo[j]); h.d(up[j]); } r.states.insert(h.h); }
  }
  void step(const Op &op) {
    const std::string &nm = op.name; note("implications| in " + op.text()); Rng q((uint64_t)op.arg(1) * 104729 + 3);
    if (nm == "new") { if (st.size() >= 5) return; Store o; o.empty = op.ai(1) % 4 == 0; { LibCall L; o.g = own(o.empty ? new CglTreeProbingInfo() : new CglTreeProbingInfo(root.get())); } st.push_back(o); return; }
    if (nm == "box") {
      for (int j = 0; j < p.n; j++) { double a = p.lb[j], b = p.ub[j]; if (num_[j] >= 0 && q.chance(op.ai(2), 6)) a = b = q.below(2); else if (num_[j] < 0 && q.chance(1, 4) && b - a >= 1 && p.isInt[j]) { if (q.chance(1, 2)) a += 1; else b -= 1; } node->setColBounds(j, a, b); }
      Vec x(p.n); for (int j = 0; j < p.n; j++) { double a = std::max(node->getColLower()[j], -9.0), b = std::min(node->getColUpper()[j], 9.0); x[j] = a + (b - a) * (q.chance(1, 2) ? q.unit() : q.below(3) / 2.0); } node->setColSolution(x.data()); return;
    }
    if (st.empty()) return; size_t idx = op.ai(0) % st.size(); Store &o = st[idx];
    if (nm == "init") {
      int c; { LibCall L; c = o.g->initializeFixing(root.get()); }
      bool collecting = o.state <= 0; if ((c > 0) != collecting) r.fail("protocol", fmt("initializeFixing returned %d for a store %s", c, collecting ? "that can record" : "in use"));
      if (o.state < 0) { o.state = 0; o.imp.clear(); } o.empty = false;
    } else if (nm == "rec") { // variable, value, fixed column, side
      if (o.state != 0 || o.full) return; int i = op.ai(1) % p.n, k = op.ai(3) % p.n; if (k == i) return; bool ok; { LibCall L; ok = o.g->fixes(i, op.ai(2) ? 1 : -1, k, op.ai(4) == 0); }
      if (!ok) { o.full = true; r.fail("store full too early", fmt("after %zu implications", o.imp.size())); return; }
      if (num_[i] >= 0) { Imp m = {i, op.ai(2) ? 1 : 0, k, op.ai(4) ? 1 : 0}; o.imp.insert(m); r.inc("recorded"); } else r.inc("recorded-not-01");
    } else if (nm == "flood") { // until the store says it is full
      if (o.state != 0 || o.full) return; long n = 0; bool ok = true; Rng z((uint64_t)op.arg(1)); { LibCall L; for (; n < 4000000 && ok; n++) { int i = bin[z.below((int)bin.size())], k = z.below(p.n), v = z.below(2), t = z.below(2); if (i == k) continue; if (num_[k] >= 0 && (v != 0 || t != 1)) { v = 0; t = 1; } ok = o.g->fixes(i, v ? 1 : -1, k, t == 0); if (ok) o.imp.insert({i, v, k, t}); } }
      if (n < 100000) r.fail("store full too early", fmt("after %ld recordings", n)); if (!ok) { o.full = true; r.inc("fault-store-full"); } else r.inc("floods-not-full");
    } else if (nm == "convert") { entries(o, "after conversion"); r.inc("conversions"); }
    else if (nm == "pack") {
      if (o.empty) return; int c; { LibCall L; c = o.g->packDown(); } if (o.state == 0) o.state = 1; for (auto it = o.imp.begin(); it != o.imp.end();) if (num_[it->k] < 0) it = o.imp.erase(it); else ++it;
      if (c != o.g->toZero()[o.g->numberIntegers()]) r.fail("wrong count", fmt("packDown reports %d entries", c)); entries(o, "after packing"); r.inc("packings");
    } else if (nm == "fixall") { if (!ready(o)) return; std::shared_ptr<OsiSolverInterface> c(node->clone()); Vec l(c->getColLower(), c->getColLower() + p.n), u(c->getColUpper(), c->getColUpper() + p.n); int n; { LibCall L; n = o.g->fixColumns(*c); } r.inc("calls"); afterFix(o, l, u, *c, n, -1, 0, "fix all"); }
    else if (nm == "fixone") { if (o.empty) return; int j = op.ai(1) % p.n, v = op.ai(2) & 1; std::shared_ptr<OsiSolverInterface> c(node->clone()); Vec l(c->getColLower(), c->getColLower() + p.n), u(c->getColUpper(), c->getColUpper() + p.n); int n; { LibCall L; n = o.g->fixColumns(j, v, *c); } r.inc("calls");
      if (num_[j] < 0 || o.state != 1) { if (n != 0) r.fail("fixed what does not follow", fmt("column %d has no implications in use", j)); } else afterFix(o, l, u, *c, n, j, v, fmt("fix for x%d=%d", j, v)); }
    else if (nm == "gen") { if (!ready(o)) return; OsiCuts cs; CglTreeInfo info; { LibCall L; o.g->generateCuts(*node, cs, info); } r.inc("calls"); checkCuts(o, cs, "cuts from implications", false, 1e-5); }
    else if (nm == "stored") { if (!ready(o) || o.empty) return; OsiCuts cs; { LibCall L; CglStored pool; CglTreeProbingInfo *c = new CglTreeProbingInfo(*o.g); pool.setProbingInfo(c); if (op.ai(1) % 2) { CglStored copy(pool); CglStored third; third = copy; third.generateCuts(*node, cs); } else pool.generateCuts(*node, cs); } r.inc("calls"); checkCuts(o, cs, "stored implications", true, 1e-5); }
    else if (nm == "copy") {
      Store c = o; int how = op.ai(1) % 4;
      if (how == 0) { LibCall L; c.g = own(static_cast<CglTreeProbingInfo *>(o.g->clone())); }
      else if (how == 1) { LibCall L; c.g = own(new CglTreeProbingInfo(*o.g)); }
      else if (how == 2) { LibCall L; c.g = own(op.ai(2) & 1 ? new CglTreeProbingInfo(root.get()) : new CglTreeProbingInfo()); *c.g = *o.g; }
      else { size_t t = op.ai(2) % st.size(); { LibCall L; *st[t].g = *o.g; } auto keep = st[t].g; Store m = o; st[t] = m; st[t].g = keep; r.inc("assignments"); return; }
      r.inc("copies"); if (st.size() < 5) st.push_back(c); else st[op.ai(2) % st.size()] = c;
    } else if (nm == "kill") { if (st.size() > 1) st.erase(st.begin() + idx); }
    else if (nm == "analyze") {
      if (o.empty || o.full || !p.rows.size()) return; std::shared_ptr<OsiSolverInterface> nw; { LibCall L; nw.reset(o.g->analyze(*root, 1, op.ai(1) & 1 ? -1 : 0)); } if (o.state == 0) o.state = 1; r.inc("analyses"); if (!nw) return;
      r.inc("analyses-new-model"); Oracle orc; orc.build(p, 4000); const CoinPackedMatrix *M = nw->getMatrixByRow();
      for (auto &y : orc.pts) {
        bool ok = true; for (auto &m : o.imp) if (y[m.i] == m.v && y[m.k] != (m.t ? p.ub[m.k] : p.lb[m.k])) ok = false;
        if (!ok) continue;
        for (int i = 0; i < nw->getNumRows(); i++) { double a = 0; CoinBigIndex b = M->getVectorStarts()[i]; for (int k = 0; k < M->getVectorLengths()[i]; k++) a += M->getElements()[b + k] * y[M->getIndices()[b + k]]; if (a > nw->getRowUpper()[i] + 1e-7 || a < nw->getRowLower()[i] - 1e-7) { std::string t; for (double v : y) t += " " + num(v); r.fail("clique model loses a point", fmt("row %d of the clique model excludes", i) + t); return; } }
      }
    }
  }
  void run() {
    root.reset(makeSolver(p)); node.reset(dynamic_cast<OsiClpSolverInterface *>(root->clone())); num_.assign(p.n, -1);
    for (int j = 0; j < p.n; j++) if (p.binary(j)) { num_[j] = (int)bin.size(); bin.push_back(j); }
    if (bin.empty() || bin.size() > 12) return;
    { Op b; b.name = "box"; b.a = {0, (double)s.seed, 0}; step(b); }
    for (auto &op : s.ops) { step(op); r.log(op.text()); if (r.v.on) return; }
  }
};
}
void runProbing(const Scenario &s, Result &r) { if (s.probs.empty()) return; Sim q(s, r); q.run(); }
Scenario genProbing(const std::string &prop, uint64_t seed) {
  Rng r(seed * 2654435761ull + 5501); Scenario s; s.prop = prop; s.seed = seed; s.env["sim"] = 5;
  Problem p; int n = r.range(2, 8); std::vector<int> bin;
  for (int j = 0; j < n; j++) { int t = r.below(8); if (t < 6 || j == 0) { p.addCol(0, 1, true, r.range(-3, 3)); bin.push_back(j); } else if (t == 6) { double l = r.range(-2, 2); p.addCol(l, l + r.range(1, 4), true, 1); } else p.addCol(r.range(-1, 0), r.range(1, 5), false, 1); }
  int m = r.range(1, 3); for (int i = 0; i < m; i++) { Row q; q.lo = -INF; q.hi = 1; double neg = 0; for (int j : bin) if (r.chance(1, 2)) { q.idx.push_back(j); q.val.push_back(r.chance(1, 5) ? -1 : 1); if (q.val.back() < 0) neg++; } q.hi -= neg; if (r.chance(1, 4)) q.lo = q.hi; if (q.idx.size() >= 2) p.rows.push_back(q); }
  if (p.rows.empty()) { Row q; q.lo = -INF; q.hi = 2; q.idx = {0, 1}; q.val = {1, 1}; p.rows.push_back(q); }
  p.family = "imp"; s.probs.push_back(p);
  auto add = [&](const char *nm, std::vector<double> a) { Op o; o.name = nm; o.a = a; s.ops.push_back(o); };
  add("new", {0, (double)r.below(6)}); if (r.chance(4, 5)) add("init", {0});
  int len = r.range(8, 40), wr = r.range(4, 14), wc = r.below(3), wq = r.range(1, 4), wx = r.below(2); bool consistent = r.chance(2, 3); std::vector<int> y(n); for (auto &v : y) v = r.below(2);
  for (int i = 0; i < len; i++) {
    double a = r.below(6); int t = r.below(wr + wc + wq * 4 + wx + 4);
    if ((t -= wr) < 0) { int x = r.pick(bin), k = r.below(n), v = r.below(2), sd = r.below(2); if (r.chance(1, 15)) x = r.below(n); if (consistent && v == y[x]) sd = y[k]; add("rec", {a, (double)x, (double)v, (double)k, (double)sd}); if (r.chance(1, 3)) add("rec", {a, (double)k, (double)(1 - sd), (double)x, (double)(1 - v)}); }
    else if ((t -= wc) < 0) add(r.chance(1, 8) ? "kill" : "copy", {a, (double)r.below(4), (double)r.below(4)});
    else if ((t -= wq) < 0) add("fixall", {a}); else if ((t -= wq) < 0) add("fixone", {a, (double)r.below(n), (double)r.below(2)});
    else if ((t -= wq) < 0) add("gen", {a}); else if ((t -= wq) < 0) add("stored", {a, (double)r.below(2)});
    else if ((t -= wx) < 0) add(r.chance(1, 3) ? "analyze" : "convert", {a, (double)r.below(2)});
    else if (t == 0) add("box", {0, (double)r.below(100000), (double)r.below(5)});
    else if (t == 1) add("pack", {a}); else if (t == 2) add("convert", {a}); else add(r.chance(1, 2) ? "new" : "init", {a, (double)r.below(6)});
  }
  if (r.chance(1, 400) && bin.size() > 1) { add("flood", {0, (double)r.below(10000)}); add("convert", {0}); add("gen", {0}); }
  // make sure something is asked at the end
  for (int i = 0; i < 3; i++) { double a = i; add(r.chance(1, 2) ? "pack" : "convert", {a}); add("box", {0, (double)r.below(100000), (double)r.below(4)}); add("fixall", {a}); add("gen", {a}); add("stored", {a, 0}); add("fixone", {a, (double)r.below(n), (double)r.below(2)}); }
  if (r.chance(1, 6)) add("analyze", {0, (double)r.below(2)});
  return s;
}
