// Simulation 8: parallel branch and cut.  A coordinator keeps open nodes, leases and the incumbent
// (durable); workers own a solver, generators and the shared cuts they happen to have received, and
// lose all of it when they crash.  Results and shared cuts travel over a channel that loses, repeats,
// delays and reorders; leases expire (also those of workers that are merely slow); LP answers are
// stopped early or perturbed before a generator sees them.  When the listed operations are used up the
// faults stop and the search has to end with the value found by exhaustive enumeration.
#include "scenario.h"
#include "hooks.h"
extern void note(const std::string &);
namespace {
typedef std::vector<double> Vec;
struct RCut { OsiRowCut c; double lo, up; };
struct Node { int id; Vec lo, up; std::vector<OsiRowCut> local; int leased = -1; bool done = false; int depth = 0; };
struct Msg { int kind; int to, node; std::vector<Node> kids; std::vector<Vec> sols; OsiRowCut cut; Vec lo, up; }; // 0 result to coordinator, 1 shared cut, 2 shared root bounds
struct Wk {
  std::shared_ptr<OsiClpSolverInterface> si; std::vector<std::shared_ptr<CglCutGenerator>> g; std::vector<OsiRowCut> pool; Vec rlo, rup; // bounds known to hold everywhere
  int node = -1, phase = 0, rounds = 0, attempt = 0; bool clean = false, cutoff = false; Vec lo, up; std::vector<OsiRowCut> local; int depth = 0; std::string why; bool lpSays = false;
};
struct Sim {
  const Scenario &s; Result &r; const Problem &p; std::shared_ptr<OsiClpSolverInterface> root; std::vector<Wk> w; std::vector<Node> nodes; std::vector<Msg> net;
  double best = 1e100; Vec bestX; long lps = 0, steps = 0; Hash inter; bool capped = false; std::vector<std::shared_ptr<CglCutGenerator>> proto;
  Sim(const Scenario &a, Result &b) : s(a), r(b), p(a.probs[0]) {}
  static std::shared_ptr<CglCutGenerator> own(CglCutGenerator *q) { return std::shared_ptr<CglCutGenerator>(q, [](CglCutGenerator *z) { LibCall L; delete z; }); }
  std::shared_ptr<CglCutGenerator> build(const GenCfg &c) { std::shared_ptr<CglCutGenerator> g; { LibCall L; g = own(buildGen(c, p)); if (g) { configure(g.get(), c, p); std::unique_ptr<OsiSolverInterface> cl(root->clone()); attach(g.get(), c, p, cl.get()); } } return g; }
  void boot(Wk &k) { k = Wk(); k.rlo = p.lb; k.rup = p.ub; for (size_t i = 0; i < s.gens.size(); i++) { if (s.e("proto")) { LibCall L; k.g.push_back(own(proto[i]->clone())); } else k.g.push_back(build(s.gens[i])); } }
  double objOf(const Vec &x) { double v = 0; for (int j = 0; j < p.n; j++) v += p.obj[j] * x[j]; return v; }
  bool feasible(const Vec &x) {
    for (int j = 0; j < p.n; j++) if (x[j] < p.lb[j] - 1e-6 || x[j] > p.ub[j] + 1e-6 || (p.isInt[j] && x[j] != floor(x[j] + 0.5))) return false;
    for (auto &t : p.rows) { double a = 0, m = 1; for (size_t k = 0; k < t.idx.size(); k++) { a += t.val[k] * x[t.idx[k]]; m += fabs(t.val[k] * x[t.idx[k]]); } if ((t.hi < INF && a > t.hi + 1e-7 * m) || (t.lo > -INF && a < t.lo - 1e-7 * m)) return false; }
    for (auto &q : p.alldiff) for (size_t a = 0; a < q.size(); a++) for (size_t b = a + 1; b < q.size(); b++) if (q[a] != q[b] && x[q[a]] == x[q[b]]) return false;
    return true;
  }
  // a row valid up to the tolerance of the single-cut check never removes a point
  void addRow(OsiClpSolverInterface &si, const OsiRowCut &rc) {
    if (si.getNumRows() > 80) return; const CoinPackedVector &v = rc.row(); double m = 1e-3; for (int k = 0; k < v.getNumElements(); k++) { int j = v.getIndices()[k]; m += fabs(v.getElements()[k]) * (1 + std::max(fabs(p.lb[j]), fabs(p.ub[j]))); }
    double lo = rc.lb(), up = rc.ub(); if (lo > -BIG) lo -= 2e-6 * (m + std::min(fabs(lo), 1e6)); if (up < BIG) up += 2e-6 * (m + fabs(up)); si.addRow(v, lo > -BIG ? lo : -COIN_DBL_MAX, up < BIG ? up : COIN_DBL_MAX);
  }
  void lp(Wk &k, int limit) { int old; k.si->getIntParam(OsiMaxNumIteration, old); if (limit >= 0) { k.si->setIntParam(OsiMaxNumIteration, limit); r.inc("fault-lp-stopped-early"); } k.si->resolve(); k.si->setIntParam(OsiMaxNumIteration, old); k.clean = limit < 0 && k.si->isProvenOptimal(); lps++; }
  // an LP stopped early may report infeasibility it has not proved: ask again from scratch
  bool lpInfeasible(Wk &k) { if (!k.si->isProvenPrimalInfeasible()) return false; std::unique_ptr<OsiClpSolverInterface> c(freshCopy(*k.si)); c->initialSolve(); lps++; if (c->isProvenPrimalInfeasible()) return true; r.inc("lp-infeasibility-withdrawn"); k.si.reset(c.release()); k.clean = k.si->isProvenOptimal(); return false; }
  static OsiClpSolverInterface *freshCopy(OsiClpSolverInterface &a) { OsiClpSolverInterface *c = new OsiClpSolverInterface(); c->messageHandler()->setLogLevel(0); c->getModelPtr()->setLogLevel(0); c->loadProblem(*a.getMatrixByCol(), a.getColLower(), a.getColUpper(), a.getObjCoefficients(), a.getRowLower(), a.getRowUpper()); for (int j = 0; j < a.getNumCols(); j++) if (a.isInteger(j)) c->setInteger(j); return c; }
  int stopNext = -1; int pointNext = -1;
  void infeasibleMark(Wk &k, const std::string &what) { k.cutoff = true; r.inc("pruned-by-generator"); k.why = what; }
  void candidate(Wk &k, std::vector<Vec> &sols) { // integer point: complete the continuous part on the original model
    Vec y(k.si->getColSolution(), k.si->getColSolution() + p.n); std::unique_ptr<OsiClpSolverInterface> c(dynamic_cast<OsiClpSolverInterface *>(root->clone())); bool cont = false;
    for (int j = 0; j < p.n; j++) if (p.isInt[j]) { y[j] = floor(y[j] + 0.5); if (y[j] < p.lb[j] || y[j] > p.ub[j]) return; c->setColBounds(j, y[j], y[j]); } else cont = true;
    if (cont) { c->initialSolve(); lps++; if (!c->isProvenOptimal()) return; for (int j = 0; j < p.n; j++) if (!p.isInt[j]) y[j] = c->getColSolution()[j]; }
    if (feasible(y)) sols.push_back(y);
  }
  Vec wx; std::string lostAt;
  bool holds(const Vec &lo, const Vec &up) { if (wx.empty()) return false; for (int j = 0; j < p.n; j++) if (p.isInt[j] && (wx[j] < lo[j] - 1e-6 || wx[j] > up[j] + 1e-6)) return false; return true; }
  bool lpHas(const OsiClpSolverInterface &si) {
    if (wx.empty() || !inBox(wx, si.getColLower(), si.getColUpper())) return false; const CoinPackedMatrix *M = si.getMatrixByRow();
    for (int i = 0; i < si.getNumRows(); i++) { double a = 0, m = 1; for (int q = 0; q < M->getVectorLengths()[i]; q++) { CoinBigIndex z = M->getVectorStarts()[i] + q; double v = M->getElements()[z] * wx[M->getIndices()[z]]; a += v; m += fabs(v); } if (a > si.getRowUpper()[i] + 1e-7 * m || a < si.getRowLower()[i] - 1e-7 * m) return false; }
    return true;
  }
  void finish(Wk &k, const std::vector<Node> &kids, const std::vector<Vec> &sols, const char *why = "") {
    if (kids.empty() && sols.empty() && k.si && k.lpSays && !wx.empty() && best > objOf(wx) + 1e-5 * (1 + fabs(objOf(wx))) && lpHas(*k.si)) { capped = true; r.inc("lp-answer-wrong"); } // the LP solver contradicts a point that satisfies its own rows: no verdict
    if (lostAt.empty() && kids.empty() && k.node >= 0 && holds(nodes[k.node].lo, nodes[k.node].up) && best > objOf(wx) + 1e-5 * (1 + fabs(objOf(wx)))) { bool got = false; for (auto &x : sols) if (objOf(x) <= objOf(wx) + 1e-5 * (1 + fabs(objOf(wx)))) got = true; if (!got) lostAt = std::string("node ") + std::to_string(k.node) + " given up: " + why; }
    Msg m; m.kind = 0; m.to = -1; m.node = k.node; m.kids = kids; m.sols = sols; net.push_back(m); r.inc("msg-results"); k.node = -1; k.phase = 0; }
  Node kid(Wk &k, int j, double lo, double up) { Node n; n.id = -1; n.lo = k.lo; n.up = k.up; n.lo[j] = lo; n.up[j] = up; n.depth = k.depth + 1; if (s.e("inherit")) n.local = k.local; return n; }
  void step(Wk &k, int wi, Rng &q) {
    steps++; inter.i(wi * 8 + k.phase); note("search| step of worker " + std::to_string(wi) + " phase " + std::to_string(k.phase));
    if (k.node < 0) { // lease a node
      int pick = -1, c = 0; for (auto &n : nodes) if (!n.done && n.leased < 0 && (pick < 0 || q.below(++c + 1) == 0)) pick = n.id;
      if (pick < 0) return; Node &n = nodes[pick]; n.leased = wi; k.node = pick; k.lo = n.lo; k.up = n.up; k.local = n.local; k.depth = n.depth; k.phase = 1; k.cutoff = k.lpSays = false; k.rounds = (int)s.e("rounds", 2) * (n.depth == 0 ? 2 : 1); return;
    }
    if (k.phase == 1) { // set up and solve
      k.si.reset(dynamic_cast<OsiClpSolverInterface *>(root->clone()));
      for (int j = 0; j < p.n; j++) { k.lo[j] = std::max(k.lo[j], k.rlo[j]); k.up[j] = std::min(k.up[j], k.rup[j]); if (k.lo[j] > k.up[j] + 1e-9) { infeasibleMark(k, "bounds"); break; } k.si->setColBounds(j, k.lo[j], std::max(k.lo[j], k.up[j])); }
      if (k.cutoff) { finish(k, {}, {}, "bounds crossed before the LP"); return; }
      for (auto &c : k.pool) addRow(*k.si, c); for (auto &c : k.local) addRow(*k.si, c);
      k.si->initialSolve(); lps++; k.clean = k.si->isProvenOptimal(); k.phase = 2; r.inc("nodes"); return;
    }
    if (k.phase == 2) { // separation round or decision
      bool infeasible = lpInfeasible(k); bool proven = k.si->isProvenOptimal();
      if (infeasible) { k.lpSays = true; finish(k, {}, {}, "LP infeasible"); r.inc("pruned-infeasible"); return; }
      if (proven && k.clean && k.si->getObjValue() >= best - 1e-6) { k.lpSays = true; finish(k, {}, {}, "bound"); r.inc("pruned-bound"); return; }
      if (k.rounds > 0 && !k.g.empty()) { k.rounds--; separate(k, wi, q); if (k.cutoff) finish(k, {}, {}, ("generator said infeasible: " + k.why).c_str()); return; }
      decide(k, q, proven); return;
    }
  }
  void separate(Wk &k, int wi, Rng &q) {
    size_t gi = q.below((int)k.g.size()); const GenCfg &c = s.gens[gi]; CglCutGenerator *g = k.g[gi].get(); if (!g) return; bool extra = k.si->getNumRows() != (int)p.rows.size();
    if (c.kind == "LIFT" && extra) return;
    Vec saved(k.si->getColSolution(), k.si->getColSolution() + p.n); bool moved = false;
    if (pointNext >= 0) { Rng z((uint64_t)pointNext); Vec x = saved; if (z.chance(1, 2)) { double e = z.chance(1, 2) ? 1e-6 : 1e-3; for (auto &v : x) v += e * (2 * z.unit() - 1); } else for (int j = 0; j < p.n; j++) x[j] = k.lo[j] + (k.up[j] - k.lo[j]) * (z.chance(1, 3) ? 0.5 : z.unit()); k.si->setColSolution(x.data()); moved = true; pointNext = -1; r.inc("fault-lp-perturbed"); }
    if (c.kind == "REDS") {
      if (!k.clean || moved) return; std::unique_ptr<OsiClpSolverInterface> t(dynamic_cast<OsiClpSolverInterface *>(k.si->clone())); k.si->enableFactorization(); bool same = true; for (int j = 0; j < p.n; j++) if (!(fabs(k.si->getColSolution()[j] - saved[j]) <= 1e-7 * (1 + fabs(saved[j])))) same = false; k.si->disableFactorization(); if (!same) return;
    }
    CoinThreadRandom rnd(12345); CglTreeInfo info; info.inTree = k.depth > 0; info.level = k.depth; info.pass = q.below(3); info.options = q.chance(1, 3) ? 16 : 0; info.formulation_rows = (int)p.rows.size(); info.randomNumberGenerator = &rnd;
    OsiCuts cs; note(c.kind + "| in search"); { LibCall L; g->generateCuts(*k.si, cs, info); } r.inc("calls"); r.inc("calls-" + c.kind);
    if (cs.sizeRowCuts() + cs.sizeColCuts()) { r.inc("calls-with-cuts"); Hash h; h.s(c.kind); h.s(dumpCuts(cs)); for (double v : k.lo) h.d(v); for (double v : k.up) h.d(v); r.states.insert(h.h); }
    r.log("w" + std::to_string(wi) + " n" + std::to_string(k.node) + " " + c.kind + "\n" + dumpCuts(cs));
    bool isRoot = true; for (int j = 0; j < p.n; j++) if (k.lo[j] > k.rlo[j] || k.up[j] < k.rup[j]) isRoot = false; if (!k.local.empty()) isRoot = false; // then bound changes hold everywhere
    for (int i = 0; i < cs.sizeColCuts(); i++) { const OsiColCut &cc = *cs.colCutPtr(i);
      for (int z = 0; z < cc.lbs().getNumElements(); z++) { int j = cc.lbs().getIndices()[z]; double b = cc.lbs().getElements()[z] - (p.isInt[j] ? 0 : 1e-6); k.lo[j] = std::max(k.lo[j], b); } for (int z = 0; z < cc.ubs().getNumElements(); z++) { int j = cc.ubs().getIndices()[z]; double b = cc.ubs().getElements()[z] + (p.isInt[j] ? 0 : 1e-6); k.up[j] = std::min(k.up[j], b); } r.inc("bound-changes"); }
    for (int j = 0; j < p.n; j++) { if (k.lo[j] > k.up[j] + 1e-9) { infeasibleMark(k, "crossed bounds"); return; } k.si->setColBounds(j, k.lo[j], std::max(k.lo[j], k.up[j])); }
    if (isRoot && cs.sizeColCuts()) for (size_t o = 0; o < w.size(); o++) { Msg m; m.kind = 2; m.to = (int)o; m.lo = k.lo; m.up = k.up; net.push_back(m); r.inc("msg-bounds"); }
    if (c.kind == "LIFT") for (int i = 0; i < cs.sizeRowCuts(); i++) { OsiRowCut &rc = *cs.rowCutPtr(i); double m = 1 + fabs(rc.lb()); for (int q = 0; q < rc.row().getNumElements(); q++) m += fabs(rc.row().getElements()[q]) * (1 + std::max(fabs(p.lb[rc.row().getIndices()[q]]), fabs(p.ub[rc.row().getIndices()[q]]))); if (rc.lb() > -BIG) rc.setLb(rc.lb() - 1e-4 * m); } // multipliers come from an LP solved to its tolerance
    for (int i = 0; i < cs.sizeRowCuts(); i++) { const OsiRowCut &rc = *cs.rowCutPtr(i); if (rc.lb() > rc.ub()) { infeasibleMark(k, "marker"); return; } if (rc.row().getNumElements() == 0) { if (rc.lb() > 1e-9 || rc.ub() < -1e-9) { infeasibleMark(k, "empty row"); return; } continue; }
      if (i < 12) { addRow(*k.si, rc); if (rc.globallyValid()) { if (k.pool.size() < 30) k.pool.push_back(rc); for (size_t o = 0; o < w.size(); o++) if ((int)o != wi && net.size() < 300) { Msg m; m.kind = 1; m.to = (int)o; m.cut = rc; net.push_back(m); r.inc("msg-cuts"); } } else if (k.local.size() < 30) k.local.push_back(rc); } }
    int lim = stopNext; stopNext = -1; lp(k, lim);
  }
  void decide(Wk &k, Rng &q, bool proven) {
    std::vector<Vec> sols; const double *x = k.si->getColSolution(); int j = -1; double frac = 1e-6;
    if (!proven || !k.clean) { k.si.reset(freshCopy(*k.si)); k.si->initialSolve(); lps++; k.clean = k.si->isProvenOptimal(); proven = k.clean; if (k.si->isProvenPrimalInfeasible()) { k.lpSays = true; finish(k, {}, {}, "LP infeasible at decision"); return; } if (proven && k.si->getObjValue() >= best - 1e-6) { k.lpSays = true; finish(k, {}, {}, "bound at decision"); return; } x = k.si->getColSolution(); r.inc("lp-repeated"); }
    if (proven) {
      for (int i = 0; i < p.n; i++) if (p.isInt[i]) { double f = fabs(x[i] - floor(x[i] + 0.5)); if (f > frac && (j < 0 || q.chance(1, 2))) j = i; }
      if (j < 0) { size_t before = sols.size(); candidate(k, sols); if (sols.size() > before && objOf(sols.back()) <= k.si->getObjValue() + 1e-5 * (1 + fabs(k.si->getObjValue()))) { r.inc("integer-nodes"); finish(k, {}, sols, "integer LP solution"); return; } }
    }
    if (j < 0) for (int i = 0; i < p.n; i++) if (p.isInt[i] && k.up[i] - k.lo[i] > 0.5 && (j < 0 || q.chance(1, 2))) j = i; // nothing fractional to go by
    if (j < 0) { // all integers fixed: decide on the original model
      std::unique_ptr<OsiClpSolverInterface> c(dynamic_cast<OsiClpSolverInterface *>(root->clone())); for (int i = 0; i < p.n; i++) if (p.isInt[i]) c->setColBounds(i, k.lo[i], k.lo[i]); c->initialSolve(); lps++;
      if (c->isProvenOptimal()) { Vec y(c->getColSolution(), c->getColSolution() + p.n); for (int i = 0; i < p.n; i++) if (p.isInt[i]) y[i] = floor(k.lo[i] + 0.5); if (feasible(y)) sols.push_back(y); } finish(k, {}, sols, "all integers fixed"); return; }
    double v = x[j]; if (!(v > k.lo[j] + 1e-6 && v < k.up[j] - 1e-6)) v = floor((k.lo[j] + k.up[j]) / 2) + 0.5; else if (fabs(v - floor(v + 0.5)) < 1e-6) v = floor(v + 0.5) < k.up[j] - 0.5 ? floor(v + 0.5) + 0.5 : floor(v + 0.5) - 0.5;
    finish(k, {kid(k, j, k.lo[j], floor(v)), kid(k, j, ceil(v), k.up[j])}, sols); r.inc("branchings");
  }
  void deliver(size_t i, bool keep) {
    Msg m = net[i]; if (!keep) net.erase(net.begin() + i);
    if (m.kind == 0) {
      for (auto &x : m.sols) if (feasible(x) && objOf(x) < best) { best = objOf(x); bestX = x; }
      Node &n = nodes[m.node]; if (n.done) { r.inc("duplicate-results-ignored"); return; } n.done = true; n.leased = -1; n.local.clear(); for (auto &c : m.kids) { Node z = c; z.id = (int)nodes.size(); nodes.push_back(z); }
    } else if (m.kind == 1) { Wk &k = w[m.to]; if (k.pool.size() < 40) k.pool.push_back(m.cut); r.inc("msg-cuts-delivered"); if (k.si && k.node >= 0 && k.phase == 2) { addRow(*k.si, m.cut); lp(k, -1); } }
    else { Wk &k = w[m.to]; for (int j = 0; j < p.n; j++) { k.rlo[j] = std::max(k.rlo[j], m.lo[j]); k.rup[j] = std::min(k.rup[j], m.up[j]); } }
  }
  bool over() { for (auto &n : nodes) if (!n.done) return false; return true; }
  void run() {
    root.reset(makeSolver(p)); Oracle orc; orc.build(p, 20000); if (!orc.complete) { r.inc("skipped"); return; } double want = 1e100; for (auto &x : orc.pts) if (objOf(x) < want) { want = objOf(x); wx = x; }
    if (s.e("proto")) for (auto &c : s.gens) proto.push_back(build(c));
    w.resize(std::max(1, (int)s.e("workers", 1))); for (auto &k : w) boot(k); Node n; n.id = 0; n.lo = p.lb; n.up = p.ub; nodes.push_back(n);
    size_t W = w.size(); long oi = 0;
    for (auto &op : s.ops) { if (over() || capped) break; oi++; const std::string &nm = op.name; int wi = (int)(op.ai(0) % (int)W); Rng q((uint64_t)op.arg(1) * 977 + 5);
      if (nm == "step") step(w[wi], wi, q);
      else if (nm == "net") { if (net.empty()) continue; size_t i = op.ai(1) % net.size(); if (i) r.inc("fault-msg-reordered"); if (op.ai(2) == 1) { deliver(i, true); r.inc("fault-msg-duplicated"); } else if (op.ai(2) == 2) { net.erase(net.begin() + i); r.inc("fault-msg-lost"); } else deliver(i, false); }
      else if (nm == "crash") { boot(w[wi]); r.inc("fault-worker-crash"); }
      else if (nm == "expire") { std::vector<int> l; for (auto &z : nodes) if (!z.done && z.leased >= 0) l.push_back(z.id); if (l.empty()) continue; nodes[l[op.ai(1) % l.size()]].leased = -1; r.inc("fault-lease-expired"); }
      else if (nm == "stop") stopNext = op.ai(1) % 4; else if (nm == "point") pointNext = op.ai(1);
      inter.i((long long)net.size()); inter.i((long long)nodes.size());
    }
    // faults stop here: fair scheduling has to finish the search
    Rng q(s.seed * 7 + 1); stopNext = pointNext = -1;
    for (long round = 0; !over() && !r.v.on && !capped; round++) {
      if (lps > 6000 || steps > 30000) { capped = true; break; }
      for (size_t i = 0; i < W; i++) step(w[i], (int)i, q);
      while (!net.empty() && (net.size() > 6 || round % 3 == 0)) deliver(0, false);
      for (auto &z : nodes) if (!z.done && z.leased >= 0 && w[z.leased].node != z.id) { bool inflight = false; for (auto &m : net) if (m.kind == 0 && m.node == z.id) inflight = true; if (!inflight) z.leased = -1; }
    }
    if (capped) { r.inc("capped"); return; }
    r.inc("searches"); r.states.insert(inter.h); r.log(fmt("value %.9g", best)); r.inc("lp-solves", lps);
    std::string t; for (double v : wx) t += " " + num(v);
    if (orc.pts.empty()) { r.inc("infeasible-models"); if (best < 1e99) r.fail("search invents a solution", "the model has no feasible point"); }
    else if (best > 1e99) r.fail("search finds no solution", fmt("optimum %.9g at", want) + t + "; " + lostAt);
    else if (best > want + 1e-5 * (1 + fabs(want))) r.fail("search misses the optimum", fmt("found %.9g, true optimum %.9g at", best, want) + t + "; " + lostAt);
  }
};
}
void runSearch(const Scenario &s, Result &r) { if (s.probs.empty() || s.probs[0].rows.empty()) return; Sim q(s, r); q.run(); }
Scenario genSearch(const std::string &prop, uint64_t seed) {
  Rng r(seed * 2654435761ull + 8803); Scenario s; s.prop = prop; s.seed = seed; s.env["sim"] = 8;
  static const std::vector<std::string> fam = {"knap", "knap", "eqk", "vub", "mixed", "mixed", "gen", "gen", "pack", "pack", "cover", "zh", "zh", "dup", "canon", "alld"};
  Problem p; for (int t = 0; t < 20; t++) {
    p = randomProblem(r, r.pick(fam)); if (p.rows.empty()) { Row q; q.lo = -INF; q.hi = 1e5; q.idx = {0}; q.val = {1}; p.rows.push_back(q); }
    double pr = 1; int nc = 0; for (int j = 0; j < p.n; j++) { if (p.lb[j] <= -INF) p.lb[j] = p.ub[j] >= INF ? -3 : p.ub[j] - 5; if (p.ub[j] >= INF) p.ub[j] = p.lb[j] + 6; if (p.isInt[j]) pr *= p.ub[j] - p.lb[j] + 1; else nc++; p.obj[j] = r.chance(1, 3) ? r.range(-9, 9) : p.obj[j]; } if (pr <= 6000 && nc <= 3) break;
    p = Problem(); }
  if (!p.n) { p = randomProblem(r, "pack"); } s.probs.push_back(p);
  std::vector<std::string> kinds; for (auto &k : allKinds()) if (suits(k, p)) kinds.push_back(k);
  int ng = r.range(1, 4); for (int i = 0; i < ng; i++) { GenCfg c = randomCfg(r, r.pick(kinds), p); if (c.kind == "MIRO") c.p["preproc"] = 1; if (c.kind == "CLIQ") c.p["packing"] = 0; s.gens.push_back(c); }
  int W = r.range(1, 4); s.env["workers"] = W; s.env["proto"] = r.chance(1, 3); s.env["inherit"] = r.chance(1, 2); s.env["rounds"] = r.range(1, 4);
  bool faults = !r.chance(1, 5); int len = r.range(20, 160), wn = r.range(1, 6), wf = r.below(4), wc = r.below(2), we = r.below(3), wl = r.below(3), wp = r.below(3); if (!faults) wf = wc = we = wl = wp = 0;
  for (int i = 0; i < len; i++) { Op o; int t = r.below(10 + wn + wf + wc + we + wl + wp); double k = r.below(W), z = r.below(100000);
    if ((t -= 10) < 0) { o.name = "step"; o.a = {k, z}; } else if ((t -= wn) < 0) { o.name = "net"; o.a = {0, faults ? z : 0, 0}; } else if ((t -= wf) < 0) { o.name = "net"; o.a = {0, z, (double)r.range(1, 2)}; } else if ((t -= wc) < 0) { o.name = "crash"; o.a = {k}; } else if ((t -= we) < 0) { o.name = "expire"; o.a = {0, z}; } else if ((t -= wl) < 0) { o.name = "stop"; o.a = {0, z}; } else { o.name = "point"; o.a = {0, z}; }
    s.ops.push_back(o); }
  return s;
}
