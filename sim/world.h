// Simulation 0: a population of branch-and-cut workers.  Every worker owns a solver (real Clp), a
// node (variable bounds + rows added so far) and generator objects.  The operation list decides
// branching, LP answers (optimal, stopped early, stale, perturbed, foreign), messages carrying cuts
// between workers (delayed, duplicated, lost, reordered), copies, settings, clock faults.
#pragma once
#include "scenario.h"
#include "hooks.h"
#include "CoinHelperFunctions.hpp"

typedef std::shared_ptr<OsiSolverInterface> SolverP;
struct Event { int type; SolverP s; std::string key; double val; CglTreeInfo info; int prob; }; // 0 attach 1 set 2 call
struct GenObj {
  std::shared_ptr<CglCutGenerator> g; GenCfg cfg; int prob = 0, prob0 = 0; bool copied = false;
  int primed = 0; // aggregation of mixed-integer rounding caches the rows of the first model it sees after a refresh: 1 root rows, 2 more
  std::vector<Event> log; // everything that happened to this object (or to the one it was copied from)
};
struct Worker {
  std::shared_ptr<OsiClpSolverInterface> si; int prob = 0;
  std::vector<GenObj> gens;
  std::shared_ptr<OsiCuts> cs; int rowMark = 0, colMark = 0; // not applied yet from here
  int sentMark = 0;
  bool atRoot = true, clean = false; int depth = 0;
  std::vector<Point> seen;
  std::vector<OsiRowCut> inbox;
};
extern void note(const std::string &);

struct World {
  const Scenario &s; Result &r;
  std::vector<Worker> w;
  std::vector<std::shared_ptr<OsiClpSolverInterface>> roots;
  std::vector<Oracle> orc;
  std::map<std::string, Oracle> subOrc;
  std::vector<std::vector<const Point *>> all;
  std::vector<GenObj> *protos = nullptr; int protoHow = 0; // generators to copy from (simulated threads)
  World(const Scenario &s_, Result &r_) : s(s_), r(r_) {}
  const Problem &prob(int k) const { return s.probs[k]; }

  GenObj build(const GenCfg &c, int pr) {
    GenObj o; o.cfg = c; o.prob = o.prob0 = pr;
    { LibCall L; o.g.reset(buildGen(c, prob(pr)), [](CglCutGenerator *g) { LibCall L; delete g; }); }
    if (!o.g) return o;
    { LibCall L; configure(o.g.get(), c, prob(pr)); }
    { SolverP cl(roots[pr]->clone()); { LibCall L; attach(o.g.get(), c, prob(pr), cl.get()); } checkAttach(o, pr, *cl); }
    return o;
  }
  // giving a generator the model may tighten that copy of the model (cliques of the knapsack generator): no feasible point may be lost
  void checkAttach(const GenObj &o, int pr, OsiSolverInterface &cl) {
    if (s.prop != "C03" || pr >= (int)orc.size()) return; int n = prob(pr).n; bool ch = false;
    for (int j = 0; j < n; j++) if (cl.getColLower()[j] != roots[pr]->getColLower()[j] || cl.getColUpper()[j] != roots[pr]->getColUpper()[j]) ch = true;
    if (!ch) return; r.inc("tightened-when-given-the-model");
    for (auto &x : orc[pr].pts) for (int j = 0; j < n; j++) if (x[j] < cl.getColLower()[j] - 1e-6 || x[j] > cl.getColUpper()[j] + 1e-6) { r.fail("feasible point lost " + o.cfg.kind, fmt("when given the model: column %d now in [%g,%g] but ", j, cl.getColLower()[j], cl.getColUpper()[j]) + ptText(x) + " is feasible"); return; }
  }
  static bool listsFit(const GenCfg &, const Problem &) { return true; }
  void makeWorker(Worker &k, int pr) {
    k.prob = pr; k.si.reset(dynamic_cast<OsiClpSolverInterface *>(roots[pr]->clone()));
    k.si->initialSolve();
    k.clean = k.si->isProvenOptimal(); k.atRoot = true; k.depth = 0;
    k.cs.reset(new OsiCuts()); k.rowMark = k.colMark = k.sentMark = 0;
    k.inbox.clear();
  }
  void remember(Worker &k) { Point x(k.si->getColSolution(), k.si->getColSolution() + prob(k.prob).n); k.seen.push_back(x); if (k.seen.size() > 6) k.seen.erase(k.seen.begin()); }
  void init() {
    for (auto &p : s.probs) {
      roots.emplace_back(makeSolver(p));
      orc.emplace_back(); orc.back().build(p, s.prop == "C07" ? 400 : 20000);
    }
    for (auto &o : orc) { all.emplace_back(); for (auto &x : o.pts) all.back().push_back(&x); }
    int nw = std::max(1, (int)s.e("workers", 1));
    w.resize(nw);
    std::vector<GenObj> proto;
    for (int i = 0; i < nw; i++) {
      makeWorker(w[i], 0); remember(w[i]);
      for (size_t q = 0; q < s.gens.size(); q++) {
        const GenCfg &c = s.gens[q];
        if (protos) { GenObj o = copyOf((*protos)[q], (i + protoHow) % 3); o.log.clear(); w[i].gens.push_back(o); } else
        if (s.e("proto") && i > 0) { w[i].gens.push_back(copyOf(w[0].gens[q], i % 3)); }
        else w[i].gens.push_back(build(c, 0));
        if (!w[i].gens.back().g) w[i].gens.pop_back();
      }
    }
  }
  GenObj copyOf(GenObj &o, int how) {
    GenObj c = o; c.copied = o.copied = true;
    LibCall L;
    auto del = [](CglCutGenerator *g) { LibCall L2; delete g; };
    if (how == 0) c.g.reset(o.g->clone(), del);
    else if (how == 1) c.g.reset(copyConstruct(o.g.get(), o.cfg.kind), del);
    else {
      c.g.reset(buildGen(o.cfg, prob(o.prob)), del);
      if (s.seed & 1) { configure(c.g.get(), o.cfg, prob(o.prob)); }
      if (!assignTo(c.g.get(), o.g.get(), o.cfg.kind)) c.g.reset(o.g->clone(), del);
    }
    if (needsAttachAfterCopy(o.cfg.kind)) doAttach(c);
    return c;
  }
  void doAttach(GenObj &o) {
    SolverP cl(roots[o.prob]->clone());
    { LibCall L; attach(o.g.get(), o.cfg, prob(o.prob), cl.get()); }
    checkAttach(o, o.prob, *cl);
    o.primed = 0;
    Event e; e.type = 0; e.prob = o.prob; o.log.push_back(e);
  }
  // may this generator be called on this worker's current solver (documented preconditions)?
  bool callable(const Worker &k, const GenObj &o) {
    const std::string &kd = o.cfg.kind;
    if (o.prob != k.prob) return false;
    bool extra = k.si->getNumRows() != (int)prob(k.prob).rows.size();
    if (extra && kd == "LIFT") return false;
    if (extra && kd == "CLIQ" && o.cfg.get("packing")) return false;
    if (kd == "MIRO" && o.cfg.get("preproc", -1) != 1 && (extra ? o.primed != 1 : o.primed == 2)) return false; // cached rows would disappear
    if (kd == "REDS") { // needs an optimal basis that goes with the reported point; Clp's answer must be consistent
      if (!k.clean || !k.si->isProvenOptimal()) return false;
      SolverP t(k.si); int n = prob(k.prob).n; Point x(t->getColSolution(), t->getColSolution() + n);
      t->enableFactorization(); bool same = true;
      for (int j = 0; j < n; j++) if (!(fabs(t->getColSolution()[j] - x[j]) <= 1e-7 * (1 + fabs(x[j])))) same = false;
      t->disableFactorization();
      if (!same) { r.inc("lp-basis-inconsistent"); return false; }
    }
    return true;
  }
  std::vector<const Point *> points(const Worker &k) { // feasible points of exactly the model shown
    std::vector<const Point *> v; const OsiClpSolverInterface &si = *k.si;
    const double *lo = si.getColLower(), *up = si.getColUpper();
    const CoinPackedMatrix *M = si.getMatrixByRow(); int m0 = (int)prob(k.prob).rows.size(), m = si.getNumRows();
    for (const Point *x : all[k.prob]) {
      if (!inBox(*x, lo, up)) continue;
      bool ok = true;
      for (int i = m0; i < m && ok; i++) {
        double a = 0, mg = 1; CoinBigIndex st = M->getVectorStarts()[i];
        for (int q = 0; q < M->getVectorLengths()[i]; q++) { double t = M->getElements()[st + q] * (*x)[M->getIndices()[st + q]]; a += t; mg += fabs(t); }
        if (a > si.getRowUpper()[i] + 1e-9 * mg || a < si.getRowLower()[i] - 1e-9 * mg) ok = false;
      }
      if (ok) v.push_back(x);
    }
    return v;
  }
  CglTreeInfo mkInfo(const Op &o, const Worker &k, CoinThreadRandom *rnd) {
    CglTreeInfo info;
    info.inTree = k.atRoot ? (o.ai(2) & 1) != 0 : true;
    info.options = o.ai(3); info.pass = o.ai(4); info.level = k.atRoot ? 0 : std::max(1, k.depth);
    info.formulation_rows = (int)prob(k.prob).rows.size();
    info.randomNumberGenerator = rnd;
    return info;
  }
  std::string where(const GenObj &o, const CglTreeInfo &i) { return o.cfg.kind + fmt(" (inTree=%d options=%d pass=%d level=%d)", (int)i.inTree, i.options, i.pass, i.level); }
  static std::string ptText(const Point &x) { std::string t = "("; for (size_t j = 0; j < x.size(); j++) t += (j ? "," : "") + num(x[j]); return t + ")"; }

  std::string freshCall(const GenCfg &cfg, int pr, const OsiSolverInterface &snap, const CglTreeInfo &info0) {
    GenObj f = build(cfg, pr);
    CoinThreadRandom rnd(12345); CglTreeInfo info = info0; info.randomNumberGenerator = &rnd;
    OsiCuts cs; SolverP cl(snap.clone());
    { LibCall L; f.g->generateCuts(*cl, cs, info); }
    return dumpCuts(cs) + settings(f.g.get(), cfg.kind);
  }
  std::string twinCall(const GenObj &o, const OsiSolverInterface &snap, const CglTreeInfo &info0) {
    GenObj f = build(s.gens[o.cfg.get("#") >= 0 ? (size_t)o.cfg.get("#") % s.gens.size() : 0], o.prob0);
    // "#" is the index of the configuration the object started from
    for (auto &e : o.log) {
      LibCall L;
      if (e.type == 0) { SolverP cl(roots[e.prob]->clone()); attach(f.g.get(), f.cfg, prob(e.prob), cl.get()); }
      else if (e.type == 1) applySetting(f.g.get(), f.cfg, e.key, e.val);
      else { CoinThreadRandom rnd(12345); CglTreeInfo i = e.info; i.randomNumberGenerator = &rnd; OsiCuts cs; SolverP cl(e.s->clone()); f.g->generateCuts(*cl, cs, i); }
    }
    CoinThreadRandom rnd(12345); CglTreeInfo info = info0; info.randomNumberGenerator = &rnd;
    OsiCuts cs; SolverP cl(snap.clone());
    { LibCall L; f.g->generateCuts(*cl, cs, info); }
    return dumpCuts(cs) + settings(f.g.get(), o.cfg.kind);
  }
  const Oracle &sub(const GenCfg &c, int pr) {
    std::string key = std::to_string(pr); for (int q : c.v.at("rows")) key += "," + std::to_string(q);
    auto it = subOrc.find(key); if (it != subOrc.end()) return it->second;
    Oracle &o = subOrc[key]; std::vector<char> on(prob(pr).rows.size(), 0);
    for (int q : c.v.at("rows")) if (q >= 0 && q < (int)on.size()) on[q] = 1;
    o.build(prob(pr), 20000, &on); return o;
  }
  // one row over 0-1 columns with integer weights: is there a point of the box that satisfies the row and misses the cut?
  bool longViolates(const Worker &k, const OsiRowCut &rc, const double *lo, const double *up, Point &y) {
    const Problem &p = prob(k.prob); const Row &row = p.rows[0]; int n = p.n; std::vector<int> wt(n, 0); std::vector<double> c(n, 0.0);
    for (size_t q = 0; q < row.idx.size(); q++) wt[row.idx[q]] = (int)row.val[q];
    for (int q = 0; q < rc.row().getNumElements(); q++) { int j = rc.row().getIndices()[q]; if (j < 0 || j >= n) return false; c[j] += rc.row().getElements()[q]; }
    int mn = 0, mx = 0; for (int j = 0; j < n; j++) { mn += std::min(0, wt[j]); mx += std::max(0, wt[j]); if (ceil(lo[j] - 1e-9) > floor(up[j] + 1e-9)) return false; }
    int R = mx - mn + 1;
    for (int side = 0; side < 2; side++) {
      if (side ? rc.lb() <= -BIG : rc.ub() >= BIG) continue;
      double sg = side ? -1 : 1; const double NO = -1e300; std::vector<std::vector<double>> d(n + 1, std::vector<double>(R, NO)); d[0][-mn] = 0;
      for (int j = 0; j < n; j++) for (int v = (int)ceil(lo[j] - 1e-9); v <= (int)floor(up[j] + 1e-9); v++) for (int a = 0; a < R; a++) if (d[j][a] > NO) {
        int b = a + v * wt[j]; if (b < 0 || b >= R) continue; double t = d[j][a] + sg * c[j] * v; if (t > d[j + 1][b]) d[j + 1][b] = t; }
      int best = -1; for (int a = 0; a < R; a++) if (d[n][a] > NO && a + mn <= row.hi + 1e-9 && a + mn >= row.lo - 1e-9 && (best < 0 || d[n][a] > d[n][best])) best = a;
      if (best < 0) return false;
      y.assign(n, 0); int a = best;
      for (int j = n - 1; j >= 0; j--) for (int v = (int)ceil(lo[j] - 1e-9); v <= (int)floor(up[j] + 1e-9); v++) { int b = a - v * wt[j]; if (b >= 0 && b < R && d[j][b] > NO && d[j][b] + sg * c[j] * v >= d[j + 1][a] - 1e-12) { y[j] = v; a = b; break; } }
      std::vector<const Point *> one(1, &y); r.inc("long-row-tests"); if (!violates(rc, one)) continue;
      const CoinPackedMatrix *M = k.si->getMatrixByRow(); bool ok = true; // it must also satisfy the rows added since
      for (int i = 1; i < k.si->getNumRows() && ok; i++) { double s2 = 0, mg = 1; CoinBigIndex st = M->getVectorStarts()[i]; for (int q = 0; q < M->getVectorLengths()[i]; q++) { double t = M->getElements()[st + q] * y[M->getIndices()[st + q]]; s2 += t; mg += fabs(t); } if (s2 > k.si->getRowUpper()[i] + 1e-9 * mg || s2 < k.si->getRowLower()[i] - 1e-9 * mg) ok = false; }
      if (ok) return true;
    }
    return false;
  }
  void checkForm(const GenObj &o, const Worker &k, const OsiCuts &cs, int r0, int c0, const Point &x, const CglTreeInfo &info) {
    int n = prob(k.prob).n; const std::string &kd = o.cfg.kind;
    for (int i = r0; i < cs.sizeRowCuts(); i++) {
      const OsiRowCut &rc = *cs.rowCutPtr(i); const CoinPackedVector &v = rc.row(); std::string bad;
      std::set<int> used; int ne = v.getNumElements();
      for (int q = 0; q < ne; q++) {
        int j = v.getIndices()[q]; double e = v.getElements()[q];
        if (j < 0 || j >= n) bad = fmt("column %d does not exist", j);
        else if (!used.insert(j).second) bad = fmt("column %d appears twice", j);
        if (!(fabs(e) < 1e60)) bad = fmt("coefficient of column %d is not finite", j);
      }
      double lb = rc.lb(), ub = rc.ub(); bool infeasible = lb > ub;
      if (std::isnan(lb) || std::isnan(ub)) bad = "a side is not a number";
      else if (!infeasible && lb <= -BIG && ub >= BIG) bad = "no finite side";
      if (std::isnan(rc.effectiveness())) bad = "effectiveness is not a number";
      if (bad.empty() && !infeasible) {
        double act = 0, actBox = 0;
        for (int q = 0; q < ne; q++) { int j = v.getIndices()[q]; act += v.getElements()[q] * x[j]; actBox += v.getElements()[q] * std::min(std::max(x[j], k.si->getColLower()[j]), k.si->getColUpper()[j]); }
        if (kd == "ODDH") act = actBox; // it reads points outside the node's bounds as lying on them
        double viol = std::max(act - ub, lb - act), tol = 1e-7;
        auto has = [&](const char *kx) { return o.cfg.p.count(kx) > 0; };
        if (kd == "CLIQ" && has("minViol") && o.cfg.get("minViol") >= 0 && viol < o.cfg.get("minViol") - tol) bad = fmt("violation %g is below the requested minimum %g", viol, o.cfg.get("minViol"));
        if (kd == "ODDH" && has("minViol") && viol < o.cfg.get("minViol") - tol) bad = fmt("violation %g is below the requested minimum %g", viol, o.cfg.get("minViol"));
        if (kd == "ODDH" && has("maxEnt") && ne > o.cfg.get("maxEnt")) bad = fmt("%d entries but at most %g were allowed", ne, o.cfg.get("maxEnt"));
        if (kd == "REDS" && has("limit") && ne > o.cfg.get("limit")) bad = fmt("%d entries but at most %g were allowed", ne, o.cfg.get("limit"));
        if (kd == "REDS" && has("minViol") && viol < o.cfg.get("minViol") - tol) bad = fmt("violation %g is below the requested minimum %g", viol, o.cfg.get("minViol"));
        if (kd == "REDS" && (has("maxDyn") || has("maxDynLub"))) { // ratio of the coefficients that are clearly not rounding noise
          double hi = 0, lo = 1e300, lub = has("lub") ? o.cfg.get("lub") : 1000, a = has("maxDyn") ? o.cfg.get("maxDyn") : 1e8, b = has("maxDynLub") ? o.cfg.get("maxDynLub") : 1e13; bool big = false;
          for (int j = 0; j < n; j++) if (fabs(k.si->getColLower()[j]) > lub - 1e-6 || fabs(k.si->getColUpper()[j]) > lub - 1e-6) big = true;
          for (int q = 0; q < ne; q++) { double e = fabs(v.getElements()[q]); hi = std::max(hi, e); if (e > 1e-4) lo = std::min(lo, e); }
          double cap = big ? std::max(a, b) : a; if (lo < 1e300 && hi > cap * lo * (1 + 1e-6)) bad = fmt("ratio of coefficients %g but at most %g was allowed", hi / lo, cap); }
        if (kd == "STOR" && has("viol") && std::max(viol, 0.0) < o.cfg.get("viol") - 1e-9) bad = fmt("violation %g is below the requested minimum %g", viol, o.cfg.get("viol"));
        if (bad.empty() && o.cfg.v.count("rows") && (kd == "ODDH" || !o.cfg.v.at("rows").empty()) && (kd == "ODDH" || (kd == "KNAP" && !o.cfg.get("cliques")))) {
          bool ok = true; for (int j = 0; j < n; j++) if (!prob(k.prob).isInt[j]) ok = false;
          if (kd == "ODDH" && o.cfg.v.count("cliqueRows")) ok = false;
          if (kd == "ODDH" && k.si->getNumRows() != (int)prob(k.prob).rows.size()) ok = false;
          if (ok) {
            const Oracle &so = sub(o.cfg, k.prob); std::vector<const Point *> in;
            for (auto &pt : so.pts) if (inBox(pt, k.si->getColLower(), k.si->getColUpper())) in.push_back(&pt);
            const Point *y = violates(rc, in); r.inc("subset-checks");
            if (y) bad = "does not follow from the rows the user selected: excludes " + ptText(*y);
          }
        }
      }
      if (!bad.empty()) r.fail("malformed-or-outside-limits " + kd, where(o, info) + " cut " + humanCut(rc) + ": " + bad);
    }
    for (int i = c0; i < cs.sizeColCuts(); i++) {
      const OsiColCut &cc = *const_cast<OsiCuts &>(cs).colCutPtr(i);
      for (int side = 0; side < 2; side++) {
        const CoinPackedVector &v = side ? cc.ubs() : cc.lbs(); std::set<int> used;
        for (int q = 0; q < v.getNumElements(); q++) {
          int j = v.getIndices()[q];
          if (j < 0 || j >= n || !used.insert(j).second || std::isnan(v.getElements()[q])) r.fail("malformed column cut " + kd, where(o, info) + fmt(" bound change on column %d", j));
        }
      }
    }
  }
  void gen(const Op &op, Worker &k) {
    if (k.gens.empty()) return;
    GenObj &o = k.gens[op.ai(1) % k.gens.size()];
    if (!callable(k, o)) { r.inc("skipped"); return; }
    const std::string &kd = o.cfg.kind;
    note(kd + "| in " + op.text());
    CoinThreadRandom rnd(12345);
    CglTreeInfo info = mkInfo(op, k, &rnd);
    Point x(k.si->getColSolution(), k.si->getColSolution() + prob(k.prob).n);
    if (s.prop == "C09" && kd == "MIRO" && o.cfg.get("preproc", -1) != 1) doAttach(o);
    std::string before, old; SolverP snap;
    bool twin = s.prop == "C08" && o.copied, fresh = s.prop == "C09";
    std::vector<double> nb, na;
    if (s.prop == "C04") { dumpSolver(*k.si); before = dumpSolver(*k.si, &nb); old = dumpCuts(*k.cs); }
    if (s.prop == "C08" || fresh) snap.reset(k.si->clone());
    int r0 = k.cs->sizeRowCuts(), c0 = k.cs->sizeColCuts();
    std::string expected;
    if (twin) expected = twinCall(o, *snap, info);
    if (fresh) { std::vector<seam::Jump> j; std::swap(j, seam::jumps); expected = freshCall(o.cfg, o.prob, *snap, info); std::swap(j, seam::jumps); }
    std::vector<const Point *> pts = points(k);
    long p0 = seam::jumpsFired;
    if (snap) { OsiCuts mine; SolverP cl(snap->clone()); { LibCall L; o.g->generateCuts(*cl, mine, info); } 
      std::string got = dumpCuts(mine) + settings(o.g.get(), kd);
      if ((twin || fresh)) { r.inc("compared"); if (mine.sizeRowCuts() + mine.sizeColCuts()) r.inc("compared-nonempty"); }
      if (twin && got != expected) r.fail("copy differs from original " + kd, where(o, info) + "\nexpected (object with the same history, no copies around):\n" + expected + "\ngot:\n" + got);
      if (fresh && got != expected) r.fail("carry-over " + kd, where(o, info) + "\nexpected (new generator):\n" + expected + "\ngot:\n" + got);
      for (int i = 0; i < mine.sizeRowCuts(); i++) k.cs->insert(mine.rowCut(i)); for (int i = 0; i < mine.sizeColCuts(); i++) k.cs->insert(mine.colCut(i)); // (insert(OsiCuts) of this Osi release mishandles column cuts)
    } else { LibCall L; o.g->generateCuts(*k.si, *k.cs, info); }
    if (kd == "MIRO" && (!o.primed || o.cfg.get("preproc", -1) == 1)) o.primed = k.si->getNumRows() != (int)prob(k.prob).rows.size() ? 2 : 1;
    r.inc("calls"); r.inc("calls-" + kd); r.inc("fault-clock-jump-in-call", seam::jumpsFired - p0);
    int nr = k.cs->sizeRowCuts(), nc = k.cs->sizeColCuts();
    if (s.prop == "C08") { Event e; e.type = 2; e.s = snap; e.info = info; e.prob = o.prob; o.log.push_back(e); }
    if (s.prop == "C04") {
      std::string after = dumpSolver(*k.si, &na); r.inc("compared");
      if (nb.size() != na.size()) r.fail("caller's solver changed " + kd, where(o, info) + " sizes of the reported vectors");
      else for (size_t q = 0; q < na.size(); q++) if (!(fabs(na[q] - nb[q]) <= 1e-6 * (1 + fabs(nb[q]))) && !(std::isnan(na[q]) && std::isnan(nb[q]))) { r.fail("caller's solver changed " + kd, where(o, info) + fmt(" reported value %zu of (x,activity,duals,reduced costs,objective): %.12g -> %.12g", q, nb[q], na[q])); break; }
      if (after != before) {
        std::istringstream a(before), b(after); std::string la, lb2; std::string d;
        while (std::getline(a, la)) { if (!std::getline(b, lb2)) { d = la + " -> (gone)"; break; } if (la != lb2) { d = la + "\n  -> " + lb2; break; } }
        r.fail("caller's solver changed " + kd, where(o, info) + "\n  " + d);
      }
      if (nr < r0 || nc < c0) r.fail("caller's cuts lost " + kd, where(o, info));
      else {
        OsiCuts head; for (int i = 0; i < r0; i++) head.insert(k.cs->rowCut(i)); for (int i = 0; i < c0; i++) head.insert(k.cs->colCut(i));
        if (dumpCuts(head) != old) r.fail("caller's cuts changed " + kd, where(o, info) + "\nbefore:\n" + old + "after:\n" + dumpCuts(head));
      }
    }
    if (nr < r0 || nc < c0) { r.fail("caller's cuts lost " + kd, where(o, info)); return; }
    if (nr > r0 || nc > c0) {
      r.inc("calls-with-cuts"); r.inc("cuts-" + kd, nr - r0 + nc - c0);
      Hash h; h.s(kd); for (double v : x) h.d(v); for (int j = 0; j < prob(k.prob).n; j++) { h.d(k.si->getColLower()[j]); h.d(k.si->getColUpper()[j]); }
      h.s(dumpCuts(*k.cs, r0, c0)); r.states.insert(h.h);
    }
    r.log("cuts " + kd + " " + std::to_string(nr - r0) + " " + std::to_string(nc - c0)); r.log(dumpCuts(*k.cs, r0, c0));
    bool c14 = s.prop == "C14";
    for (int i = r0; i < nr; i++) {
      const OsiRowCut &rc = *k.cs->rowCutPtr(i); bool inf = rc.lb() > rc.ub();
      if (c14) continue;
      double tol = kd == "LIFT" ? 1e-4 : 1e-6; // lift-and-project multipliers come from an LP solved to its own tolerance
      if (s.prop == "C01" && !inf) { r.inc("cut-point-tests", (long)pts.size()); const Point *y = violates(rc, pts, tol);
        if (y) r.fail("invalid cut " + kd, where(o, info) + " cut " + humanCut(rc) + " excludes feasible point " + ptText(*y)); }
      if (s.prop == "C02" && rc.globallyValid()) { r.inc("global-cuts"); const Point *y = violates(rc, all[k.prob], tol);
        if (y) r.fail("cut marked global is not " + kd, where(o, info) + " cut " + humanCut(rc) + " excludes point " + ptText(*y) + " feasible at the root"); }
      if ((s.prop == "C01" && !inf) || (s.prop == "C02" && rc.globallyValid())) if (prob(k.prob).family == "long") { Point y; bool gl = s.prop == "C02";
        if (longViolates(k, rc, gl ? roots[k.prob]->getColLower() : k.si->getColLower(), gl ? roots[k.prob]->getColUpper() : k.si->getColUpper(), y)) r.fail((gl ? "cut marked global is not " : "invalid cut ") + kd, where(o, info) + " cut " + humanCut(rc) + " excludes feasible point " + ptText(y)); }
      if (s.prop == "C03" && (inf || rc.row().getNumElements() == 0)) { r.inc("verdicts"); const Point *y = violates(rc, pts, tol);
        if (y) r.fail("wrong infeasibility verdict " + kd, where(o, info) + " returned " + humanCut(rc) + " but " + ptText(*y) + " is feasible"); }
    }
    if (s.prop == "C03") for (int i = c0; i < nc; i++) {
      OsiColCut &cc = *k.cs->colCutPtr(i); r.inc("bound-changes", cc.lbs().getNumElements() + cc.ubs().getNumElements());
      for (const Point *y : pts) for (int side = 0; side < 2; side++) {
        const CoinPackedVector &v = side ? cc.ubs() : cc.lbs();
        for (int q = 0; q < v.getNumElements(); q++) {
          int j = v.getIndices()[q]; double b = v.getElements()[q];
          if (side ? (*y)[j] > b + 1e-6 : (*y)[j] < b - 1e-6) r.fail("unsound bound change " + kd, where(o, info) + fmt(" x%d %s %g", j, side ? "<=" : ">=", b) + " excludes feasible point " + ptText(*y));
        }
      }
    }
    if (s.prop == "C05") checkForm(o, k, *k.cs, r0, c0, x, info);
  }
  void applyRow(Worker &k, const OsiRowCut &rc) {
    if (rc.lb() > rc.ub()) return; // infeasibility markers are not rows
    OsiRowCut c(rc); k.si->applyRowCuts(1, &c);
  }
  void setBound(Worker &k, int j, double lo, double up) { k.si->setColBounds(j, lo, up); }
  void run() {
    init();
    int step = 0;
    for (auto &op : s.ops) {
      if (r.v.on) break;
      step++;
      if (w.empty()) break;
      Worker &k = w[op.ai(0) % w.size()];
      note(op.name + "| " + op.text());
      const Problem &p = prob(k.prob); const std::string &nm = op.name;
      std::vector<int> ints; for (int j = 0; j < p.n; j++) if (p.isInt[j]) ints.push_back(j);
      if (nm == "solve") {
        int kind = op.ai(1);
        if (kind == 0) k.si->initialSolve(); else if (kind == 1) k.si->resolve();
        else { int old; k.si->getIntParam(OsiMaxNumIteration, old); k.si->setIntParam(OsiMaxNumIteration, op.ai(2)); k.si->resolve(); k.si->setIntParam(OsiMaxNumIteration, old); r.inc("fault-lp-stopped-early"); }
        k.clean = k.si->isProvenOptimal() && kind != 2; remember(k);
      } else if (nm == "obj") { // another objective: another vertex of the same node
        Rng q((uint64_t)op.arg(1) + 4242); for (int j = 0; j < p.n; j++) { double c = q.range(-7, 7); if (p.lb[j] <= -INF) c = 0; else if (p.ub[j] >= INF) c = fabs(c) * (q.chance(1, 2) ? 1 : 0); k.si->setObjCoeff(j, c + p.obj[j] * (q.below(3))); }
        k.si->resolve(); k.clean = k.si->isProvenOptimal(); remember(k); r.inc("objective-changes");
      } else if (nm == "branch" && !ints.empty()) {
        int j = -1; const double *x = k.si->getColSolution(); int st = op.ai(1);
        for (size_t q = 0; q < ints.size(); q++) { int c = ints[(q + st) % ints.size()]; if (fabs(x[c] - floor(x[c] + 0.5)) > 1e-5) { j = c; break; } }
        if (j < 0) j = ints[st % ints.size()];
        double lo = k.si->getColLower()[j], up = k.si->getColUpper()[j], v = x[j];
        if (up - lo < 0.5) continue;
        if (!(v > lo + 1e-5 && v < up - 1e-5)) v = up < 1e9 ? floor((lo + up) / 2) + 0.5 : lo + 1.5;
        if (op.ai(2)) lo = ceil(v); else up = floor(v);
        setBound(k, j, lo, up); k.atRoot = false; k.depth++; k.clean = false; r.inc("branchings");
        if (op.ai(3, 1)) { k.si->resolve(); k.clean = k.si->isProvenOptimal(); remember(k); } else r.inc("fault-stale-lp");
      } else if (nm == "fix" && !ints.empty()) { // jump to a node deep in the tree
        Rng q((uint64_t)op.arg(1) + 77);
        for (int j : ints) if (q.chance(op.ai(2, 1), 4)) {
          double lo = k.si->getColLower()[j], up = std::min(k.si->getColUpper()[j], lo + 8); double v = lo + q.below((int)(up - lo) + 1); setBound(k, j, v, v); }
        k.atRoot = false; k.depth += 3; k.clean = false;
        if (op.ai(3, 1)) { k.si->resolve(); k.clean = k.si->isProvenOptimal(); remember(k); } else r.inc("fault-stale-lp");
      } else if (nm == "fixpt" && !all[k.prob].empty() && !ints.empty()) { // node around a feasible point
        Rng q((uint64_t)op.arg(1) + 177); const Point &y = *all[k.prob][q.below((int)all[k.prob].size())];
        for (int j : ints) if (q.chance(op.ai(2, 1), 4) && y[j] >= k.si->getColLower()[j] && y[j] <= k.si->getColUpper()[j]) setBound(k, j, y[j], y[j]);
        k.atRoot = false; k.depth += 2; k.clean = false;
        if (op.ai(3, 1)) { k.si->resolve(); k.clean = k.si->isProvenOptimal(); remember(k); } else r.inc("fault-stale-lp");
      } else if (nm == "bnd") { // branching decision on a given column
        int j = op.ai(1) % p.n; double lo = std::max(k.si->getColLower()[j], op.arg(2)), up = std::min(k.si->getColUpper()[j], op.arg(3));
        if (lo <= up && p.isInt[j]) { setBound(k, j, lo, up); k.atRoot = false; k.depth++; k.si->resolve(); k.clean = k.si->isProvenOptimal(); remember(k); r.inc("branchings"); }
      } else if (nm == "reset") { // worker crashes and restarts from the root model
        makeWorker(k, k.prob); r.inc("fault-worker-restart");
      } else if (nm == "model") { // the same generators are given another model
        int np = op.ai(1) % (int)s.probs.size();
        makeWorker(k, np); k.seen.clear(); remember(k);
        for (auto &o : k.gens) if (suits(o.cfg.kind, prob(np)) && o.cfg.kind != "ALLD" && o.cfg.kind != "STOR" && o.cfg.v.empty() && !o.cfg.get("packing")) { o.prob = np; doAttach(o); }
        r.inc("model-switch");
      } else if (nm == "point") {
        int kind = op.ai(1); Rng q((uint64_t)op.arg(2) + 999); Point x(k.si->getColSolution(), k.si->getColSolution() + p.n);
        const double *lo = k.si->getColLower(), *up = k.si->getColUpper();
        auto rnd = [&](int j) { double l = std::max(lo[j], -10.0), u = std::min(up[j], 10.0); if (u < l) u = l; return l + (u - l) * q.unit(); };
        if (kind == 0) { static const double e[] = {1e-9, 1e-7, 1e-6, 1e-5, 1e-3}; double ep = e[q.below(5)]; for (auto &v : x) if (q.chance(1, 2)) v += ep * (2 * q.unit() - 1); }
        else if (kind == 1 && !k.seen.empty()) x = k.seen[q.below((int)k.seen.size())];
        else if (kind == 2) for (int j = 0; j < p.n; j++) x[j] = floor(rnd(j) + 0.5);
        else if (kind == 3) { Worker &o = w[q.below((int)w.size())]; if (o.prob == k.prob) x.assign(o.si->getColSolution(), o.si->getColSolution() + p.n); }
        else if (kind == 4) for (int j = 0; j < p.n; j++) x[j] = rnd(j);
        else if (kind == 5) for (int j = 0; j < p.n; j++) x[j] = floor(rnd(j)) + (q.chance(2, 3) ? 0.5 : 0);
        else if (kind == 6) { for (int j = 0; j < p.n; j++) x[j] = rnd(j); int j = q.below(p.n); x[j] += q.chance(1, 2) ? 0.75 : -0.75; }
        else if (kind == 7 && !all[k.prob].empty()) { const Point &a = *q.pick(all[k.prob]), &b = *q.pick(all[k.prob]); double t = q.chance(1, 3) ? 1 : q.unit(); for (int j = 0; j < p.n; j++) x[j] = t * a[j] + (1 - t) * b[j]; }
        else if (kind == 8) { double f = 1.0 / q.range(2, 4); for (int j = 0; j < p.n; j++) if (q.chance(3, 4)) x[j] = std::min(up[j], lo[j] > -1e9 ? lo[j] + f : f); }
        else if (kind == 9) for (int j = 0; j < p.n; j++) x[j] = q.chance(1, 2) ? (q.chance(1, 2) ? std::max(lo[j], -10.0) : std::min(up[j], 10.0)) : rnd(j);
        k.si->setColSolution(x.data()); k.clean = false; r.inc(kind == 0 ? "fault-lp-perturbed" : kind == 1 || kind == 3 ? "fault-lp-stale-or-foreign" : "fault-lp-arbitrary-point");
      } else if (nm == "gen") gen(op, k);
      else if (nm == "apply") {
        int nr = k.cs->sizeRowCuts(), nc = k.cs->sizeColCuts(); bool full = op.ai(1, 3) & 1;
        if (full) for (int i = k.rowMark; i < nr && k.si->getNumRows() < 60; i++) applyRow(k, k.cs->rowCut(i));
        if (op.ai(1, 3) & 2) for (int i = k.colMark; i < nc; i++) {
          const OsiColCut &c = k.cs->colCut(i); bool ok = true;
          for (int q = 0; q < c.lbs().getNumElements(); q++) { int j = c.lbs().getIndices()[q]; if (c.lbs().getElements()[q] > k.si->getColUpper()[j]) ok = false; }
          for (int q = 0; q < c.ubs().getNumElements(); q++) { int j = c.ubs().getIndices()[q]; if (c.ubs().getElements()[q] < k.si->getColLower()[j]) ok = false; }
          if (!ok) continue;
          for (int q = 0; q < c.lbs().getNumElements(); q++) { int j = c.lbs().getIndices()[q]; if (c.lbs().getElements()[q] > k.si->getColLower()[j]) k.si->setColLower(j, c.lbs().getElements()[q]); }
          for (int q = 0; q < c.ubs().getNumElements(); q++) { int j = c.ubs().getIndices()[q]; if (c.ubs().getElements()[q] < k.si->getColUpper()[j]) k.si->setColUpper(j, c.ubs().getElements()[q]); }
        }
        k.rowMark = nr; k.colMark = nc; k.clean = false; k.si->resolve(); k.clean = k.si->isProvenOptimal(); remember(k); r.inc("applied");
      } else if (nm == "share") { // broadcast new globally valid cuts; delivery is decided by later ops
        for (int i = k.sentMark; i < k.cs->sizeRowCuts(); i++) if (k.cs->rowCutPtr(i)->globallyValid())
          for (auto &o : w) if (&o != &k && o.prob == k.prob && o.inbox.size() < 40) { o.inbox.push_back(k.cs->rowCut(i)); r.inc("msg-sent"); }
        k.sentMark = k.cs->sizeRowCuts();
      } else if (nm == "deliver") {
        if (k.inbox.empty()) continue;
        size_t m = op.ai(1) % k.inbox.size(); if (m) r.inc("fault-msg-reordered");
        if (k.si->getNumRows() < 60) applyRow(k, k.inbox[m]);
        r.inc("msg-delivered"); k.clean = false;
        if (op.ai(2)) r.inc("fault-msg-duplicated"); else k.inbox.erase(k.inbox.begin() + m);
        if (op.ai(3, 1)) { k.si->resolve(); k.clean = k.si->isProvenOptimal(); remember(k); }
      } else if (nm == "drop") { if (!k.inbox.empty()) { k.inbox.erase(k.inbox.begin() + op.ai(1) % k.inbox.size()); r.inc("fault-msg-lost"); } }
      else if (nm == "clone") {
        if (k.gens.empty()) continue;
        size_t g = op.ai(1) % k.gens.size();
        GenObj c = copyOf(k.gens[g], op.ai(2) % 3); r.inc("copies");
        if (op.ai(3) == 0) k.gens[g] = c; // original destroyed
        else if (op.ai(3) == 1 && k.gens.size() < 6) k.gens.push_back(c);
        else w[op.ai(4) % w.size()].gens.push_back(c);
        if (w[op.ai(4) % w.size()].gens.size() > 8) w[op.ai(4) % w.size()].gens.erase(w[op.ai(4) % w.size()].gens.begin());
      } else if (nm == "assign") { // overwrite one live generator by another of its class
        if (k.gens.size() < 2) continue;
        size_t g = op.ai(1) % k.gens.size(), h = op.ai(2) % k.gens.size();
        if (k.gens[g].cfg.kind != k.gens[h].cfg.kind) continue;
        bool ok; { LibCall L; ok = assignTo(k.gens[h].g.get(), k.gens[g].g.get(), k.gens[g].cfg.kind); }
        if (ok) { auto keep = k.gens[h].g; k.gens[g].copied = true; k.gens[h] = k.gens[g]; k.gens[h].g = keep; if (needsAttachAfterCopy(k.gens[h].cfg.kind)) doAttach(k.gens[h]); r.inc("assignments"); }
      } else if (nm == "kill") { if (k.gens.size() > 1) { k.gens.erase(k.gens.begin() + op.ai(1) % k.gens.size()); r.inc("destroyed"); } }
      else if (nm == "refresh") { if (!k.gens.empty()) { doAttach(k.gens[op.ai(1) % k.gens.size()]); r.inc("refreshes"); } }
      else if (nm == "set") {
        if (k.gens.empty()) continue;
        GenObj &o = k.gens[op.ai(1) % k.gens.size()]; if (o.cfg.kind.compare(0, 4, op.s.substr(0, 4)) != 0) continue;
        std::string key = op.s.substr(5); if (key == "rowsN" && (op.ai(2) > (int)prob(o.prob).rows.size() || o.prob != 0)) continue;
        { LibCall L; applySetting(o.g.get(), o.cfg, key, op.arg(2)); }
        if (key == "rowsN") { auto &l = o.cfg.v["rows"]; l.clear(); for (int q = 0; q < op.ai(2); q++) l.push_back(q); } else
        o.cfg.p[key] = op.arg(2); Event e; e.type = 1; e.key = key; e.val = op.arg(2); o.log.push_back(e); r.inc("settings-changed");
      } else if (nm == "clock") { seam::jumps.push_back({seam::libPolls + op.ai(1), op.arg(2)}); }
      else if (nm == "clear") { k.cs.reset(new OsiCuts()); k.rowMark = k.colMark = k.sentMark = 0; }
      r.log(op.text());
      if (s.prop == "C06" || s.prop == "C07") for (auto &o : k.gens) r.log(settings(o.g.get(), o.cfg.kind));
      Hash h; for (int j = 0; j < prob(k.prob).n; j++) h.d(k.si->getColSolution()[j]);
      r.log("x " + std::to_string(h.h));
    }
  }
};
