// Simulation 2: a separation call under a wall-clock limit.  The simulated clock advances with the
// library's own execution (one tick per basic block) and jumps at chosen clock readings, so the
// deadline passes at a chosen instant inside the call.
#include "scenario.h"
#include "hooks.h"
#include "CglZeroHalf.hpp"
extern void note(const std::string &);
static Point timeHalf(const Problem &p, int seed) { Rng q((uint64_t)seed); Point h(p.n); for (int j = 0; j < p.n; j++) h[j] = q.chance(1, 8) ? p.lb[j] + q.below((int)(p.ub[j] - p.lb[j]) + 1) : p.lb[j] + q.below((int)(p.ub[j] - p.lb[j])) + 0.5; return h; }
namespace {
struct TSim {
  const Scenario &s; Result &r; const Problem &p; std::shared_ptr<OsiClpSolverInterface> root, si; std::vector<Point> planted;
  TSim(const Scenario &a, Result &b) : s(a), r(b), p(a.probs[0]) {}
  typedef std::shared_ptr<CglZeroHalf> Gen;
  static Gen own(CglZeroHalf *g) { return Gen(g, [](CglZeroHalf *q) { LibCall L; delete q; }); }
  void settle(CglZeroHalf *g) {
    LibCall L; if (s.e("flags")) g->setFlags(1); if (s.e("sparse", -1) >= 0) g->setSepGraphSparseThreshold((int)s.e("sparse")); if (s.e("pairs", -1) >= 0) g->setRowMaxPairCount((int)s.e("pairs")); if (s.e("fracs", -1) >= 0) g->setRowMaxFractionalCount((int)s.e("fracs"));
    std::unique_ptr<OsiSolverInterface> c(root->clone()); g->refreshSolver(c.get());
  }
  Gen make() { Gen g; { LibCall L; g = own(new CglZeroHalf()); } settle(g.get()); return g; }
  struct Out { std::string dump; uint64_t steps = 0, after = 0, endSteps = 0; bool late = false; long polls = 0; OsiCuts cs; };
  // secs: limit (0 none); tick: simulated seconds per block; jumps at clock readings
  Out call(CglZeroHalf *g, double secs, double tick, const std::vector<seam::Jump> &jumps, bool tree) {
    Out o; seam::clockTick = 0; double base = seam::now(); // restart the clock for this call
    seam::clockReset(); seam::clockBase = base; seam::resetSteps(); seam::clockTick = tick; seam::jumps = jumps;
    CglTreeInfo info; info.inTree = tree; info.level = tree ? 3 : 0; info.pass = 0; info.options = 0; CoinThreadRandom rnd(12345); info.randomNumberGenerator = &rnd;
    g->setMaxSeconds(secs); seam::deadlineWatch = secs > 0 ? base + secs : -1;
    uint64_t s0; { LibCall L; s0 = seam::steps; g->generateCuts(*si, o.cs, info); o.steps = seam::steps - s0; o.endSteps = seam::steps; }
    o.polls = seam::libPolls; o.dump = dumpCuts(o.cs); r.inc("fault-clock-jump", seam::jumpsFired);
    if (secs > 0) {
      uint64_t cross = ~0ull; if (tick > 0) { double t = secs / tick; if (t < (double)o.steps && jumps.empty()) cross = (uint64_t)t; }
      if (seam::latePolls && seam::stepsAtFirstLate - s0 < cross) cross = seam::stepsAtFirstLate - s0;
      if (cross != ~0ull) { o.late = true; o.after = o.steps - cross; }
    }
    seam::deadlineWatch = -1; seam::jumps.clear(); return o;
  }
  void valid(const OsiCuts &cs, const std::string &what) {
    std::vector<const Point *> in; for (auto &x : planted) if (inBox(x, si->getColLower(), si->getColUpper())) in.push_back(&x);
    for (int i = 0; i < cs.sizeRowCuts(); i++) { const OsiRowCut &rc = *cs.rowCutPtr(i); if (violates(rc, in)) { r.fail("invalid cut", what + ": excludes a feasible point: " + humanCut(rc)); return; }
      for (int k = 0; k < rc.row().getNumElements(); k++) if (!(fabs(rc.row().getElements()[k]) < 1e30) || rc.row().getIndices()[k] < 0 || rc.row().getIndices()[k] >= p.n) r.fail("malformed cut", what + ": " + humanCut(rc)); }
  }
  void run() {
    root.reset(makeSolver(p)); si.reset(dynamic_cast<OsiClpSolverInterface *>(root->clone())); si->initialSolve();
    { Rng q((uint64_t)s.e("plant")); // candidates are rebuilt from the seed and kept only if they really are feasible
      for (int t = 0; t < 60; t++) { Point x(p.n); for (int j = 0; j < p.n; j++) x[j] = p.lb[j] + q.below((int)(p.ub[j] - p.lb[j]) + 1); bool ok = true;
        for (auto &row : p.rows) { double a = 0; for (size_t k = 0; k < row.idx.size(); k++) a += row.val[k] * x[row.idx[k]]; if (a > row.hi + 1e-9 || a < row.lo - 1e-9) { ok = false; break; } } if (ok) planted.push_back(x); } }
    r.inc("planted-points", (long)planted.size());
    if (p.n <= 14) { Oracle o; o.build(p, 20000); planted.insert(planted.end(), o.pts.begin(), o.pts.end()); }
    Gen g = make(); double slack = s.e("bound", 0);
    for (auto &op : s.ops) {
      note("time limit| in " + op.text());
      if (op.name == "obj") { Rng q((uint64_t)op.arg(0)); for (int j = 0; j < p.n; j++) si->setObjCoeff(j, q.range(-9, 9)); si->resolve(); }
      else if (op.name == "half") { Rng q((uint64_t)op.arg(0)); Point x(p.n); for (int j = 0; j < p.n; j++) { double l = si->getColLower()[j], u = si->getColUpper()[j]; x[j] = l == u ? l : l + q.below((int)(u - l)) + (q.chance(4, 5) ? 0.5 : 0); } si->setColSolution(x.data()); r.inc("fault-lp-arbitrary-point"); }
      else if (op.name == "near") { Point x = timeHalf(p, op.ai(0)); Rng q((uint64_t)op.arg(2)); for (int j = 0; j < p.n; j++) { if (q.below(100) < op.ai(1)) x[j] += (q.unit() - 0.5) * 0.4; x[j] = std::min(std::max(x[j], si->getColLower()[j]), si->getColUpper()[j]); } si->setColSolution(x.data()); r.inc("fault-lp-arbitrary-point"); }
      else if (op.name == "fix") { int j = op.ai(0) % p.n; double v = op.ai(1) ? p.ub[j] : p.lb[j]; si->setColBounds(j, v, v); si->resolve(); }
      else if (op.name == "root") { for (int j = 0; j < p.n; j++) si->setColBounds(j, p.lb[j], p.ub[j]); si->resolve(); }
      else if (op.name == "copy") { LibCall L; Gen c = own(op.ai(0) & 1 ? new CglZeroHalf(*g) : static_cast<CglZeroHalf *>(g->clone())); if (op.ai(0) & 2) { Gen d = own(new CglZeroHalf()); *d = *g; c = d; } g = c; r.inc("copies"); }
      else if (op.name == "call") { // a0 limit in seconds, a1 instant (millionths of the full call), a2 mode, a3 tree, a4 jump poll, a5 jump size
        if (op.ai(2) == 5) { Out o = call(g.get(), op.arg(0), 0, {{1 + op.ai(4), op.arg(0) * 3}}, op.ai(3)); valid(o.cs, "call cut short"); r.inc("calls"); r.inc("fault-deadline-passed", o.late); r.log(o.dump); if (r.v.on) return; continue; }
        bool tree = op.ai(3); Gen f = make(); Out full = call(f.get(), 0, 1e-7, {}, tree); int mode = op.ai(2); double L = op.arg(0);
        valid(full.cs, "no limit"); r.inc("calls");
        if (mode == 0) { // no limit: the clock must not matter
          Out o = call(g.get(), 0, op.arg(1) * 1e-6, {{op.ai(4), op.arg(5)}, {op.ai(4) + 1, -op.arg(5) * 2}}, tree);
          if (o.dump != full.dump) r.fail("clock matters without a limit", "expected\n" + full.dump + "got\n" + o.dump);
        } else if (mode == 1) { // limit never reached
          Out o = call(g.get(), L, L / (2.0 * (double)full.steps + 1000), {}, tree);
          if (o.dump != full.dump) r.fail("limit not reached but result differs", "expected\n" + full.dump + "got\n" + o.dump); r.inc("limit-not-reached");
        } else { // the deadline passes inside the call: slow host (mode 2), forward jump at a clock reading (3), back then forward (4)
          std::vector<seam::Jump> js; double tick = 0;
          if (mode == 2) { double at = std::max(1.0, op.arg(1) * 1e-6 * (double)full.steps); tick = L / at; }
          else { long at = 1 + (full.steps > 0 ? op.ai(4) : 0); tick = L / (4.0 * (double)full.steps + 1000); js.push_back({at, L * 3}); if (mode == 4) js.insert(js.begin(), {std::max(1l, at - 1), -L * 50}), js[1].poll = at + 1, js[1].delta = L * 60; }
          Out o = call(g.get(), L, tick, js, tree);
          valid(o.cs, "call cut short");
          if (o.late) {
            r.inc("fault-deadline-passed"); double b = p.n < 200 ? 4e6 : 10e6; (void)slack;
            if (o.after > b) r.fail("deadline ignored", fmt("%llu blocks executed after the deadline (full call: %llu blocks, %ld clock readings)", (unsigned long long)o.after, (unsigned long long)full.steps, o.polls));
            if (o.dump != full.dump) r.inc("calls-cut-short"); r.log(fmt("polls %ld full %llu", o.polls, (unsigned long long)full.steps)); if (seam::latePolls) { double seen = (double)(o.endSteps - seam::stepsAtFirstLate), sb = 5e5 + 6.0 * p.n * p.n; if (seen > sb) r.fail("deadline seen but ignored", fmt("%.0f blocks executed after the clock showed the deadline had passed", seen)); r.inc("deadline-seen"); } Hash h; h.s(o.dump); h.i((long long)full.steps); h.i(mode); h.i((long long)o.after / 50); r.states.insert(h.h);
            long &mx = r.count["max-after"]; mx = std::max(mx, (long)o.after);
          } else { r.inc("deadline-not-seen"); if (mode == 3 && o.dump != full.dump) r.fail("limit not reached but result differs", "jump not seen"); }
          r.log(fmt("late %d after %llu", o.late, (unsigned long long)o.after));
          // limit lifted: full result again
          Out again = call(g.get(), 0, 1e-7, {}, tree);
          if (again.dump != full.dump) r.fail("no recovery after a timed-out call", "expected\n" + full.dump + "got\n" + again.dump);
        }
        r.count["full-steps"] += (long)full.steps;
        r.log(full.dump);
      }
      r.log(op.text()); if (r.v.on) return;
    }
  }
};
}
void runTime(const Scenario &s, Result &r) { if (s.probs.empty() || s.probs[0].rows.empty()) return; TSim t(s, r); t.run(); seam::clockReset(); }
// A dense model built around a half-integral point h (all of h is stored in op "near"): rows are nearly tight at h
// and hold at the planted integer points, so a full separation polls the clock many times.
Scenario genTime(const std::string &prop, uint64_t seed) {
  Rng r(seed * 2654435761ull + 733); Scenario s; s.prop = prop; s.seed = seed; s.env["sim"] = 2;
  Problem p; int size = prop == "C14" ? r.pick(std::vector<int>{0, 0, 1, 2, 2}) : r.pick(std::vector<int>{0, 1, 2, 2, 2, 2, 2, 2, 3}); bool big = size > 0;
  int n = size == 3 ? r.range(250, 420) : size == 2 ? r.range(60, 160) : big ? r.range(20, 60) : r.range(4, 14), m = size == 3 ? r.range(300, 800) : size == 2 ? r.range(80, 600) : big ? r.range(20, 70) : r.range(3, 10); p.family = "zh";
  for (int j = 0; j < n; j++) p.addCol(0, r.chance(3, 4) ? 1 : r.range(2, 4), true, r.range(-9, 9));
  int plant = r.below(1000000), hs = r.below(1000000); s.env["plant"] = plant; Rng q((uint64_t)plant); std::vector<Point> pts; int want = r.range(1, 3);
  for (int t = 0; t < want; t++) { Point x(n); for (int j = 0; j < n; j++) x[j] = p.lb[j] + q.below((int)(p.ub[j] - p.lb[j]) + 1); pts.push_back(x); }
  Point h = timeHalf(p, hs); int maxlen = size == 3 ? r.pick(std::vector<int>{2, 3, 4, 8}) : big ? r.pick(std::vector<int>{3, 6, 30, 60, 80}) : 6; bool sparse3 = r.chance(1, 3);
  for (int i = 0; i < m; i++) {
    Row w; int len = sparse3 && r.chance(2, 3) ? r.range(2, 3) : r.range(2, std::max(2, std::min(n - 1, maxlen))); std::set<int> u; while ((int)u.size() < len) u.insert(r.below(n)); for (int j : u) { w.idx.push_back(j); double v = r.chance(5, 6) ? 1 : r.chance(1, 2) ? 3 : 2; if (r.chance(1, 3)) v = -v; w.val.push_back(v); }
    auto act = [&](const Point &x) { double a = 0; for (size_t k = 0; k < w.idx.size(); k++) a += w.val[k] * x[w.idx[k]]; return a; };
    for (int t = 0; t < 40; t++) { // flip signs until the planted points lie on the side of h
      double rhs = ceil(act(h) - 1e-9); const Point *bad = nullptr; for (auto &x : pts) if (act(x) > rhs) bad = &x; if (!bad) break;
      int k = r.below(len); if (w.val[k] * ((*bad)[w.idx[k]] - h[w.idx[k]]) > 0) w.val[k] = -w.val[k];
    }
    double rhs = ceil(act(h) - 1e-9); for (auto &x : pts) rhs = std::max(rhs, act(x));
    if (r.chance(1, 3)) { for (double &v : w.val) v = -v; w.lo = -rhs; w.hi = INF; } else { w.lo = -INF; w.hi = rhs; } p.rows.push_back(w);
  }
  s.probs.push_back(p);
  if (r.chance(1, 3)) s.env["flags"] = 1; if (r.chance(1, 2)) s.env["sparse"] = r.pick(std::vector<int>{0, 10, 8000}); if (r.chance(1, 8)) s.env["pairs"] = r.range(1, 200); if (r.chance(1, 8)) s.env["fracs"] = r.range(2, 30);
  auto add = [&](const char *nm, std::vector<double> a) { Op o; o.name = nm; o.a = a; s.ops.push_back(o); };
  int len = r.range(1, size == 2 ? 2 : big ? 3 : 6);
  for (int i = 0; i < len; i++) {
    if (r.chance(1, 8)) add("copy", {(double)r.below(4)}); if (r.chance(1, 10)) add("fix", {(double)r.below(n), (double)r.below(2)});
    int t = r.below(8); if (t < 1) add("obj", {(double)r.below(100000)}); else if (t < 6) add("near", {(double)hs, (double)(r.chance(1, 2) ? 0 : r.range(1, 20)), (double)r.below(100000)}); else if (t == 6) add("half", {(double)r.below(100000)}); else add("root", {});
    int mode = r.pick(std::vector<int>{0, 1, 2, 2, 2, 2, 3, 3, 4}); if (prop == "C14" && size == 2) mode = 5;
    add("call", {r.pick(std::vector<double>{1, 0.01, 30, 1000}), (double)r.below(1000000), (double)mode, (double)r.below(2), (double)(mode == 0 ? r.below(5) : mode == 5 ? r.below(12) : r.chance(1, 2) ? r.below(4) : r.below(60)), (double)r.range(1, 100000)});
  }
  return s;
}
