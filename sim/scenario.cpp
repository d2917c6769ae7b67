#include "scenario.h"
#include "hooks.h"

std::string Op::text() const { std::string o = "op " + name; for (double x : a) o += " " + num(x); if (!s.empty()) o += " :" + s; return o; }
std::string Scenario::text() const {
  std::string o = "scenario " + prop + " " + std::to_string(seed) + "\n";
  for (auto &x : env) o += "env " + x.first + " " + num(x.second) + "\n";
  for (auto &p : probs) o += "model\n" + p.text();
  for (auto &g : gens) o += "gen " + g.text() + "\n";
  for (auto &x : ops) o += x.text() + "\n";
  return o;
}
Scenario Scenario::parse(const std::string &t) {
  Scenario s; std::istringstream in(t); std::string line;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream is(line); std::string key; is >> key;
    if (key == "scenario") is >> s.prop >> s.seed;
    else if (key == "env") { std::string k; double v; is >> k >> v; s.env[k] = v; }
    else if (key == "model") s.probs.emplace_back();
    else if (key == "gen") s.gens.push_back(GenCfg::parse(is));
    else if (key == "op") {
      Op o; is >> o.name; std::string w;
      while (is >> w) { if (w[0] == ':') { std::string rest; std::getline(is, rest); o.s = w.substr(1) + rest; break; } o.a.push_back(strtod(w.c_str(), nullptr)); }
      s.ops.push_back(o);
    } else if (!s.probs.empty()) s.probs.back().parseLine(is, key);
  }
  return s;
}
static std::string hexd(double v) { char b[64]; if (v == 0) v = 0; snprintf(b, sizeof b, "%a", v); return b; }
std::string dumpRowCut(const OsiRowCut &rc) {
  std::string o = "R " + hexd(rc.lb()) + " " + hexd(rc.ub()) + (rc.globallyValid() ? " G" : " L");
  const CoinPackedVector &v = rc.row();
  for (int k = 0; k < v.getNumElements(); k++) o += " " + std::to_string(v.getIndices()[k]) + ":" + hexd(v.getElements()[k]);
  return o;
}
std::string humanCut(const OsiRowCut &rc) {
  std::string o = (rc.lb() < -1e30 ? std::string() : num(rc.lb()) + " <= ");
  const CoinPackedVector &v = rc.row();
  for (int k = 0; k < v.getNumElements(); k++) o += (v.getElements()[k] < 0 ? " - " : " + ") + num(fabs(v.getElements()[k])) + " x" + std::to_string(v.getIndices()[k]);
  if (rc.ub() < 1e30) o += " <= " + num(rc.ub());
  if (rc.globallyValid()) o += " (global)";
  return o;
}
std::string dumpCuts(const OsiCuts &cs, int fr, int fc, bool withEff) {
  std::string o;
  for (int i = fr; i < cs.sizeRowCuts(); i++) { o += dumpRowCut(*cs.rowCutPtr(i)); if (withEff) o += " e" + hexd(cs.rowCutPtr(i)->effectiveness()); o += "\n"; }
  for (int i = fc; i < cs.sizeColCuts(); i++) {
    const OsiColCut *c = const_cast<OsiCuts &>(cs).colCutPtr(i);
    o += "C";
    for (int k = 0; k < c->lbs().getNumElements(); k++) o += " l" + std::to_string(c->lbs().getIndices()[k]) + ":" + hexd(c->lbs().getElements()[k]);
    for (int k = 0; k < c->ubs().getNumElements(); k++) o += " u" + std::to_string(c->ubs().getIndices()[k]) + ":" + hexd(c->ubs().getElements()[k]);
    o += "\n";
  }
  return o;
}
std::string dumpSolver(const OsiSolverInterface &si, std::vector<double> *numbers) {
  std::string o; int n = si.getNumCols(), m = si.getNumRows();
  o += "dim " + std::to_string(n) + " " + std::to_string(m) + " sense " + num(si.getObjSense()) + "\n";
  auto vec = [&](const char *nm, const double *v, int k) { o += nm; if (!v) { o += " null\n"; return; } for (int i = 0; i < k; i++) { o += ' '; o += hexd(v[i]); } o += "\n"; };
  vec("lower", si.getColLower(), n); vec("upper", si.getColUpper(), n); vec("obj", si.getObjCoefficients(), n);
  vec("rlo", si.getRowLower(), m); vec("rup", si.getRowUpper(), m);
  o += "int"; for (int j = 0; j < n; j++) o += si.isInteger(j) ? " 1" : " 0"; o += "\n";
  const CoinPackedMatrix *M = si.getMatrixByRow();
  for (int i = 0; i < m; i++) {
    o += "row"; CoinBigIndex s = M->getVectorStarts()[i];
    for (int k = 0; k < M->getVectorLengths()[i]; k++) o += " " + std::to_string(M->getIndices()[s + k]) + ":" + hexd(M->getElements()[s + k]);
    o += "\n";
  }
  if (numbers) { // compared to solver accuracy (a refactorisation may change the last bits)
    auto app = [&](const double *v, int k) { if (v) numbers->insert(numbers->end(), v, v + k); };
    app(si.getColSolution(), n); app(si.getRowActivity(), m); app(si.getRowPrice(), m); app(si.getReducedCost(), n); double ov = si.getObjValue(); app(&ov, 1);
  } else { vec("x", si.getColSolution(), n); vec("act", si.getRowActivity(), m); vec("pi", si.getRowPrice(), m); vec("dj", si.getReducedCost(), n); o += "obj " + hexd(si.getObjValue()) + "\n"; }
  o += "status " + std::to_string(si.isProvenOptimal()) + std::to_string(si.isProvenPrimalInfeasible()) + std::to_string(si.isAbandoned()) + std::to_string(si.isIterationLimitReached()) + "\n";
  int ip; double dp;
  for (int k = 0; k < (int)OsiLastIntParam; k++) if (si.getIntParam((OsiIntParam)k, ip)) o += "ip" + std::to_string(k) + "=" + std::to_string(ip) + " ";
  for (int k = 0; k < (int)OsiLastDblParam; k++) if (si.getDblParam((OsiDblParam)k, dp)) o += "dp" + std::to_string(k) + "=" + hexd(dp) + " ";
  for (int k = 0; k < (int)OsiLastHintParam; k++) { bool y; OsiHintStrength st; if (si.getHintParam((OsiHintParam)k, y, st)) o += "h" + std::to_string(k) + "=" + std::to_string(y) + std::to_string((int)st) + " "; }
  o += "\nbasis";
  CoinWarmStart *ws = si.getWarmStart();
  if (CoinWarmStartBasis *b = dynamic_cast<CoinWarmStartBasis *>(ws)) {
    for (int j = 0; j < b->getNumStructural(); j++) o += " " + std::to_string((int)b->getStructStatus(j));
    o += " |";
    for (int j = 0; j < b->getNumArtificial(); j++) o += " " + std::to_string((int)b->getArtifStatus(j));
  }
  delete ws;
  o += "\n";
  return o;
}
bool inBox(const Point &x, const double *lo, const double *up) {
  for (size_t j = 0; j < x.size(); j++) if (x[j] < lo[j] - 1e-9 || x[j] > up[j] + 1e-9) return false;
  return true;
}
const Point *violates(const OsiRowCut &rc, const std::vector<const Point *> &pts, double tol) {
  const CoinPackedVector &v = rc.row(); int n = v.getNumElements();
  const int *ix = v.getIndices(); const double *el = v.getElements();
  double lb = rc.lb(), ub = rc.ub();
  if (std::isnan(lb) || std::isnan(ub)) return pts.empty() ? nullptr : pts[0];
  for (const Point *x : pts) {
    double s = 0, m = 0;
    for (int k = 0; k < n; k++) {
      if (ix[k] < 0 || ix[k] >= (int)x->size()) return x;
      double t = el[k] * (*x)[ix[k]]; s += t; m += fabs(t); m = std::max(m, fabs(el[k]));
    }
    if (std::isnan(s)) return x;
    if (ub < BIG && s > ub + tol * (m + fabs(ub)) + 1e-9) return x;
    if (lb > -BIG && s < lb - tol * (m + std::min(fabs(lb), 1e6)) - 1e-9) return x;
  }
  return nullptr;
}
uint64_t maxCallSteps = 0;
uint64_t callBudget = 60000000ull; // basic blocks one library call may execute
extern int stackPattern;
LibCall::LibCall() { if (stackPattern >= 0) seam::dirtyStack(stackPattern); s0 = seam::steps; if (seam::inLib == 0 && !sched::on) { seam::stepBudget = seam::steps + callBudget; seam::trapAt = seam::stepBudget; } seam::inLib++; }
LibCall::~LibCall() { seam::inLib--; if (seam::inLib == 0 && !sched::on) { maxCallSteps = std::max(maxCallSteps, seam::steps - s0); seam::trapAt = seam::stepBudget = ~0ull; } }

Scenario makeScenario(const std::string &prop, uint64_t seed) {
  if (prop == "C07") return genThreads(prop, seed);
  if (prop == "C10") return genTime(prop, seed);
  if (prop == "C11") return genFile(prop, seed);
  if (prop == "C12") return genStored(prop, seed);
  if (prop == "C13") return genProbing(prop, seed);
  if (prop == "C15") return genCpp(prop, seed);
  if (prop == "C16") return genClean(prop, seed);
  if (prop == "C17") return genSearch(prop, seed);
  if (prop == "C18") return genSettings(prop, seed);
  if (prop == "C14") { // lifecycles of every part
    switch (seed % 13) { case 12: return genSettings(prop, seed); case 0: return genTime(prop, seed); case 1: return genFile(prop, seed); case 2: return genStored(prop, seed); case 3: return genProbing(prop, seed); case 4: return genClean(prop, seed); case 5: return genCpp(prop, seed); }
  }
  return genWorld(prop, seed);
}
void runScenario(const Scenario &s, Result &r) {
  int k = (int)s.e("sim", 0);
  switch (k) {
    case 0: runWorld(s, r); break;
    case 1: runThreads(s, r); break;
    case 2: runTime(s, r); break;
    case 3: runFile(s, r); break;
    case 4: runStored(s, r); break;
    case 5: runProbing(s, r); break;
    case 6: runCpp(s, r); break;
    case 7: runClean(s, r); break;
    case 8: runSearch(s, r); break;
    case 9: runSettings(s, r); break;
  }
  Hash h; h.s(r.transcript); h.s(r.v.cls); h.s(r.v.detail); r.hash = h.h;
}
