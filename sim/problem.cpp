#include "problem.h"

std::string Problem::text() const {
  std::string o = "family " + (family.empty() ? std::string("x") : family) + "\n";
  for (int j = 0; j < n; j++)
    o += "col " + num(lb[j]) + " " + num(ub[j]) + " " + (isInt[j] ? "1 " : "0 ") + num(obj[j]) + "\n";
  for (auto &r : rows) {
    o += "row " + num(r.lo) + " " + num(r.hi);
    for (size_t k = 0; k < r.idx.size(); k++) o += " " + std::to_string(r.idx[k]) + " " + num(r.val[k]);
    o += "\n";
  }
  for (auto &s : alldiff) {
    o += "alldiff";
    for (int j : s) o += " " + std::to_string(j);
    o += "\n";
  }
  return o;
}
bool Problem::parseLine(std::istringstream &is, const std::string &key) {
  if (key == "family") { is >> family; return true; }
  if (key == "col") { double l, u, c; int in; is >> l >> u >> in >> c; addCol(l, u, in != 0, c); return true; }
  if (key == "row") {
    Row r; is >> r.lo >> r.hi; int j; double v;
    while (is >> j >> v) if (j >= 0 && j < n) { r.idx.push_back(j); r.val.push_back(v); }
    rows.push_back(r); return true;
  }
  if (key == "alldiff") { std::vector<int> s; int j; while (is >> j) if (j >= 0 && j < n) s.push_back(j); alldiff.push_back(s); return true; }
  return false;
}

OsiClpSolverInterface *makeSolver(const Problem &p) {
  OsiClpSolverInterface *si = new OsiClpSolverInterface();
  si->messageHandler()->setLogLevel(0);
  si->setHintParam(OsiDoReducePrint, true, OsiHintTry);
  CoinPackedMatrix m(false, 0, 0);
  m.setDimensions(0, p.n);
  std::vector<double> rl, ru, cl, cu;
  for (auto &r : p.rows) {
    m.appendRow((int)r.idx.size(), r.idx.data(), r.val.data());
    rl.push_back(osiInf(r.lo)); ru.push_back(osiInf(r.hi));
  }
  for (int j = 0; j < p.n; j++) { cl.push_back(osiInf(p.lb[j])); cu.push_back(osiInf(p.ub[j])); }
  si->loadProblem(m, cl.data(), cu.data(), p.obj.data(), rl.data(), ru.data());
  for (int j = 0; j < p.n; j++) if (p.isInt[j]) si->setInteger(j);
  si->setObjSense(1.0);
  return si;
}

// ---- oracle ---------------------------------------------------------------
static bool solveSmall(int c, double A[3][3], double b[3], double x[3]) {
  double M[3][4];
  for (int i = 0; i < c; i++) { for (int k = 0; k < c; k++) M[i][k] = A[i][k]; M[i][c] = b[i]; }
  for (int i = 0; i < c; i++) {
    int pv = i;
    for (int k = i + 1; k < c; k++) if (fabs(M[k][i]) > fabs(M[pv][i])) pv = k;
    if (fabs(M[pv][i]) < 1e-9) return false;
    if (pv != i) for (int k = 0; k <= c; k++) std::swap(M[i][k], M[pv][k]);
    for (int r = 0; r < c; r++) if (r != i) {
      double f = M[r][i] / M[i][i];
      for (int k = i; k <= c; k++) M[r][k] -= f * M[i][k];
    }
  }
  for (int i = 0; i < c; i++) x[i] = M[i][c] / M[i][i];
  return true;
}
void Oracle::build(const Problem &p, long maxPoints, const std::vector<char> *rowOn) {
  pts.clear(); complete = true;
  std::vector<int> ic, cc;
  for (int j = 0; j < p.n; j++) (p.isInt[j] ? ic : cc).push_back(j);
  if (cc.size() > 3) { complete = false; return; }
  std::vector<double> lo(ic.size()), hi(ic.size());
  double prod = 1;
  for (size_t k = 0; k < ic.size(); k++) {
    double l = ceil(p.lb[ic[k]] - 1e-9), u = floor(p.ub[ic[k]] + 1e-9);
    if (l <= -1e9 && u >= 1e9) { l = -4; u = 4; complete = false; }
    else if (u >= 1e9) { u = l + 6; complete = false; }
    else if (l <= -1e9) { l = u - 6; complete = false; }
    lo[k] = l; hi[k] = u;
    if (u < l) return;
    prod *= (u - l + 1);
  }
  while (prod > maxPoints) { // shrink the widest range
    size_t w = 0;
    for (size_t k = 0; k < ic.size(); k++) if (hi[k] - lo[k] > hi[w] - lo[w]) w = k;
    if (hi[w] - lo[w] < 1.5) break;
    double old = hi[w] - lo[w] + 1; hi[w] = lo[w] + floor((hi[w] - lo[w]) / 2);
    prod = prod / old * (hi[w] - lo[w] + 1); complete = false;
  }
  if (prod > 4 * maxPoints) { complete = false; return; }
  std::vector<int> ri;
  for (size_t i = 0; i < p.rows.size(); i++) if (!rowOn || (*rowOn)[i]) ri.push_back((int)i);
  int c = (int)cc.size();
  std::vector<int> cpos(p.n, -1);
  for (int k = 0; k < c; k++) cpos[cc[k]] = k;
  Point x(p.n, 0.0);
  std::vector<double> cur = lo;
  struct H { double a[3]; double b; }; // a.y <= b
  std::vector<H> hs;
  for (;;) {
    for (size_t k = 0; k < ic.size(); k++) x[ic[k]] = cur[k];
    bool ok = true;
    for (auto &s : p.alldiff) {
      for (size_t a = 0; a < s.size() && ok; a++)
        for (size_t b = a + 1; b < s.size(); b++) if (s[a] != s[b] && x[s[a]] == x[s[b]]) { ok = false; break; }
      if (!ok) break;
    }
    if (ok) {
      hs.clear();
      for (int i : ri) {
        const Row &r = p.rows[i];
        double act = 0, a[3] = {0, 0, 0}; bool hasC = false;
        for (size_t k = 0; k < r.idx.size(); k++) {
          int q = cpos[r.idx[k]];
          if (q < 0) act += r.val[k] * x[r.idx[k]];
          else if (r.val[k] != 0) { a[q] += r.val[k]; hasC = true; }
        }
        if (!hasC) {
          if ((r.hi < INF && act > r.hi + 1e-9) || (r.lo > -INF && act < r.lo - 1e-9)) { ok = false; break; }
        } else {
          if (r.hi < INF) { H h; for (int q = 0; q < 3; q++) h.a[q] = a[q]; h.b = r.hi - act; hs.push_back(h); }
          if (r.lo > -INF) { H h; for (int q = 0; q < 3; q++) h.a[q] = -a[q]; h.b = act - r.lo; hs.push_back(h); }
        }
      }
      if (ok && c == 0) pts.push_back(x);
      else if (ok) {
        for (int q = 0; q < c; q++) {
          H h = {{0, 0, 0}, 0};
          double u = std::min(p.ub[cc[q]], 1e4), l = std::max(p.lb[cc[q]], -1e4);
          h.a[q] = 1; h.b = u; hs.push_back(h);
          h.a[q] = -1; h.b = -l; hs.push_back(h);
        }
        int H_ = (int)hs.size();
        std::vector<Point> found;
        auto tryV = [&](int i0, int i1, int i2) {
          double A[3][3], b[3], y[3]; int id[3] = {i0, i1, i2};
          for (int q = 0; q < c; q++) { for (int k = 0; k < c; k++) A[q][k] = hs[id[q]].a[k]; b[q] = hs[id[q]].b; }
          if (!solveSmall(c, A, b, y)) return;
          for (auto &h : hs) {
            double s = 0, m = fabs(h.b) + 1;
            for (int q = 0; q < c; q++) { s += h.a[q] * y[q]; m += fabs(h.a[q] * y[q]); }
            if (s > h.b + 1e-9 * m) return;
          }
          for (int q = 0; q < c; q++) x[cc[q]] = y[q];
          for (auto &f : found) {
            bool same = true;
            for (int q = 0; q < c; q++) if (fabs(f[cc[q]] - y[q]) > 1e-9) same = false;
            if (same) return;
          }
          found.push_back(x);
        };
        for (int i = 0; i < H_; i++) {
          if (c == 1) tryV(i, 0, 0);
          else for (int k = i + 1; k < H_; k++) {
            if (c == 2) tryV(i, k, 0);
            else for (int l = k + 1; l < H_; l++) tryV(i, k, l);
          }
        }
        pts.insert(pts.end(), found.begin(), found.end());
      }
    }
    size_t k = 0;
    for (; k < ic.size(); k++) { cur[k] += 1; if (cur[k] <= hi[k] + 0.5) break; cur[k] = lo[k]; }
    if (k == ic.size()) break;
  }
}

// ---- model families -------------------------------------------------------
std::string randomFamily(Rng &r) {
  static const std::vector<std::string> f = {"knap", "knap", "pack", "pack", "cover", "gen", "gen", "mixed", "mixed", "zh", "zh", "canon", "alld", "dup", "eqk", "vub"};
  return r.pick(f);
}
static double rc(Rng &r, int m) { int v = 0; while (!v) v = r.range(-m, m); return v; }
static Row mk(const std::map<int, double> &m, double lo, double hi) {
  Row r; r.lo = lo; r.hi = hi;
  for (auto &e : m) if (e.second != 0) { r.idx.push_back(e.first); r.val.push_back(e.second); }
  return r;
}
static void addAround(Rng &r, Problem &p, const std::map<int, double> &m, int sense, double frac) {
  // pick a rhs so that the row is neither trivially slack nor surely infeasible
  double mn = 0, mx = 0;
  for (auto &e : m) {
    double l = std::max(p.lb[e.first], -8.0), u = std::min(p.ub[e.first], 8.0);
    mn += std::min(e.second * l, e.second * u); mx += std::max(e.second * l, e.second * u);
  }
  double b = floor(mn + (mx - mn) * frac);
  if (sense == 0) p.rows.push_back(mk(m, -INF, b));
  else if (sense == 1) p.rows.push_back(mk(m, mx - (b - mn), INF));
  else if (sense == 2) p.rows.push_back(mk(m, b, b));
  else { double w = r.range(1, 3); p.rows.push_back(mk(m, b - w, b)); }
}
Problem randomProblem(Rng &r, const std::string &family) {
  Problem p; p.family = family;
  auto objAll = [&](int kind) {
    for (int j = 0; j < p.n; j++) p.obj[j] = kind == 0 ? -r.range(1, 9) : kind == 1 ? r.range(1, 9) : r.range(-6, 6);
  };
  if (family == "rsbig") { // many fractional basic columns: the tableau is larger than the row limit
    int n = r.range(518, 560), m = r.chance(1, 3) ? r.range(1, 60) : 0;
    for (int j = 0; j < n; j++) { p.addCol(0, 5, true, -r.range(1, 9)); Row q; q.lo = -INF; q.hi = 2 * r.range(0, 4) + 1; q.idx = {j}; q.val = {2}; p.rows.push_back(q); }
    for (int i = 0; i < m; i++) { Row q; q.lo = -INF; int k = r.below(n - 1); q.idx = {k, k + 1}; q.val = {1, 1}; q.hi = 11; p.rows.push_back(q); }
  } else if (family == "long") { // one row with many 0-1 columns: judged by dynamic programming, not by enumeration
    int n = r.range(15, 34), mx = r.pick(std::vector<int>{3, 9, 30, 12});
    std::map<int, double> a; bool neg = r.chance(1, 4);
    for (int j = 0; j < n; j++) { p.addCol(0, 1, true, 0); a[j] = neg && r.chance(1, 3) ? -r.range(1, mx) : r.range(1, mx); }
    addAround(r, p, a, r.chance(3, 4) ? 0 : r.range(0, 3), r.chance(1, 2) ? 0.1 + 0.3 * r.unit() : 0.3 + 0.5 * r.unit());
    for (int j = 0; j < n; j++) p.obj[j] = r.chance(1, 2) ? -fabs(a[j]) - r.range(-1, 2) : -r.range(1, 9);
    if (p.rows[0].lo > -INF && p.rows[0].hi >= INF) for (double &c : p.obj) c = -c;
  } else if (family == "knap" || family == "eqk") {
    int n = r.range(4, 11), m = r.range(1, 3);
    for (int j = 0; j < n; j++) {
      if (r.chance(1, 12)) p.addCol(r.range(-1, 0), r.range(2, 3), true, 0);
      else if (r.chance(1, 14)) p.addCol(0, r.range(1, 6), false, 0);
      else p.addCol(0, 1, true, 0);
    }
    for (int j = 0, c = 0; j < p.n; j++) if (!p.isInt[j] && ++c > 2) { p.isInt[j] = 1; p.lb[j] = 0; p.ub[j] = 1; }
    int mx = r.chance(1, 2) ? 9 : r.chance(1, 2) ? 30 : 4;
    for (int i = 0; i < m; i++) {
      std::map<int, double> a; bool neg = r.chance(1, 3);
      for (int j = 0; j < n; j++) if (r.chance(4, 5)) a[j] = neg ? rc(r, mx) : r.range(1, mx);
      if (a.size() < 2) continue;
      if (r.chance(1, 8)) for (auto &e : a) e.second *= 0.5;
      int sense = family == "eqk" ? (r.chance(2, 3) ? 2 : 3) : r.chance(2, 3) ? 0 : r.range(0, 3);
      addAround(r, p, a, sense, 0.25 + 0.5 * r.unit());
    }
    if (r.chance(1, 3)) { // cliques for GUB information
      int k = r.range(1, 2);
      for (int q = 0; q < k; q++) {
        std::map<int, double> a;
        for (int j = 0; j < n; j++) if (p.binary(j) && r.chance(1, 3)) a[j] = 1;
        if (a.size() > 1) p.rows.push_back(mk(a, r.chance(1, 4) ? 1 : -INF, 1));
      }
    }
    if (r.chance(1, 10)) { // rows over 0-1 columns that leave one way to satisfy them, or no slack, or (rarely) none
      std::vector<int> b; for (int j = 0; j < n; j++) if (p.binary(j)) b.push_back(j); int k = r.range(1, 3);
      for (int q = 0; q < k && b.size() > 1; q++) { std::map<int, double> a; int neg = 0, pos = 0; for (int t = 0; t < 3; t++) { int j = r.pick(b); if (!a.count(j)) { a[j] = r.chance(1, 2) ? 1 : -1; (a[j] > 0 ? pos : neg)++; } }
        int off = r.chance(1, 25) ? -1 : r.chance(1, 2) ? 0 : 1; if (r.chance(1, 2)) p.rows.push_back(mk(a, -INF, off - neg)); else p.rows.push_back(mk(a, pos - off, INF)); } }
    objAll(r.chance(3, 4) ? 0 : 2);
  } else if (family == "pack" || family == "cover") {
    bool cov = family == "cover";
    int n = r.range(4, 12);
    for (int j = 0; j < n; j++) p.addCol(0, 1, true, 0);
    int kind = r.below(5);
    auto pairRow = [&](std::vector<int> v) {
      std::map<int, double> a; for (int j : v) a[j] = 1;
      double lo = -INF, hi = 1;
      if (cov) { lo = 1; hi = r.chance(1, 10) ? 1 : INF; }
      else if (r.chance(1, 10)) lo = 1;
      else if (r.chance(1, 12)) lo = 0;
      p.rows.push_back(mk(a, lo, hi));
    };
    if (kind == 0) { // odd cycle + chords
      int k = r.chance(1, 2) ? 5 : 7; if (k > n) k = (n & 1) ? n : n - 1;
      if (k < 3) k = 3;
      for (int i = 0; i < k; i++) pairRow({i, (i + 1) % k});
      int ex = r.below(4);
      for (int q = 0; q < ex; q++) { int a = r.below(n), b = r.below(n); if (a != b) pairRow({a, b}); }
      for (int j = k; j < n; j++) if (r.chance(1, 2)) pairRow({j, r.below(k)});
    } else if (kind == 1) { // pairwise conflicts forming cliques
      int k = r.range(3, std::min(n, 6));
      for (int a = 0; a < k; a++) for (int b = a + 1; b < k; b++) if (!r.chance(1, 15)) pairRow({a, b});
      for (int j = k; j < n; j++) for (int b = 0; b < j; b++) if (r.chance(1, 3)) pairRow({b, j});
    } else { // random subsets
      int m = r.range(3, 10);
      for (int i = 0; i < m; i++) {
        std::vector<int> v; int sz = r.range(2, 4);
        for (int q = 0; q < sz; q++) { int j = r.below(n); if (std::find(v.begin(), v.end(), j) == v.end()) v.push_back(j); }
        if (v.size() > 1) pairRow(v);
      }
    }
    if (r.chance(1, 4)) { // side constraints that must not be mistaken for cliques
      int k = r.range(1, 2);
      for (int q = 0; q < k; q++) {
        std::map<int, double> a; int t = r.below(4);
        for (int j = 0; j < n; j++) if (r.chance(1, 2)) a[j] = t == 0 ? rc(r, 2) : t == 1 ? (r.chance(1, 3) ? -1 : 1) : t == 2 ? 1 : r.range(1, 3);
        if (a.size() < 2) continue;
        if (t == 2) p.rows.push_back(mk(a, r.chance(1, 2) ? 1 : -INF, 2));
        else if (t == 1) p.rows.push_back(mk(a, r.chance(1, 2) ? -1 : 0, 1));
        else addAround(r, p, a, r.below(2), 0.5);
      }
    }
    if (r.chance(1, 5)) { // rows that are conflicts only once a switch is fixed
      int t = r.below(4); p.addCol(t == 3 ? -1 : 0, t == 2 ? 2 : t == 3 ? r.below(2) : 1, true, 0); int y = p.n - 1;
      for (auto &q : p.rows) if (q.idx.size() < 5 && !r.chance(1, 5)) {
        if (t == 3) { q.idx.push_back(y); q.val.push_back(1); }
        else if (q.hi >= INF) { q.idx.push_back(y); q.val.push_back(1); if (t == 1) q.lo += 1; }
        else if (t == 1) { q.idx.push_back(y); q.val.push_back(1); q.hi += 1; if (q.lo > -INF && r.chance(1, 2)) q.lo += 1; }
        else { q.idx.push_back(y); q.val.push_back(-1); q.hi -= 1; if (q.lo > -INF) q.lo -= 1; }
      }
    }
    if (r.chance(1, 6)) { // one non-binary column in a would-be clique row
      bool in = r.chance(1, 2);
      p.addCol(in ? r.range(-1, 0) : 0, in ? 2 : 1, in, 0);
      std::map<int, double> a; a[p.n - 1] = 1; a[r.below(n)] = 1; a[r.below(n)] = 1;
      p.rows.push_back(mk(a, -INF, 1));
    }
    if (r.chance(1, 8)) { // columns that are 0-1 only deep in the tree
      int k = r.range(1, 2);
      for (int q = 0; q < k; q++) { int j = r.below(n); if (r.chance(2, 3)) p.lb[j] = -1; else p.ub[j] = 2; }
    }
    objAll(cov ? 1 : 0);
    if (r.chance(1, 3)) for (int j = 0; j < p.n; j++) p.obj[j] = cov ? 1 : -1;
  } else if (family == "gen" || family == "zh") {
    int n = r.range(2, family == "zh" ? 7 : 5), m = r.range(1, 5);
    for (int j = 0; j < n; j++) {
      int k = r.below(6);
      if (k < 3) p.addCol(0, 1, true, 0);
      else if (k == 3) p.addCol(0, r.range(2, 4), true, 0);
      else if (k == 4) p.addCol(r.range(-2, 0), r.range(1, 3), true, 0);
      else p.addCol(0, r.chance(1, 2) ? INF : 5, true, 0);
    }
    if (r.chance(1, 8)) p.addCol(0, r.range(1, 4), false, 0);
    int mx = family == "zh" ? 3 : 6;
    for (int i = 0; i < m; i++) {
      std::map<int, double> a;
      for (int j = 0; j < p.n; j++) if (r.chance(2, 3)) a[j] = r.chance(1, 4) ? rc(r, mx) : r.range(1, mx);
      if (a.empty()) a[r.below(p.n)] = r.range(1, mx);
      if (r.chance(1, 10)) { double f = r.chance(1, 2) ? 0.5 : 2; for (auto &e : a) e.second *= f; }
      addAround(r, p, a, r.chance(1, 2) ? 0 : r.range(0, 3), 0.2 + 0.6 * r.unit());
    }
    objAll(r.chance(2, 3) ? 0 : 2);
  } else if (family == "mixed" || family == "vub") {
    int ni = r.range(2, 6), nc = r.range(1, family == "vub" ? 3 : 2);
    for (int j = 0; j < ni; j++) p.addCol(0, r.chance(3, 4) ? 1 : r.range(2, 4), true, 0);
    for (int j = 0; j < nc; j++) p.addCol(r.chance(1, 6) ? -1 : 0, r.chance(1, 8) ? 20 : r.range(1, 9), false, 0);
    int extra = 0, last = p.n;
    for (int j = ni; j < last; j++) if (r.chance(family == "vub" ? 4 : 2, 5)) { // variable bounds
      std::map<int, double> a; int y = r.below(ni); double u = r.range(1, 8);
      bool lower = r.chance(1, 5);
      a[j] = 1; a[y] = lower ? -std::min(u, 2.0) : -u;
      double rhs = 0, c = 0;
      if (ni < 8 && r.chance(1, 4)) { // a further column in the bound, often fixed
        double v = r.range(0, 3); p.addCol(v, v + (r.chance(1, 2) ? 0 : 1), true, 0); if (r.chance(1, 4)) p.lb[p.n - 1] -= 1;
        c = rc(r, 3); a[p.n - 1] = c; rhs = c * v; extra++;
      }
      if (r.chance(1, 10)) p.rows.push_back(mk(a, rhs, rhs));
      else if (lower) { if (r.chance(1, 4)) { for (auto &e : a) e.second = -e.second; p.rows.push_back(mk(a, -INF, -rhs)); } else p.rows.push_back(mk(a, rhs, r.chance(1, 10) ? rhs + r.range(2, 9) : INF)); }
      else if (r.chance(1, 4)) { for (auto &e : a) e.second = -e.second; p.rows.push_back(mk(a, -rhs, INF)); }
      else p.rows.push_back(mk(a, r.chance(1, 10) ? rhs - r.range(2, 9) : -INF, rhs));
    }
    int m = r.range(1, 3);
    for (int i = 0; i < m; i++) {
      std::map<int, double> a;
      bool cont = nc > 1 && family == "vub" && r.chance(1, 3); // a row of continuous columns only
      for (int j = 0; j < p.n; j++) if (cont ? j >= ni && j < last && r.chance(4, 5) : r.chance(j < last ? 3 : 1, 4)) a[j] = r.chance(1, 3) ? rc(r, 5) : r.range(1, 6);
      if (a.size() < 2) continue;
      addAround(r, p, a, r.chance(1, 2) ? 0 : r.range(0, 3), 0.25 + 0.5 * r.unit());
    }
    for (int j = ni; j < last; j++) {
      if (r.chance(1, 12)) { // x -> -x
        double l = p.lb[j]; p.lb[j] = -p.ub[j]; p.ub[j] = -l;
        for (auto &q : p.rows) for (size_t k = 0; k < q.idx.size(); k++) if (q.idx[k] == j) q.val[k] = -q.val[k];
      }
      if (r.chance(1, 20)) p.lb[j] = p.ub[j] = floor(p.lb[j] + (p.ub[j] - p.lb[j]) * 0.4) + (r.chance(2, 3) ? 0.5 : 0); // fixed, perhaps at a fraction
    }
    objAll(r.chance(2, 3) ? 0 : 2);
  } else if (family == "canon") { // A x >= b with every bound also a row
    int n = r.range(2, 6);
    for (int j = 0; j < n; j++) {
      int k = r.below(8);
      if (k < 6) p.addCol(0, 1, true, 0);
      else if (k == 6) p.addCol(0, r.range(2, 3), true, 0);
      else p.addCol(0, r.range(1, 3), false, 0);
    }
    for (int j = 0, c = 0; j < p.n; j++) if (!p.isInt[j] && ++c > 2) { p.isInt[j] = 1; p.ub[j] = 1; }
    int m = r.range(1, 4);
    for (int i = 0; i < m; i++) {
      std::map<int, double> a;
      for (int j = 0; j < n; j++) if (r.chance(3, 4)) a[j] = r.chance(2, 3) ? -r.range(1, 5) : rc(r, 4);
      if (a.empty()) continue;
      addAround(r, p, a, 1, 0.3 + 0.4 * r.unit());
    }
    for (int j = 0; j < n; j++) {
      std::map<int, double> a; a[j] = -1; p.rows.push_back(mk(a, -p.ub[j], INF));
      a[j] = 1; p.rows.push_back(mk(a, p.lb[j], INF));
    }
    objAll(r.chance(2, 3) ? 0 : 2);
  } else if (family == "alld") {
    int n = r.range(3, 6); int far = r.chance(1, 3) ? r.range(18, 70) : 0, mid = far ? r.range(0, far) : 0; // values far apart
    for (int j = 0; j < n; j++) { int l = r.range(0, 2); if (far) { if (r.chance(1, 2)) l += r.chance(2, 3) ? far : mid; if (r.chance(1, 10)) l -= 40; } p.addCol(l, l + r.range(far ? 0 : 1, 4), true, 0); }
    int k = r.range(1, 3);
    for (int q = 0; q < k; q++) {
      std::vector<int> v;
      for (int j = 0; j < n; j++) if (r.chance(3, 4)) v.push_back(j);
      for (int j = (int)v.size() - 1; j > 0; j--) std::swap(v[j], v[r.below(j + 1)]);
      if (v.size() > 1) p.alldiff.push_back(v);
    }
    if (r.chance(1, 2)) { std::map<int, double> a; for (int j = 0; j < n; j++) if (r.chance(1, 2)) a[j] = r.range(1, 3); if (a.size()) addAround(r, p, a, r.below(2), 0.5); }
    objAll(2);
  } else { // dup: few rows, small integers, repeated rows and columns
    int n = r.range(3, 9), m = r.range(2, 4);
    for (int j = 0; j < n; j++) p.addCol(r.chance(1, 8) ? 1 : 0, r.chance(3, 4) ? 1 : r.range(2, 3), true, 0);
    for (int j = 0; j < n; j++) if (p.lb[j] > p.ub[j]) p.ub[j] = p.lb[j];
    std::vector<std::map<int, double>> R;
    for (int i = 0; i < m; i++) {
      std::map<int, double> a;
      if (i && r.chance(1, 2)) { a = R[r.below(i)]; if (r.chance(1, 2)) for (int j = 0; j < n; j++) if (!a.count(j) && r.chance(1, 4)) a[j] = 1; }
      else for (int j = 0; j < n; j++) if (r.chance(1, 2)) a[j] = r.chance(4, 5) ? 1 : r.range(1, 3);
      if (a.empty()) a[r.below(n)] = 1;
      R.push_back(a);
    }
    if (r.chance(2, 3)) for (int q = 0; q < 3; q++) { // duplicate columns
      int s = r.below(n), d = r.below(n);
      for (auto &a : R) { if (a.count(s)) a[d] = a[s]; else a.erase(d); }
    }
    for (auto &a : R) { if (a.empty()) continue; double b = r.range(1, 3); p.rows.push_back(mk(a, r.chance(1, 2) ? b : -INF, b)); }
    for (int j = 0; j < n; j++) p.obj[j] = r.range(1, 4) * (r.chance(1, 4) ? -1 : 1);
  }
  return p;
}
