#include "world.h"
void runWorld(const Scenario &s0, Result &r) {
  if (s0.probs.empty()) return;
  Scenario s = s0;
  for (size_t i = 0; i < s.gens.size(); i++) s.gens[i].p["#"] = (double)i;
  int reps = s.prop == "C14" ? (int)s.e("reps", 1) : 1;
  (void)reps;
  uint64_t cb = callBudget; if (s.e("budget")) callBudget = (uint64_t)s.e("budget");
  World w(s, r); w.run(); callBudget = cb;
}
Scenario genWorld(const std::string &prop, uint64_t seed) {
  Rng r(seed * 2654435761ull + 17);
  Scenario s; s.prop = prop; s.seed = seed;
  s.env["sim"] = 0;
  bool faults = !r.chance(1, 4); // swarm: a quarter of the runs is fault free
  int want = prop == "C03" ? 1 : 0;
  // the main generator is drawn first, then a family of models it can do something with
  static const std::map<std::string, std::vector<std::string>> fit = {
    {"KNAP", {"knap", "knap", "knap", "eqk", "vub", "mixed", "gen"}}, {"CLIQ", {"pack", "pack", "pack", "pack", "knap", "cover"}}, {"ODDH", {"pack", "pack", "cover", "cover", "knap"}},
    {"MIRO", {"mixed", "mixed", "vub", "vub", "gen", "knap", "zh"}}, {"REDS", {"gen", "gen", "mixed", "mixed", "zh", "knap", "pack", "vub"}}, {"SIMP", {"gen", "mixed", "knap", "zh", "vub"}},
    {"ZERO", {"zh", "zh", "gen", "pack", "knap", "cover"}}, {"LIFT", {"canon"}}, {"ALLD", {"alld"}}, {"DUPR", {"dup", "pack", "eqk"}}, {"STOR", {"knap", "gen", "mixed", "pack"}}};
  static const std::vector<std::string> mainK = {"KNAP", "KNAP", "CLIQ", "CLIQ", "ODDH", "ODDH", "MIRO", "MIRO", "REDS", "REDS", "SIMP", "ZERO", "ZERO", "LIFT", "ALLD", "DUPR", "STOR"};
  static const std::vector<std::string> mainK3 = {"ALLD", "ALLD", "ALLD", "DUPR", "DUPR", "KNAP", "REDS"};
  static const std::vector<std::string> mainK2 = {"KNAP", "CLIQ", "MIRO", "REDS", "ZERO", "ZERO", "LIFT", "STOR", "KNAP", "CLIQ", "ODDH"};
  std::string mk = r.pick(prop == "C03" ? mainK3 : prop == "C02" ? mainK2 : mainK);
  std::string fam = r.chance(1, 12) && mk != "ALLD" && mk != "LIFT" ? randomFamily(r) : r.pick(fit.at(mk));
  if ((mk == "KNAP" && r.chance(1, prop == "C07" ? 30 : 8)) || (mk == "MIRO" && r.chance(1, 40))) fam = "long";
  if (prop == "C14" && mk == "REDS" && r.chance(1, 50)) { // a tableau beyond the row limit: one call, the limit close to the number of fractional columns
    Problem p = randomProblem(r, "rsbig"); s.probs.push_back(p); GenCfg c; c.kind = "REDS"; double t = p.n - r.range(1, 2) + 0.5; c.p["maxTab"] = t * t * p.n; c.p["limit"] = 50; s.gens.push_back(c); s.env["workers"] = 1; s.env["budget"] = 1e9; Op o; o.name = "gen"; o.a = {0, 0, 0, 0, 0}; s.ops.push_back(o); return s;
  }
  Problem p = randomProblem(r, fam);
  if (p.rows.empty() && fam != "alld") { std::vector<int> ix; Row q; q.lo = -INF; q.hi = 1; for (int j = 0; j < std::min(2, p.n); j++) { q.idx.push_back(j); q.val.push_back(1); } p.rows.push_back(q); }
  bool wide = mk == "SIMP" && prop == "C14" && r.chance(1, 4) && !p.rows.empty(); // badly scaled rows
  if (wide) for (int z = 0; z < 2; z++) { Row &q = p.rows[r.below((int)p.rows.size())]; if (q.idx.empty()) continue; size_t k = r.below((int)q.idx.size()); static const double f[] = {1e-2, 1e-3, 1e-5, 1e-9, 1e-13, 1e4, 1e6, 1e8, 1e9}; double g = f[r.below(9)]; if (g < 1 || p.isInt[q.idx[k]]) q.val[k] *= g; }
  s.probs.push_back(p);
  bool two = ((prop == "C09" || prop == "C07") && r.chance(1, 2)) || (prop != "C02" && r.chance(1, 10));
  if (two) { Problem q = randomProblem(r, r.chance(1, 2) ? fam : randomFamily(r)); if (!q.rows.empty()) s.probs.push_back(q); }
  std::vector<std::string> kinds;
  for (auto &k : allKinds()) if (suits(k, p)) kinds.push_back(k);
  if (prop == "C03") { std::vector<std::string> pref; for (auto &k : kinds) if (k == "ALLD" || k == "DUPR" || k == "KNAP" || k == "REDS" || k == "MIRO") pref.push_back(k); if (!pref.empty()) kinds = pref; }
  int ng = r.range(1, want ? 2 : 3);
  if (wide) ng = 1;
  for (int i = 0; i < ng; i++) s.gens.push_back(randomCfg(r, i == 0 && suits(mk, p) ? mk : r.pick(kinds), p));
  if ((prop == "C08") && r.chance(1, 2)) { GenCfg c = randomCfg(r, s.gens[0].kind, p); if (s.gens[0].kind != "CLIQ") s.gens.push_back(c); }
  int W = prop == "C02" ? r.range(1, 4) : r.range(1, 3);
  s.env["workers"] = W;
  s.env["proto"] = r.chance(1, 3);
  // swarm weights
  int wPoint = r.below(5), wBranch = r.range(1, 5), wMsg = r.below(4), wCopy = prop == "C08" ? 6 : prop == "C14" ? 4 : r.below(2), wSet = r.below(3), wStale = r.below(3), wReset = r.below(2), wClock = r.below(2), wApply = r.range(0, 2), wObj = r.below(6), wGen = 9;
  if (prop == "C02") wMsg = r.range(1, 4);
  if (prop == "C09") { wReset = r.range(0, 2); wSet = r.below(2); }
  if (!faults) { wPoint = wStale = wClock = wReset = 0; }
  int len = r.range(6, prop == "C08" || prop == "C14" ? 22 : 30);
  int tot = wPoint + wBranch + wMsg * 2 + wCopy + wSet + wStale + wReset + wClock + wApply + wGen + wObj + (two ? 2 : 0);
  static const int opts[] = {0, 0, 0, 1, 4, 8, 12, 16, 32, 64, 128, 512};
  for (int i = 0; i < len; i++) {
    int t = r.below(tot); int k = r.below(W); Op o;
    auto add = [&](const char *n, std::vector<double> a) { o.name = n; o.a = a; s.ops.push_back(o); };
    int G = r.below(8);
    if (prop == "C02" && s.gens[0].kind == "ZERO" && r.chance(1, 12)) { // local calls at a node, then global cuts are asked for
      add("fixpt", {(double)k, (double)r.below(100000), 1, 1}); add("gen", {(double)k, 0, 1, 0, 0}); o.s = "ZERO.flags"; add("set", {(double)k, 0, 1}); o.s = ""; if (r.chance(1, 2)) add("reset", {(double)k}); if (r.chance(1, 2)) add("obj", {(double)k, (double)r.below(100000)}); add("gen", {(double)k, 0, 0, 0, 0}); continue; }
    if (r.chance(1, 10)) { // decide the columns whose range is not 0-1, then look for cuts
      std::vector<int> odd; for (int j = 0; j < p.n; j++) if (p.isInt[j] && (p.lb[j] < 0 || p.ub[j] > 1)) odd.push_back(j);
      if (!odd.empty()) { for (int j : odd) if (r.chance(3, 4)) { double v = r.below(2); add("bnd", {(double)k, (double)j, r.chance(2, 3) ? 0 : v, r.chance(1, 2) ? 1 : v}); } if (r.chance(1, 2)) add("obj", {(double)k, (double)r.below(100000)}); add("gen", {(double)k, 0, (double)r.below(2), (double)opts[r.below(12)], (double)r.below(3)}); continue; } }
    if ((t -= wGen) < 0) { add("gen", {(double)k, (double)G, (double)r.below(2), (double)opts[r.below(12)], (double)r.below(3)});
      if (prop == "C02" && W > 1 && r.chance(1, 3)) { add("share", {(double)k}); for (int q = 0; q < W; q++) if (r.chance(1, 2)) add("deliver", {(double)q, faults ? (double)r.below(5) : 0, faults ? (double)(r.below(4) == 0) : 0, 1}); }
    }
    else if ((t -= wPoint) < 0) { add("point", {(double)k, (double)r.below(10), (double)r.below(100000)}); if (r.chance(2, 3)) add("gen", {(double)k, (double)G, (double)r.below(2), (double)opts[r.below(12)], (double)r.below(3)}); }
    else if ((t -= wObj) < 0) { add("obj", {(double)k, (double)r.below(100000)}); add("gen", {(double)k, (double)G, (double)r.below(2), (double)opts[r.below(12)], (double)r.below(3)}); if (wMsg && r.chance(1, 2)) { add("share", {(double)k}); add("deliver", {(double)r.below(W), 0, 0, (double)r.below(2)}); } }
    else if ((t -= wBranch) < 0) {
      int q = r.below(4); double res = (!faults || r.chance(5, 6)) ? 1 : 0;
      if (q == 0) add("fix", {(double)k, (double)r.below(100000), (double)r.range(1, 2), res});
      else if (q == 1) add("fixpt", {(double)k, (double)r.below(100000), (double)r.range(1, 3), res});
      else add("branch", {(double)k, (double)r.below(12), (double)r.below(2), res});
    }
    else if ((t -= wMsg * 2) < 0) {
      int q = r.below(5);
      if (q < 2) add("share", {(double)k}); else if (q < 4 || !faults) add("deliver", {(double)k, faults ? (double)r.below(5) : 0, faults ? (double)(r.below(4) == 0) : 0, (double)r.below(2)}); else add("drop", {(double)k, (double)r.below(5)});
    }
    else if ((t -= wCopy) < 0) {
      int q = r.below(8);
      if (q < 4) add("clone", {(double)k, (double)G, (double)r.below(3), (double)r.below(3), (double)r.below(W)});
      else if (q < 6) add("assign", {(double)k, (double)G, (double)r.below(8)});
      else if (q == 6) add("refresh", {(double)k, (double)G}); else add("kill", {(double)k, (double)G});
    }
    else if ((t -= wSet) < 0) { const GenCfg &c = r.pick(s.gens); std::string key; double v; if (prop == "C02" && c.kind == "ZERO" && r.chance(1, 2)) { o.s = "ZERO.flags"; add("set", {(double)k, (double)G, (double)r.below(2)}); } else if (randomSetting(r, c.kind, p, key, v)) { o.s = c.kind + "." + key; add("set", {(double)k, (double)G, v}); } }
    else if ((t -= wStale) < 0) add("solve", {(double)k, 2, (double)r.below(4)});
    else if ((t -= wReset) < 0) add("reset", {(double)k});
    else if ((t -= wClock) < 0) add("clock", {(double)k, (double)r.below(20), r.chance(1, 3) ? -1.0 * r.range(1, 5000) : 1.0 * r.range(1, 5000)});
    else if ((t -= wApply) < 0) add("apply", {(double)k, (double)r.range(1, 3)});
    else add("model", {(double)k, (double)r.below(2)});
  }
  return s;
}
