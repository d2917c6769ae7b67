// A scenario is an explicit, replayable text: models, generator configurations and a
// list of operations (schedule, faults and messages included).
#pragma once
#include "gens.h"

struct Op { std::string name; std::vector<double> a; std::string s; double arg(size_t i, double d = 0) const { return i < a.size() ? a[i] : d; } int ai(size_t i, int d = 0) const { return i < a.size() ? (int)a[i] : d; } std::string text() const; };
struct Scenario {
  std::string prop;        // property id
  uint64_t seed = 0;
  std::map<std::string, double> env; // run-wide settings (workers, fault switches, ...)
  std::vector<Problem> probs;
  std::vector<GenCfg> gens;
  std::vector<Op> ops;
  std::string text() const;
  static Scenario parse(const std::string &t);
  double e(const std::string &k, double d = 0) const { auto i = env.find(k); return i == env.end() ? d : i->second; }
};

struct Violation { bool on = false; std::string cls, detail; };
/// Result of executing one scenario in a child process.
struct Result {
  Violation v;
  std::string transcript;                 // canonical record of everything observable
  uint64_t hash = 0;
  std::map<std::string, long> count;      // fault kinds fired, probes, calls
  std::set<uint64_t> states;              // distinct states / interleavings reached (hashes)
  std::string scenarioNote;
  void inc(const std::string &k, long n = 1) { count[k] += n; }
  void fail(const std::string &cls, const std::string &d) { if (!v.on) { v.on = true; v.cls = cls; v.detail = d; } }
  void log(const std::string &s) { transcript += s; transcript += '\n'; }
};

Scenario makeScenario(const std::string &prop, uint64_t seed);
void runScenario(const Scenario &s, Result &r);

// individual simulations
Scenario genWorld(const std::string &prop, uint64_t seed);
void runWorld(const Scenario &s, Result &r);
Scenario genThreads(const std::string &prop, uint64_t seed);
void runThreads(const Scenario &s, Result &r);
Scenario genTime(const std::string &prop, uint64_t seed);
void runTime(const Scenario &s, Result &r);
Scenario genFile(const std::string &prop, uint64_t seed);
void runFile(const Scenario &s, Result &r);
Scenario genStored(const std::string &prop, uint64_t seed);
void runStored(const Scenario &s, Result &r);
Scenario genProbing(const std::string &prop, uint64_t seed);
void runProbing(const Scenario &s, Result &r);
Scenario genCpp(const std::string &prop, uint64_t seed);
void runCpp(const Scenario &s, Result &r);
Scenario genClean(const std::string &prop, uint64_t seed);
void runClean(const Scenario &s, Result &r);
Scenario genSearch(const std::string &prop, uint64_t seed);
void runSearch(const Scenario &s, Result &r);
Scenario genSettings(const std::string &prop, uint64_t seed);
void runSettings(const Scenario &s, Result &r);

// helpers shared by the simulations
std::string dumpCuts(const OsiCuts &cs, int fromRow = 0, int fromCol = 0, bool withEff = true);
std::string dumpRowCut(const OsiRowCut &rc);
std::string humanCut(const OsiRowCut &rc);
std::string dumpSolver(const OsiSolverInterface &si, std::vector<double> *numbers = nullptr);
/// nullptr if every point satisfies the cut, else the violating point
const Point *violates(const OsiRowCut &rc, const std::vector<const Point *> &pts, double tol = 1e-6);
bool inBox(const Point &x, const double *lo, const double *up);
struct LibCall { // brackets a call into the library: step budget, inLib flag
  uint64_t s0; LibCall(); ~LibCall();
};
extern uint64_t maxCallSteps, callBudget;
