// Simulation 3: a stored-cut collection is loaded from a simulated file that may be missing, empty,
// truncated at any byte, delivered in short reads or fail with a read error at any byte.
#include "scenario.h"
#include "hooks.h"
#include "CglStored.hpp"
extern void note(const std::string &);
namespace {
struct Rec { double rhs[2]; std::vector<int> ix; std::vector<double> el; };
}
void runFile(const Scenario &s, Result &r) {
  int loads = 0; callBudget = 200000;
  std::string bytes; std::vector<Rec> recs; std::vector<size_t> ends; bool closed = false; // closed: end marker written
  auto put = [&](const void *p, size_t n) { bytes.append((const char *)p, n); };
  seam::clearFiles();
  for (auto &op : s.ops) {
    note("file| in " + op.text());
    if (op.name == "cut") {
      Rng q((uint64_t)op.arg(1) + 31); Rec c; int n = op.ai(0);
      c.rhs[0] = q.chance(1, 2) ? -COIN_DBL_MAX : q.unit() * 10 - 5; c.rhs[1] = q.chance(1, 3) ? COIN_DBL_MAX : q.range(-3, 6);
      for (int k = 0; k < n; k++) { c.ix.push_back(k * 2 + q.below(2)); c.el.push_back(q.chance(1, 3) ? q.unit() * 1e3 - 500 : q.range(-4, 4) + 0.25); }
      put(&n, sizeof n); put(c.rhs, sizeof c.rhs); put(c.ix.data(), n * sizeof(int)); put(c.el.data(), n * sizeof(double));
      if (!closed) { recs.push_back(c); ends.push_back(bytes.size()); }
    } else if (op.name == "end") { int n = op.ai(0, -1); if (n >= 0) n = -1; put(&n, sizeof n); closed = true; }
    else if (op.name == "junk") { Rng q((uint64_t)op.arg(1)); if (closed) for (int k = 0; k < op.ai(0); k++) { char c = (char)q.next(); put(&c, 1); } }
    else if (op.name == "load") { // a0: fault kind, a1: byte fraction, a2: short-read size
      seam::SimFile &f = seam::file("/sim/cuts"); f = seam::SimFile(); f.data = bytes;
      int kind = op.ai(0); size_t at = bytes.empty() ? 0 : (size_t)op.arg(1) % (bytes.size() + 1), have = bytes.size();
      if (kind & 1) { f.data.resize(at); have = at; r.inc(at < bytes.size() ? "fault-file-truncated" : "truncation-at-end"); }
      if (kind & 2) { size_t e = std::min(have, (size_t)op.arg(1) / 7 % (bytes.size() + 1)); f.failReadAt = (long)e; have = e; }
      if (kind & 4) f.shortRead = std::max(1, op.ai(2));
      if (kind & 8) { f.missing = true; have = 0; r.inc("fault-file-missing"); }
      std::shared_ptr<CglStored> g; long open0 = seam::openFiles;
      { LibCall L; g.reset(new CglStored("/sim/cuts"), [](CglStored *p) { LibCall L2; delete p; }); }
      if ((kind & 2) && f.faultsFired) r.inc("fault-read-error"); if ((kind & 4) && f.faultsFired) r.inc("fault-short-read", f.faultsFired);
      size_t want = 0; while (want < recs.size() && ends[want] <= have) want++;
      if (f.missing) want = 0;
      std::string how = fmt("load of %zu of %zu bytes (%zu complete records, fault mask %d)", have, bytes.size(), want, kind);
      if (g->sizeRowCuts() != (int)want) { r.fail("records lost or invented", how + fmt(": %d cuts in the collection", g->sizeRowCuts())); return; }
      for (size_t i = 0; i < want; i++) {
        const OsiRowCut &c = *g->rowCutPointer((int)i); const CoinPackedVector &v = c.row(); bool ok = c.lb() == recs[i].rhs[0] && c.ub() == recs[i].rhs[1] && v.getNumElements() == (int)recs[i].ix.size();
        if (ok) for (size_t k = 0; k < recs[i].ix.size(); k++) if (v.getIndices()[k] != recs[i].ix[k] || v.getElements()[k] != recs[i].el[k]) ok = false;
        if (!ok) { r.fail("record changed", how + fmt(": record %zu became ", i) + humanCut(c)); return; }
      }
      if (seam::openFiles != open0) { r.fail("file left open", how); return; }
      if (g->getRequiredViolation() != 1.0e-5 || g->bestSolution() || g->tightLower()) r.fail("state after load", how + ": not the documented initial settings");
      { LibCall L; std::shared_ptr<CglCutGenerator> c(g->clone()); if (static_cast<CglStored *>(c.get())->sizeRowCuts() != (int)want) r.fail("copy after load", how); }
      loads++; r.inc("calls"); r.inc(want == recs.size() ? "loads-complete" : "loads-partial");
      Hash h; h.i(kind); h.i((long long)have); h.i((long long)want); h.i((long long)bytes.size()); h.i(f.shortRead); r.states.insert(h.h);
      r.log(op.text() + fmt(" -> %zu", want));
    }
    if (r.v.on) return;
  }
  seam::clearFiles();
}
Scenario genFile(const std::string &prop, uint64_t seed) {
  Rng r(seed * 2654435761ull + 991); Scenario s; s.prop = prop; s.seed = seed; s.env["sim"] = 3;
  auto add = [&](const char *n, std::vector<double> a) { Op o; o.name = n; o.a = a; s.ops.push_back(o); };
  int n = r.chance(1, 8) ? 0 : r.range(1, 8); bool big = r.chance(1, 12);
  auto loads = [&](int k) { for (int i = 0; i < k; i++) { int kind = r.chance(1, 4) ? 0 : (r.chance(1, 2) ? 1 : 0) | (r.chance(1, 3) ? 2 : 0) | (r.chance(1, 3) ? 4 : 0) | (r.chance(1, 15) ? 8 : 0); add("load", {(double)kind, (double)(r.next() % 1000003), (double)r.range(1, r.chance(1, 2) ? 9 : 500)}); } };
  for (int i = 0; i < n; i++) { int len = r.chance(1, 10) ? 0 : big ? r.range(1, 900) : r.range(1, 9); add("cut", {(double)len, (double)r.below(1000000)}); if (r.chance(1, 6)) loads(1); }
  if (!r.chance(1, 5)) { add("end", {(double)(r.chance(1, 2) ? -1 : -r.range(1, 1000))}); if (r.chance(1, 4)) { if (r.chance(1, 2)) add("junk", {(double)r.below(40), (double)r.below(10000)}); else add("cut", {(double)r.range(1, 5), (double)r.below(10000)}); } }
  loads(r.range(2, 8));
  return s;
}
