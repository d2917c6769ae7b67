// Simulation 1: generator objects used by several threads at once.  Real pthreads, but a baton decides
// which one runs; it is handed over inside library code only, after a given number of executed basic
// blocks ("sw K t") or at a given access to static data ("sh M t").  Every thread's program is first
// run alone in a separate process; what a thread observes must not depend on the others.
#include "world.h"
#include <pthread.h>
#include <semaphore.h>
#include <sys/wait.h>
#include <unistd.h>
namespace {
struct Sw { bool shared; long k; int t; };
struct Th { sem_t sem; bool done = false; Scenario s; Result r; std::vector<GenObj> *protos = nullptr; int id = 0; pthread_t th; int saveLib = 0; };
std::vector<Th *> *ths; int cur; std::vector<Sw> *plan; size_t pos; long sharedLeft; uint64_t limitAt; Result *res; Hash *inter; long lastSharedSwitch; bool inHook; uint64_t base0; long staticSeen;
void arm() { // prepare the next planned switch
  seam::trapAt = seam::stepBudget = limitAt; sharedLeft = -1;
  if (pos < plan->size()) { if ((*plan)[pos].shared) { sharedLeft = (*plan)[pos].k; seam::trapAt = std::min(limitAt, seam::steps + 150); } else seam::trapAt = std::min(limitAt, seam::steps + (uint64_t)std::max(1L, (*plan)[pos].k)); }
}
void handTo(int t) { // give the baton to t and wait for it to come back
  int me = cur; (*ths)[me]->saveLib = seam::inLib; cur = t; seam::inLib = (*ths)[t]->saveLib; inter->i(t); inter->i((long long)(seam::steps - base0)); sem_post(&(*ths)[t]->sem);
  while (sem_wait(&(*ths)[me]->sem)) ;
}
int nextOther(int want) { int n = (int)ths->size(); want = ((want % n) + n) % n; for (int i = 0; i < n; i++) { int t = (want + i) % n; if (t != cur && !(*ths)[t]->done) return t; } return -1; }
void doSwitch(bool shared) {
  if (inHook) return; if (sched::guards) { seam::trapAt = std::min(limitAt, seam::steps + 1); return; }
  if (pos >= plan->size()) { seam::trapAt = limitAt; return; }
  if (!shared && (*plan)[pos].shared) { pos++; arm(); return; } // no access to static data came along: give up on this one
  inHook = true; int t = nextOther((*plan)[pos].t); pos++; arm(); if (t >= 0) { res->inc(shared ? "fault-preempted-at-static-data" : "fault-preempted"); inHook = false; handTo(t); } inHook = false;
}
void onStepHook() { doSwitch(false); }
void onSharedHook(const void *, bool) { staticSeen++; if (sharedLeft > 0 && --sharedLeft == 0) doSwitch(true); }
void onBlocked() { int t = nextOther(cur + 1); if (t >= 0) handTo(t); }
void program(Th &h) {
  try {
    World w(h.s, h.r); w.protos = h.protos; w.protoHow = h.id;
    w.run();
  } catch (CoinError &e) { h.r.log("exception " + e.message()); } catch (std::exception &e) { h.r.log(std::string("exception ") + e.what()); }
}
void *body(void *a) {
  Th *h = (Th *)a; while (sem_wait(&h->sem)) ;
  program(*h); h->done = true; int t = nextOther(cur + 1);
  if (t >= 0) { cur = t; seam::inLib = (*ths)[t]->saveLib; sem_post(&(*ths)[t]->sem); }
  return nullptr;
}
std::string alone(Th &h) { // the same program with no other thread, in a process of its own
  int fd[2]; if (pipe(fd)) _exit(79); pid_t pid = fork();
  if (pid == 0) { close(fd[0]); sched::on = false; program(h); const std::string &t = h.r.transcript; size_t o = 0; while (o < t.size()) { ssize_t n = write(fd[1], t.data() + o, t.size() - o); if (n <= 0) break; o += n; } if (write(fd[1], "#END", 4) != 4) _exit(1); _exit(0); }
  close(fd[1]); std::string t; char b[65536]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) t.append(b, n); close(fd[0]); int st; waitpid(pid, &st, 0); return t;
}
}
void runThreads(const Scenario &s0, Result &r) {
  if (s0.probs.empty()) return; Scenario s = s0; for (size_t i = 0; i < s.gens.size(); i++) s.gens[i].p["#"] = (double)i;
  int T = std::max(2, (int)s.e("threads", 2)); std::vector<Sw> pl; std::vector<Th *> v; seam::clockTick = 0;
  World pw(s, r); std::vector<GenObj> protos;
  if (s.e("proto")) { for (auto &p : s.probs) pw.roots.emplace_back(makeSolver(p)); for (auto &c : s.gens) { protos.push_back(pw.build(c, 0)); if (!protos.back().g) return; } }
  for (int t = 0; t < T; t++) { Th *h = new Th; h->id = t; sem_init(&h->sem, 0, 0); h->s = s; h->s.ops.clear(); h->s.env["workers"] = 1; h->s.env["proto"] = 0; if (s.e("proto")) h->protos = &protos; v.push_back(h); }
  for (auto &o : s.ops) { if (o.name == "sw" || o.name == "sh") pl.push_back({o.name == "sh", (long)o.arg(0), o.ai(1)}); else v[o.ai(0) % T]->s.ops.push_back(o); }
  std::vector<std::string> want; for (auto *h : v) want.push_back(alone(*h));
  for (auto &w : want) if (w.size() < 4 || w.substr(w.size() - 4) != "#END") { r.inc("reference-did-not-finish"); r.log("reference did not finish"); return; }
  Hash in; ths = &v; cur = 0; plan = &pl; pos = 0; res = &r; inter = &in; inHook = false; staticSeen = 0; base0 = seam::steps; limitAt = seam::steps + 600000000ull; sharedLeft = -1;
  sched::stepHook = onStepHook; sched::sharedHook = onSharedHook; sched::blockedHook = onBlocked; sched::on = true; arm();
  for (auto *h : v) if (pthread_create(&h->th, nullptr, body, h)) _exit(79);
  sem_post(&v[0]->sem); for (auto *h : v) pthread_join(h->th, nullptr);
  sched::on = false; seam::trapAt = seam::stepBudget = ~0ull; seam::inLib = 0;
  r.inc("threads", T); r.inc("static-data-accesses", staticSeen); bool cuts = false;
  for (int t = 0; t < T; t++) {
    for (auto &e : v[t]->r.count) r.inc(e.first, e.second); if (v[t]->r.count.count("calls-with-cuts")) cuts = true;
    const std::string &g = v[t]->r.transcript; std::string w = want[t].substr(0, want[t].size() - 4); r.log("thread " + std::to_string(t)); r.log(w); r.inc("compared");
    if (g != w) { std::istringstream a(w), b(g); std::string la, lb, d, last; for (;;) { bool x = (bool)std::getline(a, la), y = (bool)std::getline(b, lb); if (!x && !y) break; if (!x) la = "(nothing)"; if (!y) lb = "(nothing)"; if (la != lb) { d = "after " + last + ": alone " + la + " | together " + lb; break; } last = la; }
      r.fail("thread affected by others", "thread " + std::to_string(t) + " " + d); }
  }
  if (cuts) r.states.insert(in.h);
  for (auto *h : v) { sem_destroy(&h->sem); delete h; }
}
Scenario genThreads(const std::string &prop, uint64_t seed) {
  Scenario s = genWorld(prop, seed); Rng r(seed * 40503ull + 99); s.env["sim"] = 1; int T = r.chance(2, 3) ? 2 : r.range(3, 4); s.env["threads"] = T; s.env.erase("workers");
  std::vector<Op> ops; for (auto &o : s.ops) { if (o.name == "share" || o.name == "deliver" || o.name == "drop" || o.name == "clock") continue; if (ops.size() > 26) break; o.a[0] = r.below(T); ops.push_back(o); if (o.name == "gen" && r.chance(1, 2)) { Op q = o; q.a[0] = (int)(o.a[0] + 1) % T; ops.push_back(q); } }
  s.ops = ops; int n = r.range(3, 40), shape = r.below(4);
  for (int i = 0; i < n; i++) { Op o; o.name = r.chance(1, 4) ? "sh" : "sw"; double k; if (o.name == "sh") k = r.range(1, shape == 0 ? 4 : 40); else if (shape == 0) k = r.range(1, 60); else if (shape == 1) k = r.range(1, 600); else { int e = r.range(0, 10); k = 1 + r.below(1 << e); } o.a = {k, (double)r.below(T)}; s.ops.push_back(o); }
  return s;
}
