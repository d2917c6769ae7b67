// Driver process: generates scenarios from seeds and runs each one in a child forked from a
// pristine parent, so that one scenario is one repeatable execution.
#include "scenario.h"
#include "hooks.h"
#include <csignal>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cerrno>
#include <exception>

char *progressNote = nullptr; // shared with the child: what it was doing when it died
void note(const std::string &t) { if (progressNote) snprintf(progressNote, 4000, "%s", t.c_str()); }
int stackPattern = -1;

struct Child { bool ok = false; Result r; std::string crash; bool inconclusive = false; uint64_t steps = 0, maxCall = 0; double simTime = 0; };
struct Variant { int id = 0; };

static void applyVariant(int v) {
  seam::fillPattern = -1; seam::padMode = 0; stackPattern = -1; seam::clockBase = 1.0e6; seam::clockTick = 1e-7;
  if (v == 1) { seam::fillPattern = 0xA5; seam::padMode = 1; stackPattern = 0x7F; seam::clockBase = 3.5e8; seam::clockTick = 3e-5; }
  if (v == 2) { seam::fillPattern = 256; seam::padMode = 3; stackPattern = 0xFF; seam::clockBase = 2.0e6; seam::clockTick = 0; }
  if (v == 3) { seam::fillPattern = 0x00; seam::padMode = 2; stackPattern = 0x00; }
}
static void put(FILE *f, const std::string &s) { size_t n = s.size(); fwrite(&n, sizeof n, 1, f); fwrite(s.data(), 1, n, f); }
static bool get(FILE *f, std::string &s) { size_t n; if (fread(&n, sizeof n, 1, f) != 1 || n > (1u << 28)) return false; s.resize(n); return n == 0 || fread(&s[0], 1, n, f) == n; }

extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=66:handle_segv=1:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=1:external_symbolizer_path=/usr/bin/llvm-symbolizer-18"; }

static void childMain(const Scenario &s, int variant, FILE *out) {
  seam::clockReset(); applyVariant(variant);
  Result r;
  if (variant == 2) { // unrelated earlier work in the same process
    Scenario w = genWorld("C01", s.seed * 31 + 7); Result rw; runScenario(w, rw); seam::clockReset(); applyVariant(variant);
    if (s.gens.size()) { Scenario w2 = s; w2.ops.resize(w2.ops.size() / 2); Result r2; runScenario(w2, r2); seam::clockReset(); applyVariant(variant); }
  }
  int reps = s.prop == "C14" ? 3 : 1;
#ifdef SIM_ASAN
  reps = 1;
#endif
  seam::Leak before = {0, 0, {}};
  size_t g[3] = {0, 0, 0};
  if (reps > 1) { seam::trackAlloc = true; seam::allocEpoch(); }
  for (int i = 0; i < reps; i++) {
    Result ri; seam::clearFiles(); runScenario(s, ri);
    if (i == 0) r = ri;
    if (reps > 1) { seam::Leak l = seam::liveSinceEpoch(); g[i] = l.blocks - before.blocks; if (i == 2 && g[1] > 0 && g[2] > 0 && !r.v.on) {
        std::string d = fmt("%zu blocks are never returned each time this history is run:", g[2]); std::string t; seam::describeLeak(t);
        r.fail("leak " + t.substr(0, t.find('\n')), d + " " + t); Hash h; h.s(r.transcript); h.s(r.v.cls); r.hash = h.h; }
      before = l; }
    seam::clockReset(); applyVariant(variant);
  }
  seam::trackAlloc = false;
  std::string head = fmt("%d %llu %llu %llu %.9g", r.v.on, (unsigned long long)r.hash, (unsigned long long)seam::steps, (unsigned long long)maxCallSteps, seam::now() - seam::clockBase);
  put(out, head); put(out, r.v.cls); put(out, r.v.detail); put(out, r.transcript);
  std::string c; for (auto &e : r.count) c += e.first + " " + std::to_string(e.second) + "\n";
  put(out, c);
  std::string st; for (uint64_t h : r.states) st.append((const char *)&h, 8);
  put(out, st); put(out, r.scenarioNote); put(out, "DONE"); fflush(out);
}
// Every run is a child of the "zygote": a process started with a fixed command line and environment
// that does nothing but fork, so the state a run starts from never depends on earlier runs.
enum { FD_REQ = 100, FD_STAT, FD_OUT, FD_ERR, FD_NOTE, FD_COV };
static const size_t COVSZ = 1 << 17;
static int reqFd = -1, statFd = -1, outFd = -1, errFd = -1;
static int mem(const char *n) { return memfd_create(n, 0); }
static std::string slurp(int fd, size_t cap) { std::string t; lseek(fd, 0, SEEK_SET); char b[65536]; ssize_t n; while (t.size() < cap && (n = read(fd, b, sizeof b)) > 0) t.append(b, n); return t; }
static void zygote() { // never allocates
  progressNote = (char *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, FD_NOTE, 0);
  seam::covMap = (unsigned char *)mmap(nullptr, COVSZ, PROT_READ | PROT_WRITE, MAP_SHARED, FD_COV, 0); seam::covMapSize = COVSZ;
  for (;;) {
    struct pollfd p = {FD_REQ, POLLIN, 0};
    if (poll(&p, 1, -1) < 0) continue;
    if (!(p.revents & POLLIN)) _exit(0);
    pid_t pid = fork();
    if (pid == 0) {
      int head[2]; if (read(FD_REQ, head, sizeof head) != (ssize_t)sizeof head) _exit(79);
      std::string txt((size_t)head[0], 0); size_t got = 0;
      while (got < txt.size()) { ssize_t n = read(FD_REQ, &txt[got], txt.size() - got); if (n <= 0) _exit(79); got += n; }
      int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(FD_ERR, 2);
      struct rlimit rl = {120, 130}; setrlimit(RLIMIT_CPU, &rl); struct rlimit cr = {0, 0}; setrlimit(RLIMIT_CORE, &cr);
#ifndef SIM_ASAN
      struct rlimit as = {3ul << 30, 3ul << 30}; setrlimit(RLIMIT_AS, &as);
#endif
      FILE *out = fdopen(FD_OUT, "w");
      try { Scenario s = Scenario::parse(txt); childMain(s, head[1], out); _exit(0); }
      catch (CoinError &e) { note(std::string("exception CoinError: ") + e.message() + " in " + e.methodName() + " | " + progressNote); _exit(78); }
      catch (std::exception &e) { note(std::string("exception ") + e.what() + " | " + progressNote); _exit(78); }
      catch (...) { note(std::string("exception | ") + progressNote); _exit(78); }
    }
    int stt = 0; while (waitpid(pid, &stt, 0) < 0 && errno == EINTR) ;
    if (WIFEXITED(stt) && WEXITSTATUS(stt) == 79) _exit(0);
    if (write(FD_STAT, &stt, sizeof stt) != (ssize_t)sizeof stt) _exit(0);
  }
}
static void startZygote() {
  int rq[2], st[2]; if (pipe(rq) || pipe(st)) { perror("pipe"); exit(2); }
  outFd = mem("out"); errFd = mem("err"); int nf = mem("note"), cf = mem("cov");
  if (ftruncate(nf, 4096) || ftruncate(cf, COVSZ)) exit(2);
  progressNote = (char *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, nf, 0);
  seam::covMap = (unsigned char *)mmap(nullptr, COVSZ, PROT_READ | PROT_WRITE, MAP_SHARED, cf, 0); seam::covMapSize = COVSZ;
  fflush(stdout);
  if (fork() == 0) {
    dup2(rq[0], FD_REQ); dup2(st[1], FD_STAT); dup2(outFd, FD_OUT); dup2(errFd, FD_ERR); dup2(nf, FD_NOTE); dup2(cf, FD_COV);
    for (int fd = 3; fd < FD_REQ; fd++) close(fd);
    personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
    char a0[] = "sim", a1[] = "zygote", e0[] = "LC_ALL=C", e1[] = "PATH=/usr/bin:/bin"; char *av[] = {a0, a1, nullptr}, *ev[] = {e0, e1, nullptr};
    execve("/proc/self/exe", av, ev); _exit(2);
  }
  close(rq[0]); close(st[1]); reqFd = rq[1]; statFd = st[0]; fcntl(reqFd, F_SETFD, FD_CLOEXEC);
}
static Child runChild(const Scenario &s, int variant) {
  Child c;
  if (reqFd < 0) { signal(SIGPIPE, SIG_IGN); startZygote(); }
  if (ftruncate(outFd, 0) || ftruncate(errFd, 0)) { c.inconclusive = true; return c; }
  lseek(outFd, 0, SEEK_SET); lseek(errFd, 0, SEEK_SET); progressNote[0] = 0;
  std::string txt = s.text(); int head[2] = {(int)txt.size(), variant};
  std::string msg((const char *)head, sizeof head); msg += txt;
  for (size_t o = 0; o < msg.size();) { ssize_t n = write(reqFd, msg.data() + o, msg.size() - o); if (n <= 0) { fprintf(stderr, "zygote died\n"); exit(2); } o += n; }
  int stt = 0; if (read(statFd, &stt, sizeof stt) != (ssize_t)sizeof stt) { fprintf(stderr, "zygote died\n"); exit(2); }
  std::string res = slurp(outFd, 1u << 28); FILE *in = res.empty() ? nullptr : fmemopen(&res[0], res.size(), "r"); std::string head2, cnt, st, done;
  bool got = in && get(in, head2) && get(in, c.r.v.cls) && get(in, c.r.v.detail) && get(in, c.r.transcript) && get(in, cnt) && get(in, st) && get(in, c.r.scenarioNote) && get(in, done);
  if (in) fclose(in);
  if (got && done == "DONE") {
    int on; unsigned long long h, sp, mc; double tm; sscanf(head2.c_str(), "%d %llu %llu %llu %lf", &on, &h, &sp, &mc, &tm);
    c.ok = true; c.r.v.on = on; c.r.hash = h; c.steps = sp; c.maxCall = mc; c.simTime = tm;
    std::istringstream is(cnt); std::string k; long v; while (is >> k >> v) c.r.count[k] = v;
    for (size_t i = 0; i + 8 <= st.size(); i += 8) { uint64_t x; memcpy(&x, st.data() + i, 8); c.r.states.insert(x); }
  } else {
    c.r = Result(); std::string text = slurp(errFd, 20000);
    std::string why;
    if (WIFSIGNALED(stt)) why = WTERMSIG(stt) == SIGXCPU || WTERMSIG(stt) == SIGKILL ? "timeout" : fmt("crash signal %d", WTERMSIG(stt));
    else if (WEXITSTATUS(stt) == 77) why = "hang";
    else if (WEXITSTATUS(stt) == 78) why = "exception";
    else if (WEXITSTATUS(stt) == 66) why = "memory error";
    else why = fmt("library ended the process with status %d", WEXITSTATUS(stt));
    if (why == "timeout") { c.inconclusive = true; return c; }
    std::string sum; std::istringstream is(text); std::string l; int fr = 0; std::string frames;
    while (std::getline(is, l)) {
      if (l.find("SUMMARY:") != std::string::npos) { size_t q = l.find("/src/"); sum = l.substr(9, l.find(' ', 27) - 9) + (q == std::string::npos ? "" : l.substr(q)); }
      if (l.find("    #") == 0 && fr < 8) { fr++; size_t q = l.find(" in "); if (q != std::string::npos) frames += l.substr(q) + ";"; }
    }
    { std::string nt = progressNote; size_t b = nt.find('|'); if (why == "exception") { size_t e = nt.rfind(" | "); std::string tail = e == std::string::npos ? "" : nt.substr(e + 3); b = tail.find('|'); if (b != std::string::npos) why += " " + tail.substr(0, b); } else if (b != std::string::npos) why += " " + nt.substr(0, b); }
    c.r.v.on = true; c.r.v.cls = why; c.r.v.detail = why + " " + std::string(progressNote ? progressNote : "") + " " + sum + " " + frames + (sum.empty() ? text.substr(0, 400) : "");
    if (!sum.empty()) { size_t q = sum.find_last_of(' '); c.r.v.cls += " " + (q == std::string::npos ? sum : sum.substr(0, sum.find(' ')) + sum.substr(q)); }
    Hash h; h.s(c.r.v.cls); c.r.hash = h.h;
  }
  return c;
}
static Child execute(const Scenario &s) {
  if (s.prop != "C06") return runChild(s, 0);
  Child a = runChild(s, 0); if (!a.ok) return a;
  for (int v = 1; v <= 3; v++) {
    Child b = runChild(s, v);
    a.steps += b.steps; a.r.count["variants"]++;
    if (b.inconclusive) { a.inconclusive = true; return a; }
    if (!b.ok) { b.r.v.cls += fmt(" only under perturbed environment %d", v); return b; }
    if (b.r.transcript != a.r.transcript) {
      std::istringstream x(a.r.transcript), y(b.r.transcript); std::string lx, ly, d, last;
      for (;;) { bool gx = (bool)std::getline(x, lx), gy = (bool)std::getline(y, ly); if (!gx && !gy) break; if (lx != ly) { d = last + "\n first run: " + lx + "\n other run: " + ly; break; } if (lx.compare(0, 5, "cuts ") == 0) last = lx; }
      a.r.v.on = true; a.r.v.cls = "result depends on environment " + last.substr(0, 9); a.r.v.detail = fmt("environment %d (memory contents/addresses/clock/earlier work): ", v) + d;
      Hash h; h.s(a.r.v.detail); a.r.hash = h.h; return a;
    }
  }
  return a;
}
static std::string readFile(const char *p) { FILE *f = fopen(p, "r"); if (!f) return ""; std::string t; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); fclose(f); return t; }
static double wall() { // real time, outside the simulated clock
  FILE *f = fopen("/proc/uptime", "r"); double u = 0; if (f) { if (fscanf(f, "%lf", &u) != 1) u = 0; fclose(f); } return u; }
static std::string oneline(std::string t) { for (auto &c : t) if (c == '\n') c = '\t'; return t; }

int main(int argc, char **argv) {
  if (argc > 1 && !strcmp(argv[1], "zygote")) { zygote(); return 0; }
  std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "gen") { Scenario s = makeScenario(argv[2], strtoull(argv[3], nullptr, 10)); fputs(s.text().c_str(), stdout); return 0; }
  if (mode == "run") { // sim run FILE : one line verdict
    Scenario s = Scenario::parse(readFile(argv[2])); Child c = execute(s);
    if (argc > 3 && !strcmp(argv[3], "-v")) { printf("%s\n", c.r.transcript.c_str()); for (auto &e : c.r.count) printf("# %s %ld\n", e.first.c_str(), e.second); }
    printf("%s\t%016llx\t%s\t%s\n", c.inconclusive ? "INCONCLUSIVE" : c.r.v.on ? "VIOLATION" : "OK", (unsigned long long)c.r.hash, oneline(c.r.v.cls).c_str(), oneline(c.r.v.detail).c_str());
    return 0;
  }
  if (mode == "notes") { Scenario s = Scenario::parse(readFile(argv[2])); Child c = execute(s); fputs(c.r.scenarioNote.c_str(), stdout); return 0; }
  if (mode == "serve") { // read file names on stdin, answer one verdict line each
    char line[4096];
    while (fgets(line, sizeof line, stdin)) {
      line[strcspn(line, "\n")] = 0; Scenario s = Scenario::parse(readFile(line)); Child c = execute(s);
      printf("%s\t%016llx\t%s\t%s\n", c.inconclusive ? "INCONCLUSIVE" : c.r.v.on ? "VIOLATION" : "OK", (unsigned long long)c.r.hash, oneline(c.r.v.cls).c_str(), oneline(c.r.v.detail).c_str());
      fflush(stdout);
    }
    return 0;
  }
  if (mode == "batch") { // sim batch PROP FIRST STRIDE SECONDS MAXRUNS OUTDIR TAG
    std::string prop = argv[2]; uint64_t seed = strtoull(argv[3], nullptr, 10), stride = strtoull(argv[4], nullptr, 10); double secs = atof(argv[5]); long maxRuns = atol(argv[6]); std::string out = argv[7], tag = argv[8];
    double t0 = wall(), simTime = 0; long runs = 0, viol = 0, inc = 0, nontriv = 0, faultFree = 0, determ = 0; uint64_t steps = 0, maxCall = 0; std::map<std::string, long> cnt; std::set<uint64_t> states; std::map<std::string, int> seen; std::set<uint64_t> scen;
    std::string notes;
    for (; runs < maxRuns && wall() - t0 < secs; seed += stride) {
      Scenario s = makeScenario(prop, seed); std::string txt = s.text();
      Child c = execute(s); runs++;
      Hash hs; hs.s(txt); scen.insert(hs.h);
      if (c.inconclusive) { inc++; continue; }
      if (runs % 25 == 1) { Scenario s2 = Scenario::parse(txt); Child d = execute(s2); determ++; if (d.r.hash != c.r.hash) { printf("NONDET %llu %s\n", (unsigned long long)seed, c.r.v.cls.c_str()); FILE *f = fopen((out + "/nondet-" + std::to_string(seed) + ".txt").c_str(), "w"); fputs(txt.c_str(), f); fclose(f); } }
      steps += c.steps; maxCall = std::max(maxCall, c.maxCall); simTime += c.simTime;
      bool anyFault = false; for (auto &e : c.r.count) { cnt[e.first] += e.second; if (e.first.compare(0, 6, "fault-") == 0 && e.second) anyFault = true; }
      if (!anyFault) faultFree++;
      if (!c.r.states.empty()) nontriv++;
      if (states.size() < 2000000) states.insert(c.r.states.begin(), c.r.states.end());
      if (!c.r.scenarioNote.empty()) { notes += "@@ " + std::to_string(seed) + "\n" + c.r.scenarioNote + "\n"; }
      if (c.r.v.on) {
        viol++; int &k = seen[c.r.v.cls]; k++;
        if (k <= 3) { std::string p = out + "/v-" + tag + "-" + std::to_string(seed) + ".txt"; FILE *f = fopen(p.c_str(), "w"); fputs(txt.c_str(), f); fclose(f);
          printf("VIOL\t%llu\t%s\t%016llx\t%s\t%s\n", (unsigned long long)seed, p.c_str(), (unsigned long long)c.r.hash, oneline(c.r.v.cls).c_str(), oneline(c.r.v.detail).c_str()); fflush(stdout); }
      }
    }
    for (auto &e : seen) printf("CLASS\t%d\t%s\n", e.second, oneline(e.first).c_str());
    for (auto &e : cnt) printf("COUNT\t%s\t%ld\n", e.first.c_str(), e.second);
    printf("STAT\truns\t%ld\nSTAT\tinconclusive\t%ld\nSTAT\tviolations\t%ld\nSTAT\tnontrivial\t%ld\nSTAT\tfaultfree\t%ld\nSTAT\tsteps\t%llu\nSTAT\tmaxcall\t%llu\nSTAT\tdeterminism\t%ld\nFSTAT\tsimtime\t%.6f\nFSTAT\twall\t%.3f\n", runs, inc, viol, nontriv, faultFree, (unsigned long long)steps, (unsigned long long)maxCall, determ, simTime, wall() - t0);
    { FILE *f = fopen((out + "/states-" + tag).c_str(), "w"); for (uint64_t h : states) fwrite(&h, 8, 1, f); fclose(f); }
    { FILE *f = fopen((out + "/scen-" + tag).c_str(), "w"); for (uint64_t h : scen) fwrite(&h, 8, 1, f); fclose(f); }
    { FILE *f = fopen((out + "/cov-" + tag).c_str(), "w"); fwrite(seam::covMap, 1, seam::covTotal() + 1, f); fclose(f); }
    if (!notes.empty()) { FILE *f = fopen((out + "/notes-" + tag).c_str(), "w"); fputs(notes.c_str(), f); fclose(f); }
    printf("STAT\tcovtotal\t%zu\nEND\n", seam::covTotal());
    return 0;
  }
  fprintf(stderr, "usage: sim gen|run|serve|batch ...\n");
  return 2;
}
