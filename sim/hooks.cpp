#include "hooks.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <map>
#include <algorithm>
#include <unistd.h>
#include <pthread.h>
#include <dlfcn.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
#include <execinfo.h>

namespace seam {
uint64_t steps = 0, trapAt = ~0ull, stepBudget = ~0ull;
int inLib = 0;
static uint32_t nGuards = 0;
static unsigned char localMap[1 << 17];
unsigned char *covMap = localMap;
size_t covMapSize = sizeof localMap;
void resetSteps() { steps = 0; trapAt = stepBudget = ~0ull; }
size_t covTotal() { return nGuards; }
std::vector<uint32_t> covHits() { std::vector<uint32_t> v; for (uint32_t i = 0; i <= nGuards && i < covMapSize; i++) if (covMap[i]) v.push_back(i); return v; }
void covClear() { memset(covMap, 0, covMapSize); }

double clockBase = 1.0e6, clockTick = 1.0e-7;
long polls = 0, libPolls = 0, jumpsFired = 0, latePolls = 0;
std::vector<Jump> jumps;
static double jumped = 0;
uint64_t stepsAtFirstLate = 0;
double deadlineWatch = -1;
double now() { return clockBase + clockTick * (double)steps + jumped; }
void clockReset() { polls = libPolls = jumpsFired = latePolls = 0; jumped = 0; jumps.clear(); stepsAtFirstLate = 0; deadlineWatch = -1; clockBase = 1.0e6; clockTick = 1.0e-7; }
static double readClock() {
  polls++;
  if (inLib > 0) {
    long me = libPolls++;
    for (auto &j : jumps) if (j.poll == me) { jumped += j.delta; jumpsFired++; }
    double t = now();
    if (deadlineWatch >= 0 && t >= deadlineWatch) { if (!latePolls) stepsAtFirstLate = steps; latePolls++; }
    return t;
  }
  return now();
}
} // namespace seam

extern "C" {
int gettimeofday(struct timeval *tv, void *) noexcept {
  double t = seam::readClock();
  tv->tv_sec = (time_t)t; tv->tv_usec = (suseconds_t)((t - (double)tv->tv_sec) * 1e6);
  return 0;
}
int clock_gettime(clockid_t, struct timespec *ts) noexcept {
  double t = seam::readClock();
  ts->tv_sec = (time_t)t; ts->tv_nsec = (long)((t - (double)ts->tv_sec) * 1e9);
  return 0;
}
time_t time(time_t *p) noexcept { double t = seam::readClock(); if (p) *p = (time_t)t; return (time_t)t; }
clock_t clock() noexcept { return (clock_t)(seam::readClock() * CLOCKS_PER_SEC); }
int getrusage(__rusage_who_t, struct rusage *u) noexcept {
  memset(u, 0, sizeof *u); double t = seam::readClock() - 1.0e6; if (t < 0) t = 0;
  u->ru_utime.tv_sec = (time_t)t; u->ru_utime.tv_usec = (suseconds_t)((t - (double)u->ru_utime.tv_sec) * 1e6);
  return 0;
}

void __sanitizer_cov_trace_pc_guard_init(uint32_t *s, uint32_t *e) {
  if (s == e || *s) return;
  for (uint32_t *p = s; p < e; p++) *p = ++seam::nGuards;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  if (*g < seam::covMapSize) seam::covMap[*g] = 1;
  if (++seam::steps >= seam::trapAt) sched::onStep();
}
extern char __data_start, _end;
#define LS(n) \
  void __sanitizer_cov_load##n(void *p) { if (sched::on && (char *)p >= &__data_start && (char *)p < &_end) sched::onShared(p, false); } \
  void __sanitizer_cov_store##n(void *p) { if (sched::on && (char *)p >= &__data_start && (char *)p < &_end) sched::onShared(p, true); }
LS(1) LS(2) LS(4) LS(8) LS(16)
}

// ---- allocator ------------------------------------------------------------
namespace seam {
bool trackAlloc = false;
int fillPattern = -1, padMode = 0;
struct Block { void *p; size_t n; void *bt[10]; int nbt; };
static const size_t CAP = 1 << 14;
static Block *tab = nullptr;
static size_t liveN = 0;
static bool busy = false;
static void tabInit();
static uint64_t padState = 88172645463325252ull;
static inline uint64_t xs() { padState ^= padState << 13; padState ^= padState >> 7; padState ^= padState << 17; return padState; }
}
#ifndef SIM_ASAN
extern "C" {
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t);
}
namespace seam {
static void tabInit() { if (!tab) { tab = (Block *)__libc_calloc(CAP, sizeof(Block)); } }
static inline size_t slot(void *p) { return ((uintptr_t)p >> 4) * 11400714819323198485ull >> 47; }
static void add(void *p, size_t n) {
  if (!trackAlloc || inLib <= 0 || !p || busy) return;
  busy = true; tabInit();
  if (liveN < CAP / 2) {
    size_t i = slot(p) & (CAP - 1);
    while (tab[i].p && tab[i].p != p) i = (i + 1) & (CAP - 1);
    tab[i].p = p; tab[i].n = n; tab[i].nbt = 0;
    void **fp = (void **)__builtin_frame_address(0);
    for (int k = 0; k < 10 && fp; k++) { void *ra = fp[1]; void **nx = (void **)fp[0]; if (!ra) break; tab[i].bt[tab[i].nbt++] = ra; if (nx <= fp || (char *)nx - (char *)fp > 100000) break; fp = nx; }
    liveN++;
  }
  busy = false;
}
static void del(void *p) {
  if (!tab || !p || busy || !liveN) return;
  size_t i = slot(p) & (CAP - 1);
  while (tab[i].p && tab[i].p != p) i = (i + 1) & (CAP - 1);
  if (tab[i].p != p) return;
  liveN--;
  for (size_t j = i;;) { // backward-shift deletion
    j = (j + 1) & (CAP - 1);
    if (!tab[j].p) break;
    size_t h = slot(tab[j].p) & (CAP - 1);
    if (((j - h) & (CAP - 1)) >= ((j - i) & (CAP - 1))) { tab[i] = tab[j]; i = j; }
  }
  tab[i].p = nullptr;
}
void allocEpoch() { tabInit(); memset(tab, 0, CAP * sizeof(Block)); liveN = 0; }
Leak liveSinceEpoch() {
  Leak l = {0, 0, {}};
  if (tab) for (size_t i = 0; i < CAP; i++) if (tab[i].p) { l.blocks++; l.bytes += tab[i].n; if (l.blocks == 1) for (int k = 0; k < tab[i].nbt; k++) l.where.push_back(tab[i].bt[k]); }
  return l;
}
static inline void fill(void *p, size_t n) {
  if (fillPattern < 0 || !p) return;
  if (n > 32768) n = 32768; // small models: what is used of a larger block lies at its start
  if (fillPattern < 256) memset(p, fillPattern, n);
  else { unsigned char *c = (unsigned char *)p; size_t i = 0; for (; i + 8 <= n; i += 8) { uint64_t v = xs(); memcpy(c + i, &v, 8); } for (; i < n; i++) c[i] = (unsigned char)(xs() >> 24); }
}
static inline size_t pad(size_t n) { return padMode ? n + (xs() % 5) * 16 * (size_t)padMode : n; }
}
extern "C" {
void *malloc(size_t n) { void *p = __libc_malloc(seam::pad(n)); seam::fill(p, n); seam::add(p, n); return p; }
void free(void *p) { seam::del(p); __libc_free(p); }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); seam::add(p, a * b); return p; }
void *realloc(void *q, size_t n) { seam::del(q); void *p = __libc_realloc(q, n); seam::add(p, n); return p; }
}
#else
namespace seam { void allocEpoch() {} Leak liveSinceEpoch() { return Leak{0, 0, {}}; } }
#endif

// ---- files ----------------------------------------------------------------
namespace seam {
static std::map<std::string, SimFile> *files = nullptr;
SimFile &file(const std::string &p) { if (!files) files = new std::map<std::string, SimFile>; return (*files)[p]; }
void clearFiles() { if (files) files->clear(); }
struct Cookie { SimFile *f; size_t pos; };
static ssize_t ckRead(void *c, char *buf, size_t n) {
  Cookie *k = (Cookie *)c; SimFile *f = k->f; f->reads++;
  if (f->failReadAt >= 0 && (long)k->pos >= f->failReadAt) { f->faultsFired++; errno = EIO; return -1; }
  size_t left = f->data.size() - std::min(f->data.size(), k->pos);
  if (f->failReadAt >= 0) left = std::min(left, (size_t)f->failReadAt - k->pos);
  if (f->shortRead > 0 && n > (size_t)f->shortRead) { n = f->shortRead; f->faultsFired++; }
  n = std::min(n, left);
  memcpy(buf, f->data.data() + k->pos, n); k->pos += n;
  return (ssize_t)n;
}
static ssize_t ckWrite(void *c, const char *buf, size_t n) {
  Cookie *k = (Cookie *)c; SimFile *f = k->f; f->writes++;
  if (f->failWriteAt >= 0) {
    size_t room = (size_t)f->failWriteAt > f->data.size() ? (size_t)f->failWriteAt - f->data.size() : 0;
    if (n > room) { f->faultsFired++; f->data.append(buf, room); errno = ENOSPC; return 0; }
  }
  f->data.append(buf, n); return (ssize_t)n;
}
static int ckSeek(void *c, off64_t *off, int wh) {
  Cookie *k = (Cookie *)c; long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long)k->pos : (long)k->f->data.size();
  long t = b + (long)*off; if (t < 0) return -1; k->pos = (size_t)t; *off = t; return 0;
}
long openFiles = 0;
static int ckClose(void *c) { openFiles--; delete (Cookie *)c; return 0; }
}
extern "C" FILE *fopen(const char *path, const char *mode) {
  if (path && !strncmp(path, "/sim/", 5)) {
    seam::SimFile &f = seam::file(path);
    if (f.missing && mode[0] == 'r') { f.faultsFired++; errno = ENOENT; return nullptr; }
    if (mode[0] == 'w') f.data.clear();
    cookie_io_functions_t io = {seam::ckRead, seam::ckWrite, seam::ckSeek, seam::ckClose};
    int save = seam::inLib; seam::inLib = 0;
    FILE *fp = fopencookie(new seam::Cookie{&f, mode[0] == 'a' ? f.data.size() : 0}, mode, io);
    seam::inLib = save; seam::openFiles++;
    return fp;
  }
  typedef FILE *(*FN)(const char *, const char *);
  static FN real = (FN)dlsym(RTLD_NEXT, "fopen");
  return real(path, mode);
}
extern "C" FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }

namespace seam {
__attribute__((noinline)) void dirtyStack(int pattern) {
  unsigned char buf[16 * 1024];
  memset(buf, pattern & 255, sizeof buf);
  __asm__ volatile("" : : "r"(buf) : "memory");
}
}

#include <cxxabi.h>
namespace seam {
void describeLeak(std::string &out) {
#ifndef SIM_ASAN
  std::map<std::string, std::pair<size_t, size_t>> by;
  bool was = trackAlloc; trackAlloc = false;
  if (tab) for (size_t i = 0; i < CAP; i++) if (tab[i].p) {
    std::string k; int shown = 0;
    for (int q = 0; q < tab[i].nbt && shown < 5; q++) {
      Dl_info di; if (!dladdr(tab[i].bt[q], &di) || !di.dli_sname) continue;
      std::string n = di.dli_sname; int st; char *dm = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st); if (dm) { n = dm; free(dm); }
      size_t par = n.find('('); if (par != std::string::npos) n = n.substr(0, par);
      if (n == "malloc" || n == "calloc" || n == "realloc" || n == "operator new" || n == "operator new[]") continue;
      k += (shown ? " < " : "") + n; shown++;
    }
    auto &e = by[k]; e.first++; e.second += tab[i].n;
  }
  trackAlloc = was;
  std::vector<std::pair<size_t, std::string>> v; for (auto &e : by) v.push_back({e.second.first, e.first});
  std::sort(v.rbegin(), v.rend());
  for (size_t i = 0; i < v.size() && i < 6; i++) out += v[i].second + " (" + std::to_string(v[i].first) + ")\n";
#endif
}
}
namespace sched {
bool on = false;
void (*stepHook)() = nullptr;
void (*sharedHook)(const void *, bool) = nullptr;
void onStep() {
  if (seam::steps >= seam::stepBudget) _exit(77);
  if (stepHook) stepHook();
}
void onShared(const void *a, bool w) { if (sharedHook) sharedHook(a, w); }
void (*blockedHook)() = nullptr;
int guards = 0;
}
// One-time initialisation and locks under the simulated scheduler: a thread inside an initialiser is not
// preempted, a thread that finds a lock taken gives way to another one.
#ifndef SIM_ASAN
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
  typedef int (*FN)(pthread_mutex_t *);
  if (sched::on && sched::blockedHook) { for (long i = 0; i < 1000000; i++) { int e = pthread_mutex_trylock(m); if (e != EBUSY) return e; sched::blockedHook(); } _exit(77); }
  static FN real = nullptr; if (!real) real = (FN)dlsym(RTLD_NEXT, "pthread_mutex_lock");
  return real(m);
}
}
#endif
