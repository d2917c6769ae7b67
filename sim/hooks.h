// Seams the simulator owns: executed steps, clock, allocator, files, thread hand-over.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

namespace seam {
// ---- steps (basic blocks of library code executed) and coverage
extern uint64_t steps;          // total instrumented blocks executed
extern uint64_t trapAt;         // when steps reaches this value, slow path
extern uint64_t stepBudget;     // absolute value of steps at which the run is declared hung
extern int inLib;               // >0 while a library call is running
void resetSteps();
size_t covTotal();
std::vector<uint32_t> covHits(); // sorted ids of guards hit so far
void covClear();
extern unsigned char *covMap;    // one byte per guard (shared memory when set by the batch driver)
extern size_t covMapSize;

// ---- simulated clock
struct Jump { long poll; double delta; };
extern double clockBase, clockTick;   // time = base + steps*tick + jumps
extern long polls;                    // number of clock reads by anyone
extern long libPolls;                 // clock reads while inLib
extern std::vector<Jump> jumps;       // applied at libPoll index
extern long jumpsFired;
double now();
void clockReset();
extern uint64_t stepsAtFirstLate;     // first clock read inside the library at/after deadline
extern double deadlineWatch;          // absolute simulated time, <0 none
extern long latePolls;                // reads at/after deadline

// ---- allocator
extern bool trackAlloc;               // record live blocks allocated while inLib
extern int fillPattern;               // -1 none, else byte; 256.. pseudo random stream
extern int padMode;                   // random padding of sizes to move addresses
void allocEpoch();                    // start a new epoch
struct Leak { size_t blocks, bytes; std::vector<void *> where; };
Leak liveSinceEpoch();
void describeLeak(std::string &out);

// ---- simulated files (paths beginning with /sim/)
struct SimFile {
  std::string data;
  long failReadAt = -1;    // EIO when the read position reaches this byte
  int shortRead = 0;       // >0: deliver at most this many bytes per read
  long failWriteAt = -1;   // ENOSPC when the write position reaches this byte
  bool missing = false;
  long faultsFired = 0, reads = 0, writes = 0;
};
SimFile &file(const std::string &path);
void clearFiles();
extern long openFiles;               // simulated streams open now

// ---- stack perturbation
void dirtyStack(int pattern);
} // namespace seam

// Thread hand-over (simulated threads, one runs at a time)
namespace sched {
extern bool on;
extern void (*stepHook)();
extern void (*sharedHook)(const void *, bool);
extern void (*blockedHook)();
extern int guards; // initialisers of static data being run
// called from the slow path of a step
void onStep();
void onShared(const void *addr, bool write);
}
