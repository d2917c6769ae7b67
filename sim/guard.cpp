// One-time initialisers under the simulated scheduler (a thread inside one is not preempted).
namespace sched { extern int guards; }
#ifndef SIM_ASAN
extern "C" {
int __cxa_guard_acquire(char *g) { if (*(volatile char *)g) return 0; sched::guards++; return 1; }
void __cxa_guard_release(char *g) { *(volatile char *)g = 1; sched::guards--; }
void __cxa_guard_abort(char *) { sched::guards--; }
}
#endif
