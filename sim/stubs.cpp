#include "scenario.h"
#include "hooks.h"
#define ST(n) __attribute__((weak)) Scenario gen##n(const std::string &p, uint64_t s) { return genWorld(p, s); } __attribute__((weak)) void run##n(const Scenario &, Result &) {}
ST(Threads) ST(Time) ST(File) ST(Stored) ST(Probing) ST(Cpp) ST(Clean) ST(Search)
