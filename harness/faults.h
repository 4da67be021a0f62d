// Fault plans shared by the scenarios.
#pragma once
#include "harness/world.h"
namespace hx {
constexpr uint64_t kSec = 1000000000ull;
// peer and network failures (C10)
struct NetPlan { int kind; uint64_t at_ns, len_ns; int victim; bool must_finish; };
NetPlan DrawNetPlan();
const char* PlanName(int k);
void RunNetPlan(const NetPlan& p, const std::vector<int>& ps);
// storage failures (C11)
void IoKnobs();
// failing allocations and thread creations (C28); while they are on a process
// that ends through std::terminate has failed with an error
void AllocKnobs();
// waits; reports deadlock / no progress; true if all ended
bool Wait(const std::vector<int>& ps, uint64_t bound, const char* what);
bool TimeoutErr(const Outcome& o);
bool StatFail(const Outcome& o);
const char* Tag(const std::string& x);
// first entry of the party's directory that should not be there
std::string Leftovers(const Party& p, bool recovery);
}  // namespace hx
