#pragma once
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "sim/sim.h"
#include "sim/sim_int.h"

namespace hx {
using sim::Param;
using sim::ParamP;

struct NetProfile { bool faults; };
// Schedule, timing and network knobs of a run (swarm style: each run has its
// own mix).  Called by the coordinator before it spawns the parties.
void SetupSchedule(bool mem = true);
extern void (*g_setup_sizes)();
void SetupNet(bool drops = true);
void SetupClockSkew();
// which classes of crash points may kill: all, or only messages, data or metadata operations
uint32_t CrashCls(const std::string& param);

// small deterministic generator for workloads, seeded by a recorded parameter
struct Gen {
  uint64_t s;
  explicit Gen(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { Next(); }
  uint64_t Next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t Below(uint64_t n) { return n ? Next() % n : 0; }
  int64_t In(int64_t lo, int64_t hi) { return lo + (int64_t)Below(hi - lo + 1); }
  bool P(double p) { return (Next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  template <class T> void Shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[Below(i)]); }
};

std::string ReadFile(const std::string& p);
bool FileExists(const std::string& p);
void WriteFile(const std::string& p, const std::string& s);
void RemoveFile(const std::string& p);
std::vector<std::string> ListTree(const std::string& dir);
std::vector<std::string> SplitLines(const std::string& s);

// Runs bodies as simulated threads of the current process and joins them.
void RunThreads(std::vector<std::function<void()>> bodies);

// the process aborted through arrow's ValueOrDie, with a message
bool DiedWithMessage(int proc);
// Common end-of-run judgement for scenarios whose parties must simply finish.
// Reports crash / deadlock / timeout as violations; true if all exited.
bool ExpectAllExit(const std::vector<int>& procs, uint64_t timeout_ns, const std::string& what);
}  // namespace hx
