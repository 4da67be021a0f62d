#pragma once
// Scenarios with one process on one node: a history against an in-memory model.
#include <signal.h>
#include <unistd.h>

#include <filesystem>
#include <future>

#include "harness/faults.h"

using namespace hx;
using std::string;
using std::vector;
namespace fs = std::filesystem;
namespace {
struct Bad { string what; };
#define CHECK_(c, ...) do { if (!(c)) throw Bad{fmt::format(__VA_ARGS__)}; } while (0)

string RandData(Gen& g, int len) {
  string s;
  for (int i = 0; i < len; ++i) s += (char)g.Below(256);
  return s;
}
int DrawN(int lo, int hi) {
  int c = Param("n_class", 0, 3);
  return c == 0 ? Param("n", lo, std::min(hi, 3)) : c == 1 ? Param("n", lo, std::min(hi, 20)) : c == 2 ? Param("n", lo, hi) : Param("n", lo, std::min(hi, 60));
}
// what the process acknowledged before it was killed: kept by the simulator
struct Ack { long a = 0, b = 0, c = 0, d = 0; };
void SetAck(long a, long b, long c = 0, long d = 0) {
  sim::NoPreempt np;
  sim::SetProcMsg(fmt::format("ACK {} {} {} {}", a, b, c, d));
}
Ack GetAck(int p) {
  Ack a;
  sscanf(sim::Proc(p).msg, "ACK %ld %ld %ld %ld", &a.a, &a.b, &a.c, &a.d);
  return a;
}
bool g_faults, g_crash;
int RunBody(const std::function<void()>& fn) {
  try { fn(); } catch (const Bad& b) { sim::SetProcMsg("BAD " + b.what); return 3; }
  catch (const std::exception& e) { sim::SetProcMsg(string("THREW ") + e.what()); return 4; }
  return 0;
}
// 0 finished, 1 killed, 2 threw (allowed), -1 verdict given
int RunProc(const string& what, const std::function<void()>& fn, bool may_throw, Ack* ack = nullptr) {
  int p = sim::Spawn(0, "store", [=] { return RunBody(fn); });
  if (!Wait({p}, 20000 * kSec, what.c_str())) return -1;
  auto& pi = sim::Proc(p);
  if (ack) *ack = GetAck(p);
  if (pi.state == sim::P_KILLED) return 1;
  if (pi.state == sim::P_EXITED && pi.code == 0) return 0;
  if (pi.state == sim::P_EXITED && pi.code == 3) { sim::Violation("wrong-contents", what + ": " + (pi.msg + 4)); return -1; }
  if ((pi.state == sim::P_EXITED && (pi.code == 4 || pi.code == 255)) || DiedWithMessage(p)) {
    if (may_throw) { sim::Probe("failed_loudly"); return 2; }
    sim::Violation("unexpected-error", what + ": " + pi.msg);
    return -1;
  }
  sim::Violation("crash", what + ": " + fmt::format("state {} code {} {}", pi.state, pi.code, pi.msg));
  return -1;
}
void ArmCrash(bool on) {
  auto& k = sim::K();
  static const double pr[] = {0.3, 0.1, 0.03, 0.01, 0.003};
  k.crash_node = 0;
  k.crash_budget = on ? 1 : 0;
  k.p_crash = on ? pr[Param("crash_density", 0, 4)] : 0;
  if (on) k.crash_cls = CrashCls("crash_cls");
}
void NoFaults() { ArmCrash(false); sim::K().p_io = 0; sim::K().io_budget = 0; }
string Dir() { return string(sim::ScratchDir()) + "/store"; }
void Begin() {
  SetupSchedule();
  SetupNet(false);
  int mode = Param("mode", 0, 3);   // 0, 1: nothing fails; 2: storage faults; 3: kills
  g_faults = mode == 2; g_crash = mode == 3;
  fs::create_directories(Dir());
}
void Arm() {
  if (g_faults) { IoKnobs(); sim::K().io_node = 0; }
  if (g_crash) ArmCrash(true);
  sim::MarkNontrivial();
}

string CsvOf(const vector<string>& cols, const vector<vector<string>>& rows) {
  string s;
  for (size_t i = 0; i < cols.size(); ++i) s += (i ? "," : "") + cols[i];
  s += "\n";
  for (auto& r : rows) { for (size_t i = 0; i < r.size(); ++i) s += (i ? "," : "") + r[i]; s += "\n"; }
  return s;
}
}  // namespace
