#include "harness/common.h"
#include <signal.h>

#include <dirent.h>
#include <fcntl.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace hx {
void SetupSchedule(bool mem) {
  auto& k = sim::K();
  static const double ps[] = {0.0, 0.02, 0.1, 0.3, 0.6};
  k.p_sched = ps[Param("k_sched", 0, 4)];
  k.pct = Param("k_pct", 0, 3) == 3;
  if (k.pct && k.p_sched < 0.1) k.p_sched = 0.3;
  static const uint64_t mm[] = {0, 0, 20000, 3000, 600, 100};
  k.mem_mean = mem ? mm[Param("k_mem", 0, 5)] : 0;
  static const double pc[] = {0, 0.02, 0.15, 0.5};
  k.p_conf = mem && k.mem_mean ? pc[Param("k_conf", 0, 3)] : 0;
  k.ncpu = Param("k_ncpu", 1, 6);
  k.par_threads = Param("k_par", 1, 3);
  k.p_spur = Param("k_spur", 0, 3) == 3 ? 0.05 : 0;
  if (Param("k_stall", 0, 5) == 5) { k.p_stall = 0.002; k.stall_max_ms = 2000; }
  sim::RearmKnobs();
}
void (*g_setup_sizes)() = nullptr;
void SetupNet(bool drops) {
  auto& k = sim::K();
  if (g_setup_sizes) g_setup_sizes();
  static const uint32_t ob[] = {0, 0, 2000, 300, 100, 16};
  k.io_buf = ob[Param("k_iobuf", 0, 5)];
  static const double pd[] = {0.0, 0.05, 0.3, 0.9};
  static const uint32_t dm[] = {5, 50, 1000, 20000};
  k.p_delay = pd[Param("k_pdelay", 0, 3)];
  k.delay_max = dm[Param("k_dmax", 0, 3)];
  k.p_drop = drops && Param("k_drop", 0, 3) == 3 ? 0.03 : 0;
  static const uint32_t thr[] = {10, 10, 1, 2, 0};
  k.throttle = thr[Param("k_throttle", 0, 4)];
  k.recv_timeout_ms = 600000;
}
uint32_t CrashCls(const std::string& param) {
  static const uint32_t c[] = {7, 7, 1, 2, 4, 4};
  return c[Param(param.c_str(), 0, 5)];
}
void SetupClockSkew() {
  auto& k = sim::K();
  for (int i = 0; i < 3; ++i) {
    char b[16];
    snprintf(b, sizeof b, "k_skew%d", i);
    k.clock_skew_ns[i] = Param(b, -3, 3) * 3600ll * 1000000000ll;
  }
}
static int RawOpen(const std::string& p, int fl) { return (int)syscall(SYS_openat, AT_FDCWD, p.c_str(), fl, 0644); }
std::string ReadFile(const std::string& p) {
  std::string out;
  int fd = RawOpen(p, O_RDONLY);
  if (fd < 0) return out;
  char b[65536];
  long n;
  while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) out.append(b, n);
  syscall(SYS_close, fd);
  return out;
}
bool FileExists(const std::string& p) {
  struct stat st;
  return stat(p.c_str(), &st) == 0;
}
void WriteFile(const std::string& p, const std::string& s) {
  int fd = RawOpen(p, O_WRONLY | O_CREAT | O_TRUNC);
  size_t o = 0;
  while (o < s.size()) { long n = syscall(SYS_write, fd, s.data() + o, s.size() - o); if (n <= 0) break; o += n; }
  syscall(SYS_close, fd);
}
bool DiedWithMessage(int proc) { return (sim::StatGet(sim::S_ALLOC_FAIL) && sim::Proc(proc).sig != 0) || !strncmp(sim::Proc(proc).msg, "arrow ValueOrDie: ", 18); }  // exit code 255 after a failed write in a destructor counts as an exit with an error
void RemoveFile(const std::string& p) { syscall(SYS_unlinkat, AT_FDCWD, p.c_str(), 0); }
static void Walk(const std::string& d, const std::string& rel, std::vector<std::string>* out) {
  DIR* dir = opendir(d.c_str());
  if (!dir) return;
  std::vector<std::string> names;
  while (dirent* e = readdir(dir)) { std::string n = e->d_name; if (n != "." && n != "..") names.push_back(n); }
  closedir(dir);
  std::sort(names.begin(), names.end());
  for (auto& n : names) {
    struct stat st;
    if (lstat((d + "/" + n).c_str(), &st)) continue;
    std::string r = rel.empty() ? n : rel + "/" + n;
    if (S_ISDIR(st.st_mode)) { out->push_back(r + "/"); Walk(d + "/" + n, r, out); }
    else out->push_back(r);
  }
}
std::vector<std::string> ListTree(const std::string& dir) {
  std::vector<std::string> v;
  Walk(dir, "", &v);
  return v;
}
std::vector<std::string> SplitLines(const std::string& s) {
  std::vector<std::string> v;
  size_t p = 0;
  while (p < s.size()) {
    size_t e = s.find('\n', p);
    if (e == std::string::npos) { v.push_back(s.substr(p)); break; }
    v.push_back(s.substr(p, e - p));
    p = e + 1;
  }
  return v;
}
void RunThreads(std::vector<std::function<void()>> bodies) {
  std::vector<std::thread> ts;
  for (auto& b : bodies) ts.emplace_back(b);
  for (auto& t : ts) t.join();
}
bool ExpectAllExit(const std::vector<int>& procs, uint64_t timeout_ns, const std::string& what) {
  bool done = sim::WaitProcs(procs, timeout_ns);
  if (!done) {
    std::string d = what + (sim::Deadlocked() ? ": deadlock " : ": not finished in time ") + sim::ThreadDump();
    sim::Violation(sim::Deadlocked() ? "deadlock" : "no-progress", d);
    return false;
  }
  // cuckoo hashing fails with a small probability on tiny sets, by design
  for (int p : procs)
    if (sim::Proc(p).state == sim::P_EXITED && sim::Proc(p).code != 0 && (strstr(sim::Proc(p).msg, "stash") || strstr(sim::Proc(p).msg, "Failed to insert element"))) {
      sim::Probe("cuckoo_stash_failure");
      sim::Inconclusive(what + ": cuckoo insertion failed");
      return false;
    }
  for (int p : procs) {
    const auto& i = sim::Proc(p);
    if (i.state == sim::P_CRASHED) {
      sim::Violation("crash", what + ": " + i.name + " " + i.msg);
      return false;
    }
    if (i.code != 0) {
      sim::Violation("unexpected-error", what + ": " + i.name + " code " + std::to_string(i.code) + " " + i.msg);
      return false;
    }
  }
  return true;
}
}  // namespace hx
