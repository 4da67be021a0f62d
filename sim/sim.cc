#include "sim.h"

#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <exception>
#include <future>
#include <map>
#include <mutex>
#include <random>
#include <shared_mutex>
#include <thread>

#include "sim_int.h"

extern "C" int sim_alloc_hook_on;
namespace sim {
void AllocNewRun();

const char* kKindNames[K_KINDS] = {"SCHED", "MEM",  "DELAY",  "IO",    "CRASH",
                                   "STALL", "SPUR", "NOTIFY", "ALLOC", "USER"};
const char* kIoFaultNames[IOF_TYPES] = {"none",  "eio",    "enospc", "short",
                                        "eintr", "emfile", "sysfail", "syspart"};
const char* kStatNames[S_COUNT] = {
    "context_switches", "preempt_sync", "preempt_mem", "messages", "msg_delayed",
    "msg_drop_retransmit", "msg_lost", "msg_partitioned", "msg_reordered", "recv_timeout",
    "throttle_block", "thread_stall", "spurious_wakeup", "io_ops", "io_eio",
    "io_enospc", "io_short", "io_eintr", "io_emfile", "io_subprocess_fault",
    "crash_self_at_point", "crash_external", "restart", "clock_jump",
    "alloc_fail", "threads", "memory_accesses", "torn_subprocess_output", "torn_write_at_kill"};

// ------------------------------------------------------------------ state
static Shm g_dummy;  // before any run
Shm* S = &g_dummy;
uint64_t* g_acc = &g_dummy.acc;
static char* g_arena = nullptr;
static __thread int tl_self __attribute__((tls_model("initial-exec"))) = -1;
static __thread int tl_nosim __attribute__((tls_model("initial-exec"))) = 0;
static __thread int tl_nopre __attribute__((tls_model("initial-exec"))) = 0;
NoPreempt::NoPreempt() { ++tl_nopre; }
NoPreempt::~NoPreempt() { --tl_nopre; }
static int g_proc = 0;        // sim process index of this OS process
static bool g_verbose = false;
static bool g_inited = false;

int raw_futex(int* a, int op, int v, const struct timespec* ts = nullptr) {
  return (int)syscall(SYS_futex, a, op, v, ts, nullptr, 0);
}

bool Active() { return tl_self >= 0 && !tl_nosim; }
int Self() { return tl_self; }
int SelfProc() { return g_proc; }
int SelfNode() { return S->procs[g_proc].node; }
uint64_t NowNs() { return S->now; }
Knobs& K() { return S->k; }
bool Verbose() { return g_verbose; }
void Stat_(Stat s, uint64_t n) { S->stats[s] += n; }
uint64_t StatGet(Stat s) { return S->stats[s]; }

uint64_t Hash64(const void* p, size_t n, uint64_t h) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  h ^= h >> 32; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29;
  return h;
}
static inline uint64_t Splitmix(uint64_t& s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static inline double Unit(uint64_t& s) { return (Splitmix(s) >> 11) * (1.0 / 9007199254740992.0); }

void Mix(uint64_t v) {
  S->trace = (S->trace ^ v) * 0x9E3779B97F4A7C15ull;
  S->trace ^= S->trace >> 31;
}
uint64_t TraceHash() { return S->trace; }
uint64_t SchedHash() { return S->sched; }

void Log(const char* fmt, ...) {
  if (!g_verbose) return;
  char b[4096];
  int n = snprintf(b, sizeof b, "[%10.6f p%d t%d a%lu] ", S->now * 1e-9, g_proc, tl_self, (unsigned long)S->acc);
  va_list ap;
  va_start(ap, fmt);
  n += vsnprintf(b + n, sizeof b - n - 1, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n';
  (void)!syscall(SYS_write, 2, b, n);
}

void Probe(const char* name) {
  for (int i = 0; i < kMaxProbes; ++i) {
    if (S->probes[i].name[0] == 0) {
      strncpy(S->probes[i].name, name, sizeof S->probes[i].name - 1);
      S->probes[i].n = 1;
      return;
    }
    if (strncmp(S->probes[i].name, name, sizeof S->probes[i].name - 1) == 0) {
      S->probes[i].n++;
      return;
    }
  }
}

// -------------------------------------------------------------- decisions
// Every nondeterministic choice goes through here.  0 is always the default
// (least surprising) outcome; only non-default outcomes are recorded, so a
// run is a pure function of (params, sparse list of decisions).
static uint32_t Decide(Kind kind, uint64_t index, uint32_t generated) {
  uint32_t v = 0;
  if (S->replay) {
    uint32_t& cur = S->cursor[kind];
    const Decision* d = S->rdec;
    uint32_t b = S->rbeg[kind], e = S->rend[kind];
    if (cur < b) cur = b;
    while (cur < e && d[cur].index < index) ++cur;
    if (cur < e && d[cur].index == index) { v = d[cur].value; ++cur; }
  } else {
    v = generated;
  }
  if (v != 0) {
    if (S->ndec < kMaxDecisions) {
      Decision& o = S->dec[S->ndec++];
      o.kind = kind; o.index = index; o.value = v;
    }
    Mix(((uint64_t)kind << 56) ^ (index << 20) ^ v);
  }
  return v;
}
static inline uint32_t DecideNext(Kind kind, uint32_t generated) {
  return Decide(kind, S->count[kind]++, generated);
}
static inline bool Coin(double p) { return p > 0 && !S->replay && Unit(S->rng) < p; }
static inline uint32_t Rnd(uint32_t n) { return n ? (uint32_t)(Splitmix(S->rng) % n) : 0; }

uint32_t DecideUser(uint32_t n, double p) {
  return DecideNext(K_USER, (n > 1 && Coin(p)) ? 1 + Rnd(n - 1) : 0);
}
uint64_t AppRand() { return Splitmix(S->procs_rng[g_proc]); }
uint64_t FaultRand() { return Splitmix(S->rng); }

// -------------------------------------------------------------- scheduler
static void WaitGo(int self) {
  Thread& t = S->th[self];
  while (__atomic_load_n(&t.go, __ATOMIC_ACQUIRE) == 0) raw_futex(&t.go, FUTEX_WAIT, 0);
  t.go = 0;
}
static void Finish(int verdict);
static void SwitchTo(int t) {
  S->cur = t;
  S->stats[S_SWITCH]++;
  S->sched = (S->sched ^ (uint64_t)(t + 1)) * 0x100000001B3ull;
  S->sched ^= S->sched >> 29;
  Mix(0x1000 + t);
  __atomic_store_n(&S->th[t].go, 1, __ATOMIC_RELEASE);
  raw_futex(&S->th[t].go, FUTEX_WAKE, 1);
}
static void MakeRunnable(int t) {
  Thread& x = S->th[t];
  if (x.state != T_BLOCKED) return;
  x.state = T_RUNNABLE;
  x.since = ++S->fifo;
}
static void WakeKey(uint64_t key, int proc, int n) {
  // n < 0: all
  if (n == 1) {
    int cand[256], c = 0;
    for (int i = 0; i < S->nlive && c < 256; ++i) {
      int t = S->live[i];
      Thread& x = S->th[t];
      if (x.state == T_BLOCKED && x.key == key && x.proc == proc) cand[c++] = t;
    }
    if (c == 0) return;
    std::sort(cand, cand + c, [](int a, int b) { return S->th[a].since < S->th[b].since; });
    uint32_t v = 0;
    if (c > 1) v = DecideNext(K_NOTIFY, Coin(0.5) ? 1 + Rnd(c - 1) : 0);
    int t = cand[v % c];
    S->th[t].woken = 1;
    MakeRunnable(t);
    return;
  }
  for (int i = 0; i < S->nlive; ++i) {
    int t = S->live[i];
    Thread& x = S->th[t];
    if (x.state == T_BLOCKED && x.key == key && x.proc == proc) {
      x.woken = 1;
      MakeRunnable(t);
    }
  }
}
static bool Partitioned(int a, int b) {
  if (a < 0 || b < 0 || a >= 16 || b >= 16) return false;
  return S->part[a][b];
}
static void Deliver(int m) {
  Msg& x = S->msgs[m];
  x.state = M_DELIVERED;
  Chan& c = S->chans[x.chan_idx];
  if (x.seq < c.max_delivered_seq) S->stats[S_MSG_REORDERED]++;
  if (x.seq > c.max_delivered_seq) c.max_delivered_seq = x.seq;
  c.delivered++;
  Mix(0x2000 + m);
  if (g_verbose) Log("deliver msg#%d %d->%d %s (%lu bytes)", m, x.src, x.dst, x.key, (unsigned long)x.size);
  // receivers of any process of that node
  for (int i = 0; i < S->nlive; ++i) {
    int t = S->live[i];
    Thread& y = S->th[t];
    if (y.state == T_BLOCKED && y.key == x.keyhash && S->procs[y.proc].node == x.dst) { y.woken = 1; MakeRunnable(t); }
    else if (y.state == T_BLOCKED && y.key == (0xD0000000ull ^ c.id)) { y.woken = 1; MakeRunnable(t); }
  }
}
static uint64_t NextEvent() {
  uint64_t best = kInf;
  for (int i = 0; i < S->nflight; ++i) {
    uint64_t d = S->msgs[S->flight[i]].deliver;
    if (d < best) best = d;
  }
  for (int i = 0; i < S->nlive; ++i) {
    Thread& x = S->th[S->live[i]];
    if (x.state == T_BLOCKED && x.deadline < best) best = x.deadline;
  }
  return best;
}
static void RunEvents() {
  // messages due
  for (;;) {
    int bi = -1;
    for (int i = 0; i < S->nflight; ++i) {
      Msg& m = S->msgs[S->flight[i]];
      if (m.deliver > S->now) continue;
      if (bi < 0 || m.deliver < S->msgs[S->flight[bi]].deliver ||
          (m.deliver == S->msgs[S->flight[bi]].deliver && S->flight[i] < S->flight[bi])) bi = i;
    }
    if (bi < 0) break;
    int m = S->flight[bi];
    Msg& x = S->msgs[m];
    if (Partitioned(x.src, x.dst)) {
      // the transport keeps retransmitting until the partition heals
      S->stats[S_MSG_PARTITIONED]++;
      x.deliver = S->now + 500000000ull;
      if (++x.retries > 240) { x.state = M_LOST; S->stats[S_MSG_LOST]++; S->flight[bi] = S->flight[--S->nflight]; }
      continue;
    }
    S->flight[bi] = S->flight[--S->nflight];
    Deliver(m);
  }
  for (int i = 0; i < S->nlive; ++i) {
    int t = S->live[i];
    Thread& x = S->th[t];
    if (x.state == T_BLOCKED && x.deadline <= S->now) MakeRunnable(t);
  }
}

static int Candidates(int* out, int cap) {
  int c = 0;
  for (int i = 0; i < S->nlive && c < cap; ++i)
    if (S->th[S->live[i]].state == T_RUNNABLE) out[c++] = S->live[i];
  std::sort(out, out + c, [](int a, int b) { return S->th[a].since < S->th[b].since; });
  return c;
}

// Chooses the next thread; self may be runnable (yield) or not (block/exit).
// force_other: default is somebody else (sched_yield).
static int ChooseNext(int self, bool self_runnable, bool force_other, Kind kind, uint64_t index, bool has_index, uint32_t preset) {
  for (;;) {
    RunEvents();
    int cand[kCand];
    int c = Candidates(cand, kCand);
    if (c == 0) {
      uint64_t e = NextEvent();
      if (e == kInf) {
        // nothing can ever happen again
        S->deadlock = 1;
        if (S->th[0].state == T_BLOCKED) { S->th[0].woken = 1; MakeRunnable(0); continue; }
        Finish(V_HARNESS);
      }
      if (e > S->now) S->now = e;
      continue;
    }
    int def = 0;
    if (self_runnable && !force_other) {
      for (int i = 0; i < c; ++i) if (cand[i] == self) def = i;
    } else if (force_other && c > 1 && cand[0] == self) {
      def = 1;
    }
    uint32_t v = 0;
    if (has_index) {
      v = preset;  // memory preemption: decided by caller
    } else if (c > 1) {
      uint32_t gen = 0;
      if (!S->replay) {
        if (S->k.pct) {
          if (self_runnable && Coin(S->k.p_sched * 0.05)) S->th[self].prio = --S->prio_low;
          int b = 0;
          for (int i = 1; i < c; ++i) if (S->th[cand[i]].prio > S->th[cand[b]].prio) b = i;
          if (b != def) gen = 1 + b;
        } else if (Coin(self_runnable ? S->k.p_sched : std::max(S->k.p_sched, 0.3))) {
          int b = Rnd(c);
          if (b != def) gen = 1 + b;
        }
      }
      v = DecideNext(K_SCHED, gen);
    }
    if (v == 0) return cand[def];
    int pick = cand[(v - 1) % c];
    if (self_runnable && pick != self) S->stats[has_index ? S_PREEMPT_MEM : S_PREEMPT_SYNC]++;
    return pick;
  }
}

static void StepCheck() {
  S->now += 1000;
  if (++S->steps > S->max_steps) {
    snprintf(S->detail, sizeof S->detail, "step limit %lu", (unsigned long)S->max_steps);
    Finish(V_INCONCLUSIVE);
  }
}

static void SwitchAndWait(int next) {
  int self = tl_self;
  if (next == self) return;
  SwitchTo(next);
  WaitGo(self);
}

static void YieldImpl(const char* why, bool force_other) {
  int self = tl_self;
  StepCheck();
  Thread& t = S->th[self];
  (void)why;
  {
    uint32_t v = DecideNext(K_STALL, S->k.p_stall > 0 && Coin(S->k.p_stall) ? 1 + Rnd(S->k.stall_max_ms) : 0);
    if (v) {
      S->stats[S_STALL]++;
      Log("stall thread %d for %u ms", self, v);
      t.state = T_BLOCKED; t.key = 1; t.deadline = S->now + v * 1000000ull; t.woken = 0; t.why = "stall";
      int n = ChooseNext(self, false, false, K_SCHED, 0, false, 0);
      if (n != self) { SwitchTo(n); WaitGo(self); }
      t.state = T_RUNNABLE; t.deadline = kInf;
      return;
    }
  }
  t.state = T_RUNNABLE;
  if (!t.since) t.since = ++S->fifo;
  if (force_other) t.since = ++S->fifo;
  int n = ChooseNext(self, true, force_other, K_SCHED, 0, false, 0);
  if (n != self) { t.since = ++S->fifo; SwitchAndWait(n); }
}
void Yield(const char* why) { if (Active()) YieldImpl(why, false); }
static void YieldOther() { YieldImpl("yield", true); }

// true: woken, false: deadline passed
bool Block(uint64_t key, uint64_t deadline, const char* why) {
  int self = tl_self;
  StepCheck();
  Thread& t = S->th[self];
  t.state = T_BLOCKED; t.key = key; t.deadline = deadline; t.woken = 0; t.why = why;
  t.since = ++S->fifo;
  int n = ChooseNext(self, false, false, K_SCHED, 0, false, 0);
  if (n != self) { SwitchTo(n); WaitGo(self); }
  t.state = T_RUNNABLE; t.deadline = kInf; t.key = 0;
  return t.woken != 0;
}

void SleepNs(uint64_t ns) {
  if (!Active()) return;
  Block(2, S->now + ns, "sleep");
}

// memory-access preemption -------------------------------------------------
static void ArmMem() {
  if (S->replay) {
    uint32_t& cur = S->cursor[K_MEM];
    if (cur < S->rbeg[K_MEM]) cur = S->rbeg[K_MEM];
    while (cur < S->rend[K_MEM] && S->rdec[cur].index < S->acc) ++cur;
    S->next_pre = cur < S->rend[K_MEM] ? S->rdec[cur].index : kInf;
  } else if (S->k.mem_mean) {
    double u = Unit(S->rng);
    S->next_pre = S->acc + 1 + (uint64_t)(-std::log(1 - u) * S->k.mem_mean);
  } else {
    S->next_pre = kInf;
  }
}
static void MemPreempt() {
  uint64_t idx = S->acc;
  int cand[kCand];
  int c = Candidates(cand, kCand);
  uint32_t gen = 0;
  if (c > 1 && !S->replay) {  // only a thread of the same process can see the difference
    int same[kCand], n = 0;
    for (int i = 0; i < c; ++i) if (cand[i] != tl_self && S->th[cand[i]].proc == S->th[tl_self].proc) same[n++] = i;
    if (n) gen = 1 + same[Rnd(n)];
  }
  uint32_t v = Decide(K_MEM, idx, gen);
  ArmMem();
  if (S->next_pre <= S->acc) S->next_pre = S->acc + 1;
  if (v && c > 1) {
    StepCheck();
    int self = tl_self;
    S->th[self].state = T_RUNNABLE;
    int n = ChooseNext(self, true, false, K_MEM, idx, true, v);
    if (n != self) { S->th[self].since = ++S->fifo; SwitchAndWait(n); }
  }
}
void MemSlow() {
  if (!Active() || tl_nopre) { S->next_pre = S->acc + 1; return; }
  MemPreempt();
}
void MemConflict(int other) {
  if (tl_nopre || S->replay) return;
  Thread& o = S->th[other];
  if (o.state != T_RUNNABLE || o.proc != S->th[tl_self].proc || !Coin(S->k.p_conf)) return;
  MemPreempt();
}
int CurThread() { return tl_self; }
void RearmKnobs() { ArmMem(); S->conf = !S->replay && S->k.p_conf > 0; }

// ------------------------------------------------------------- lifecycle
static void Finish(int verdict) {
  if (S->verdict < 0) S->verdict = verdict;
  __atomic_store_n(&S->finished, 1, __ATOMIC_RELEASE);
  raw_futex(&S->finished, FUTEX_WAKE, 1);
  for (;;) pause();
}

static int NewThread(int proc, const char* name) {
  if (S->nth >= kMaxThreads) { snprintf(S->detail, sizeof S->detail, "too many threads"); Finish(V_INCONCLUSIVE); }
  int t = S->nth++;
  Thread& x = S->th[t];
  memset(&x, 0, sizeof x);
  x.proc = proc; x.state = T_RUNNABLE; x.deadline = kInf; x.since = ++S->fifo;
  x.prio = 1000000 + Rnd(1000000);
  (void)name;
  S->live[S->nlive++] = t;
  S->procs[proc].nthreads++;
  S->stats[S_THREADS]++;
  return t;
}
static void RemoveLive(int t) {
  for (int i = 0; i < S->nlive; ++i)
    if (S->live[i] == t) { for (int j = i + 1; j < S->nlive; ++j) S->live[j - 1] = S->live[j]; S->nlive--; return; }
}
static void RemoveProcThreads(int p) {
  int w = 0;
  for (int i = 0; i < S->nlive; ++i) {
    int t = S->live[i];
    if (S->th[t].proc == p) S->th[t].state = T_DEAD; else S->live[w++] = t;
  }
  S->nlive = w;
}
static void EndProc(int p, int state) {
  S->procs[p].state = state;
  RemoveProcThreads(p);
  Mix(0x3000 + p * 16 + state);
  WakeKey(0xE0000000ull, 0, -1);  // coordinator waiting for processes
}
// The current thread's process is over: hand the token on and die.
[[noreturn]] static void LeaveForever(bool sigkill) {
  int n = ChooseNext(-1, false, false, K_SCHED, 0, false, 0);
  SwitchTo(n);
  if (sigkill) { syscall(SYS_kill, (pid_t)syscall(SYS_getpid), SIGKILL); for (;;) pause(); }
  syscall(SYS_exit_group, 0);
  for (;;) {}
}
static void FinalHandler() {
  if (g_proc > 0 && tl_self >= 0) {
    Log("process exit code=%d", S->procs[g_proc].code);
    EndProc(g_proc, P_EXITED);
    LeaveForever(false);
  }
}
void ExitNow(int code) {
  if (g_proc > 0 && tl_self >= 0) {
    S->procs[g_proc].code = code;
    Mix(0x5000 + code);
    Log("process exit code=%d (immediate)", code);
    EndProc(g_proc, P_EXITED);
    LeaveForever(false);
  }
  syscall(SYS_exit_group, code);
  for (;;) {}
}
void SetProcMsg(const std::string& m) {
  strncpy(S->procs[g_proc].msg, m.c_str(), sizeof S->procs[g_proc].msg - 1);
}

static void CrashHandler(int sig, siginfo_t* si, void*) {
  if (g_proc > 0 && tl_self >= 0) {
    void* bt[40];
    int n = backtrace(bt, 40);
    ProcInfoX& p = S->procs[g_proc];
    p.sig = sig;
    char* m = p.msg;
    size_t l = strlen(m), cap = sizeof p.msg;
    l += snprintf(m + l, cap - l, " [signal %d addr %p bt", sig, si->si_addr);
    for (int i = 0; i < n && l + 24 < cap; ++i) l += snprintf(m + l, cap - l, " %p", bt[i]);
    if (l + 2 < cap) { m[l++] = ']'; m[l] = 0; }
    Log("process died with signal %d", sig);
    EndProc(g_proc, P_CRASHED);
    LeaveForever(true);
  }
  // coordinator or worker
  if (S != &g_dummy && tl_self == 0) {
    void* bt[40];
    int n = backtrace(bt, 40);
    char* m = S->detail;
    size_t l = snprintf(m, sizeof S->detail, "coordinator signal %d bt", sig);
    for (int i = 0; i < n && l + 24 < sizeof S->detail; ++i) l += snprintf(m + l, sizeof S->detail - l, " %p", bt[i]);
    S->verdict = V_HARNESS;
    Finish(V_HARNESS);
  }
  signal(sig, SIG_DFL);
  raise(sig);
}
static void TerminateHandler() {
  const char* what = "terminate without exception";
  std::string s;
  if (auto e = std::current_exception()) {
    try { std::rethrow_exception(e); }
    catch (const std::exception& x) { s = std::string("terminate: ") + x.what(); }
    catch (...) { s = "terminate: unknown exception"; }
    what = s.c_str();
  }
  if (g_proc > 0) {
    ProcInfoX& p = S->procs[g_proc];
    size_t l = strlen(p.msg);
    snprintf(p.msg + l, sizeof p.msg - l, " [%s]", what);
  } else {
    snprintf(S->detail, sizeof S->detail, "%s", what);
  }
  abort();
}
static void SetAltStack(int slot) {
  stack_t ss{};
  ss.ss_sp = mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  ss.ss_size = 65536;
  (void)slot;
  sigaltstack(&ss, nullptr);
}
static void InstallHandlers() {
  struct sigaction sa{};
  sa.sa_sigaction = CrashHandler;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGTRAP}) sigaction(s, &sa, nullptr);
  signal(SIGPIPE, SIG_IGN);
  std::set_terminate(TerminateHandler);
}

int Spawn(int node, const char* name, const std::function<int()>& fn) {
  int p = S->nprocs++;
  if (p >= kMaxProcs) { snprintf(S->detail, sizeof S->detail, "too many procs"); Finish(V_HARNESS); }
  ProcInfoX& pi = S->procs[p];
  memset(&pi, 0, sizeof pi);
  pi.node = node; pi.state = P_RUNNING; pi.code = -1;
  strncpy(pi.name, name, sizeof pi.name - 1);
  uint64_t h = S->seed ^ Hash64(name, strlen(name)) ^ (p * 0x9E3779B97F4A7C15ull);
  S->procs_rng[p] = h;
  int t = NewThread(p, name);
  fflush(stdout);
  pid_t pid = (pid_t)syscall(SYS_clone, SIGCHLD, 0, 0, 0, 0);
  // raw clone keeps libc from running atfork handlers in an odd state; the
  // process is single threaded at this point.
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    tl_self = t;
    g_proc = p;
    SetAltStack(t);
    WaitGo(t);
    Mix(0x4000 + p);
    int rc = 100;
    ResetRace();
    try {
      rc = fn();
    } catch (const std::exception& e) {
      SetProcMsg(std::string("uncaught: ") + e.what());
    } catch (...) {
      SetProcMsg("uncaught unknown exception");
    }
    S->procs[p].code = rc;
    Mix(0x5000 + rc);
    exit(rc);
  }
  pi.pid = pid;
  Yield("spawn");
  return p;
}
const ProcInfo& Proc(int p) { return *reinterpret_cast<ProcInfo*>(&S->procs[p]); }

static void LoseInflight(int p) {
  for (int i = 0; i < S->nflight;) {
    Msg& m = S->msgs[S->flight[i]];
    if (m.proc == p && DecideUser(2, 0.5)) {
      m.state = M_LOST; S->stats[S_MSG_LOST]++;
      S->flight[i] = S->flight[--S->nflight];
    } else {
      ++i;
    }
  }
}
void Kill(int p) {
  ProcInfoX& pi = S->procs[p];
  if (pi.state != P_RUNNING) return;
  Log("KILL proc %d (%s)", p, pi.name);
  if (g_proc == p) {
    S->stats[S_CRASH_SELF]++;
    LoseInflight(p);
    EndProc(p, P_KILLED);
    LeaveForever(true);
  }
  S->stats[S_CRASH_EXT]++;
  syscall(SYS_kill, pi.pid, SIGKILL);
  LoseInflight(p);
  EndProc(p, P_KILLED);
}
bool WaitProcs(const std::vector<int>& ps, uint64_t timeout_ns) {
  uint64_t dl = timeout_ns == kInf ? kInf : S->now + timeout_ns;
  for (;;) {
    bool all = true;
    for (int p : ps) if (S->procs[p].state == P_RUNNING) all = false;
    if (all) return true;
    if (S->deadlock) return false;
    if (S->now >= dl) return false;
    Block(0xE0000000ull, dl, "waitprocs");
  }
}
bool Deadlocked() { return S->deadlock; }
std::string ThreadDump() {
  std::string o;
  char b[256];
  for (int i = 0; i < S->nlive; ++i) {
    Thread& t = S->th[S->live[i]];
    if (t.proc == 0) continue;
    snprintf(b, sizeof b, "t%d(%s):%s%s ", S->live[i], S->procs[t.proc].name,
             t.state == T_BLOCKED ? t.why : "runnable", t.deadline != kInf && t.state == T_BLOCKED ? "+timeout" : "");
    o += b;
  }
  return o;
}

void CrashPoint(const char* where) { CrashPointCls(where, 2); }
void CrashPointCls(const char* where, uint32_t cls) {
  if (!Active() || g_proc == 0) return;
  Knobs& k = S->k;
  uint64_t idx = S->count[K_CRASH]++;
  bool ok = k.crash_budget > 0 && (k.crash_node < 0 || k.crash_node == S->procs[g_proc].node) && (k.crash_cls >> cls & 1);
  uint32_t v = Decide(K_CRASH, idx, ok && Coin(k.p_crash) ? 1 : 0);
  if (v) {
    if (k.crash_budget) k.crash_budget--;
    Log("CRASH at %s", where);
    Mix(Hash64(where, strlen(where)));
    Kill(g_proc);
  }
}

// --------------------------------------------------------------- verdicts
void Violation(const std::string& tag, const std::string& detail) {
  if (S->verdict >= 0) return;
  S->verdict = V_VIOLATION;
  strncpy(S->tag, tag.c_str(), sizeof S->tag - 1);
  strncpy(S->detail, detail.c_str(), sizeof S->detail - 1);
  Log("VIOLATION %s: %s", tag.c_str(), detail.c_str());
}
void Inconclusive(const std::string& why) {
  if (S->verdict >= 0) return;
  S->verdict = V_INCONCLUSIVE;
  strncpy(S->tag, "inconclusive", sizeof S->tag - 1);
  strncpy(S->detail, why.c_str(), sizeof S->detail - 1);
}
bool HasVerdict() { return S->verdict >= 0; }
void MarkNontrivial() { S->nontrivial = 1; }
void SetSample(const std::string& s) { strncpy(S->sample, s.c_str(), sizeof S->sample - 1); }

int64_t Param(const char* name, int64_t lo, int64_t hi) {
  int64_t v;
  bool found = false;
  for (int i = 0; i < S->nrparams; ++i)
    if (strcmp(S->rparams[i].name, name) == 0) { v = std::min(hi, std::max(lo, S->rparams[i].v)); found = true; }
  if (!found) {
    uint64_t s = S->seed * 0x9E3779B97F4A7C15ull ^ Hash64(name, strlen(name));
    Splitmix(s);
    uint64_t span = (uint64_t)(hi - lo + 1);
    v = lo + (int64_t)(Splitmix(s) % span);
  }
  for (int i = 0; i < S->nparams; ++i)
    if (strcmp(S->params[i].name, name) == 0) return S->params[i].v;
  if (S->nparams < kMaxParams) {
    strncpy(S->params[S->nparams].name, name, sizeof S->params[0].name - 1);
    S->params[S->nparams++].v = v;
  }
  Mix(Hash64(name, strlen(name)) ^ (uint64_t)v);
  return v;
}
bool ParamP(const char* name, double p) {
  // stored as 0/1 so that overrides read well
  uint64_t s = S->seed * 0x9E3779B97F4A7C15ull ^ Hash64(name, strlen(name));
  Splitmix(s);
  int64_t v = Unit(s) < p;
  for (int i = 0; i < S->nrparams; ++i)
    if (strcmp(S->rparams[i].name, name) == 0) v = S->rparams[i].v;
  for (int i = 0; i < S->nparams; ++i)
    if (strcmp(S->params[i].name, name) == 0) return S->params[i].v;
  if (S->nparams < kMaxParams) {
    strncpy(S->params[S->nparams].name, name, sizeof S->params[0].name - 1);
    S->params[S->nparams++].v = v;
  }
  Mix(Hash64(name, strlen(name)) ^ (uint64_t)v);
  return v;
}

// ---------------------------------------------------------------- network
static int ChanIdx(uint64_t id) {
  for (int i = 0; i < S->nchans; ++i) if (S->chans[i].id == id) return i;
  if (S->nchans >= kMaxChans) { snprintf(S->detail, sizeof S->detail, "too many chans"); Finish(V_HARNESS); }
  int i = S->nchans++;
  memset(&S->chans[i], 0, sizeof(Chan));
  S->chans[i].id = id;
  return i;
}
static uint64_t KeyHash(uint64_t chan, const std::string& key, int src) {
  return Hash64(key.data(), key.size(), chan * 31 + src + 77) | (1ull << 63);
}
void NetSend(int dst_node, uint64_t chan, const std::string& key, const void* p, size_t n) {
  CrashPointCls("before-send", 0);
  Yield("send");
  if (S->nmsgs >= kMaxMsgs || S->arena_used + n + 64 > kArenaBytes) {
    snprintf(S->detail, sizeof S->detail, "too many messages");
    Finish(V_INCONCLUSIVE);
  }
  int i = S->nmsgs++;
  Msg& m = S->msgs[i];
  memset(&m, 0, sizeof m);
  m.src = SelfNode(); m.dst = dst_node; m.chan_idx = ChanIdx(chan);
  m.proc = g_proc;
  m.keyhash = KeyHash(chan, key, m.src);
  strncpy(m.key, key.c_str(), sizeof m.key - 1);
  m.off = S->arena_used; m.size = n;
  memcpy(g_arena + m.off, p, n);
  S->arena_used += (n + 15) & ~size_t{15};
  m.hash = Hash64(p, n);
  m.seq = ++S->chans[m.chan_idx].sent;
  Knobs& k = S->k;
  uint64_t delay = k.net_base;
  uint64_t gen = 0;
  bool dropped = false;
  if (!S->replay) {
    if (Coin(k.p_delay)) gen = 1 + Rnd(k.delay_max);
    if (Coin(k.p_drop)) { gen += 10000 + Rnd(30000); dropped = true; }  // 1..4 s retransmit
  }
  uint32_t v = DecideNext(K_DELAY, (uint32_t)gen);
  if (v) { S->stats[S_MSG_DELAYED]++; if (dropped || v >= 10000) S->stats[S_MSG_DROP_RETRY]++; }
  delay += v;
  m.deliver = S->now + delay * 100000ull;
  m.state = M_FLIGHT;
  S->flight[S->nflight++] = i;
  S->stats[S_MSG]++;
  Mix(m.keyhash ^ n);
  if (g_verbose) Log("send msg#%d %d->%d %s (%zu bytes) delay %lu", i, m.src, m.dst, m.key, n, (unsigned long)delay);
  CrashPointCls("after-send", 0);
}
static int FindMsg(int dst, uint64_t kh) {
  // scan from the oldest unconsumed message
  while (S->mbase < S->nmsgs && S->msgs[S->mbase].state >= M_CONSUMED) S->mbase++;
  for (int i = S->mbase; i < S->nmsgs; ++i) {
    Msg& m = S->msgs[i];
    if (m.state == M_DELIVERED && m.dst == dst && m.keyhash == kh) return i;
  }
  return -1;
}
bool NetRecv(int src_node, uint64_t chan, const std::string& key, std::string* out, uint64_t timeout_ms) {
  Yield("recv");
  uint64_t kh = KeyHash(chan, key, src_node);
  uint64_t dl = S->now + timeout_ms * 1000000ull;
  int me = SelfNode();
  for (;;) {
    RunEvents();
    int i = FindMsg(me, kh);
    if (i >= 0) {
      Msg& m = S->msgs[i];
      out->assign(g_arena + m.off, m.size);
      m.state = M_CONSUMED;
      Chan& c = S->chans[m.chan_idx];
      c.acked++;
      uint64_t ck = 0xC0000000ull ^ c.id;
      for (int j = 0; j < S->nlive; ++j) {
        int t = S->live[j];
        if (S->th[t].state == T_BLOCKED && S->th[t].key == ck) { S->th[t].woken = 1; MakeRunnable(t); }
      }
      Mix(kh + 1);
      if (g_verbose) Log("recv msg#%d %s", i, m.key);
      CrashPointCls("after-recv", 0);
      return true;
    }
    if (S->now >= dl) {
      S->stats[S_RECV_TIMEOUT]++;
      Log("recv timeout %s", key.c_str());
      return false;
    }
    if (g_verbose) Log("recv wait %s", key.c_str());
    Block(kh, dl, "recv");
  }
}
uint64_t NetChanSent(uint64_t chan) { return S->chans[ChanIdx(chan)].sent; }
bool NetThrottle(uint64_t chan, uint64_t seq, uint32_t window, uint64_t timeout_ms) {
  if (window == 0) return true;
  int ci = ChanIdx(chan);
  uint64_t dl = S->now + timeout_ms * 1000000ull;
  bool counted = false;
  while (S->chans[ci].acked + window < seq) {
    if (!counted) { S->stats[S_THROTTLE_BLOCK]++; counted = true; }
    if (S->now >= dl) { S->stats[S_RECV_TIMEOUT]++; return false; }
    Block(0xC0000000ull ^ S->chans[ci].id, dl, "throttle");
  }
  return true;
}
bool NetWaitDelivered(int, uint64_t chan, uint64_t seq, uint64_t timeout_ms) {
  int ci = ChanIdx(chan);
  uint64_t dl = S->now + timeout_ms * 1000000ull;
  while (S->chans[ci].delivered < seq) {
    if (S->now >= dl) return false;
    Block(0xD0000000ull ^ S->chans[ci].id, dl, "send-sync");
  }
  return true;
}
std::vector<MsgInfo> NetHistory() {
  std::vector<MsgInfo> v;
  for (int i = 0; i < S->nmsgs; ++i) {
    Msg& m = S->msgs[i];
    v.push_back({m.src, m.dst, S->chans[m.chan_idx].id, m.size, m.key, m.hash, m.proc});
  }
  return v;
}
std::string NetPayload(size_t i) { return std::string(g_arena + S->msgs[i].off, S->msgs[i].size); }
void NetPartition(int a, int b, bool on) {
  for (int i = 0; i < 16; ++i)
    for (int j = 0; j < 16; ++j)
      if ((a < 0 || i == a) && (b < 0 || j == b)) S->part[i][j] = on;
  Mix(0x6000 + on);
  Log("partition %d->%d %s", a, b, on ? "on" : "off");
}
void NetHealAll() { memset(S->part, 0, sizeof S->part); Log("heal"); }

// ------------------------------------------------------------- run driver
static std::vector<std::pair<std::string, ScenarioFn>>& Registry() {
  static auto* r = new std::vector<std::pair<std::string, ScenarioFn>>();
  return *r;
}
Scenario::Scenario(const char* n, ScenarioFn f) { Registry().push_back({n, f}); }

static char g_scratch[256];
const char* ScratchDir() {
  static char run_dir[sizeof g_scratch + 4];
  snprintf(run_dir, sizeof run_dir, "%s/r", g_scratch);
  return run_dir;
}

static void RemoveTree(const std::string& path) {
  // only ever called on directories below our own scratch root
  if (path.compare(0, strlen(g_scratch), g_scratch) != 0 || strlen(g_scratch) < 10) return;
  pid_t pid = (pid_t)syscall(SYS_clone, SIGCHLD, 0, 0, 0, 0);
  if (pid == 0) {
    execl("/bin/rm", "rm", "-rf", "--", path.c_str(), (char*)nullptr);
    syscall(SYS_exit_group, 1);
  }
  int st;
  syscall(SYS_wait4, pid, &st, 0, nullptr);
}

void WorkerInit() {
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  const char* base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
  snprintf(g_scratch, sizeof g_scratch, "%s/psisim.%08d", base, (int)syscall(SYS_getpid));
  RemoveTree(g_scratch);
  mkdir(g_scratch, 0700);
  void* m = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  void* a = mmap(nullptr, kArenaBytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED || a == MAP_FAILED) { perror("mmap"); _exit(3); }
  S = static_cast<Shm*>(m);
  g_acc = &S->acc;
  g_arena = static_cast<char*>(a);
  S->next_pre = kInf; S->conf = 0;
}
void WorkerCleanup() { RemoveTree(g_scratch); }

static double RealNow() {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

RunResult RunOnce(const RunSpec& spec, double wall_limit) {
  RunResult r;
  ScenarioFn fn = nullptr;
  for (auto& s : Registry()) if (s.first == spec.scenario) fn = s.second;
  if (!fn) { r.detail = "no scenario " + spec.scenario; return r; }
  double t0 = RealNow();
  // reset shared state
  size_t used = S->arena_used;
  madvise(S, sizeof(Shm), MADV_REMOVE);
  memset(static_cast<void*>(S), 0, offsetof(Shm, th));
  (void)used;
  madvise(g_arena, kArenaBytes, MADV_REMOVE);
  S->seed = spec.seed;
  S->rng = spec.seed * 0xD1342543DE82EF95ull + 0x1234567;
  S->verdict = -1;
  S->next_pre = kInf; S->conf = 0;
  S->max_steps = 3000000;
  S->prio_low = 1000000;
  S->replay = spec.replay;
  g_verbose = spec.verbose;
  for (auto& p : spec.params) {
    if (S->nrparams >= kMaxParams) break;
    strncpy(S->rparams[S->nrparams].name, p.first.c_str(), sizeof S->rparams[0].name - 1);
    S->rparams[S->nrparams++].v = p.second;
  }
  if (spec.replay) {
    std::vector<Decision> d = spec.decisions;
    std::stable_sort(d.begin(), d.end(), [](const Decision& a, const Decision& b) {
      return a.kind != b.kind ? a.kind < b.kind : a.index < b.index; });
    size_t n = std::min<size_t>(d.size(), kMaxDecisions);
    for (size_t i = 0; i < n; ++i) S->rdec[i] = d[i];
    for (uint32_t k = 0; k < K_KINDS; ++k) {
      size_t b = 0;
      while (b < n && d[b].kind < k) ++b;
      size_t e = b;
      while (e < n && d[e].kind == k) ++e;
      S->rbeg[k] = b; S->rend[k] = e;
    }
  }
  std::string run = std::string(g_scratch) + "/r";
  RemoveTree(run);
  mkdir(run.c_str(), 0700);
  fflush(stdout); fflush(stderr);
  // reset of inherited descriptors etc. happens by fork
  pid_t pid = (pid_t)syscall(SYS_clone, SIGCHLD, 0, 0, 0, 0);
  if (pid == 0) {
// On a stack at a fixed address: where the kernel put ours depends on the
    // arguments and the environment, and the conflict table hashes addresses.
    static ucontext_t ctx;
    static const std::string* g_run; static ScenarioFn g_fn; static uint64_t g_seed;
    g_run = &run; g_fn = fn; g_seed = spec.seed;
    constexpr size_t kStack = 64u << 20;
    void* stk = mmap(reinterpret_cast<void*>(0x7e0000000000ull), kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (stk == MAP_FAILED) _exit(8);
    getcontext(&ctx);
    ctx.uc_stack.ss_sp = stk;
    ctx.uc_stack.ss_size = kStack;
    ctx.uc_link = nullptr;
    makecontext(&ctx, +[] {
      const std::string& run = *g_run; ScenarioFn fn = g_fn;
      setpgid(0, 0);
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      if (chdir(run.c_str()) != 0) _exit(9);
      AllocNewRun();
      InstallHandlers();
      atexit(FinalHandler);
      SetAltStack(0);
      g_proc = 0;
      S->nprocs = 1;
      S->procs[0].node = -1; S->procs[0].state = P_RUNNING;
      strcpy(S->procs[0].name, "coord");
      S->procs_rng[0] = g_seed ^ 0xABCDEF;
      int t = NewThread(0, "coord");
      tl_self = t;
      S->cur = t;
      try {
        fn();
      } catch (const std::exception& e) {
        S->verdict = V_HARNESS;
        snprintf(S->detail, sizeof S->detail, "scenario exception: %s", e.what());
      }
      if (S->verdict < 0) S->verdict = V_OK;
      Finish(S->verdict);
    }, 0);
    setcontext(&ctx);
    _exit(7);
  }
  setpgid(pid, pid);
  bool timeout = false;
  while (!__atomic_load_n(&S->finished, __ATOMIC_ACQUIRE)) {
    struct timespec ts {0, 200000000};
    raw_futex(&S->finished, FUTEX_WAIT, 0, &ts);
    if (S->finished) break;
    if (RealNow() - t0 > wall_limit) { timeout = true; break; }
    int st;
    if (syscall(SYS_wait4, pid, &st, WNOHANG, nullptr) == pid && !S->finished) { timeout = true; break; }
  }
  kill(-pid, SIGKILL);
  kill(pid, SIGKILL);
  int st;
  syscall(SYS_wait4, pid, &st, 0, nullptr);
  // orphaned parties are reparented to us (subreaper): wait until all are gone
  while (syscall(SYS_wait4, -1, &st, 0, nullptr) > 0) {}
  if (timeout) {
    r.verdict = V_INCONCLUSIVE; r.tag = "wall"; r.detail = "wall clock limit; " + ThreadDump();
  } else {
    r.verdict = S->verdict; r.tag = S->tag; r.detail = S->detail;
  }
  S->stats[S_ACCESSES] = S->acc;
  r.trace_hash = S->trace; r.sched_hash = S->sched; r.sim_ns = S->now; r.steps = S->steps;
  r.decisions.assign(S->dec, S->dec + S->ndec);
  for (int i = 0; i < S->nparams; ++i) r.params.push_back({S->params[i].name, S->params[i].v});
  for (int i = 0; i < kMaxProbes && S->probes[i].name[0]; ++i) r.probes.push_back({S->probes[i].name, S->probes[i].n});
  memcpy(r.stats, S->stats, sizeof r.stats);
  r.nontrivial = S->nontrivial;
  r.sample = S->sample;
  r.wall = RealNow() - t0;
  return r;
}

bool AllocShouldFail(size_t n) {
  if (tl_self < 0 || tl_nosim || g_proc == 0 || S->k.alloc_budget == 0 || !S->k.alloc_mem) return false;
  if (n < S->k.alloc_min || (S->k.alloc_node >= 0 && S->k.alloc_node != SelfNode())) return false;
  uint32_t v = DecideNext(K_ALLOC, Coin(S->k.p_alloc) ? 1 : 0);
  if (v) { S->k.alloc_budget--; S->stats[S_ALLOC_FAIL]++; return true; }
  return false;
}

// ------------------------------------------------------ thread primitives
struct Start { void* (*fn)(void*); void* arg; int slot; };
using CreateFn = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
using JoinFn = int (*)(pthread_t, void**);
static CreateFn real_create;
static JoinFn real_join;
static int (*real_detach)(pthread_t);
static FILE* (*real_fopen)(const char*, const char*);
static int (*real_fclose)(FILE*);
static void Resolve() {
  if (g_inited) return;
  g_inited = true;
  real_create = (CreateFn)dlsym(RTLD_NEXT, "pthread_create");
  real_join = (JoinFn)dlsym(RTLD_NEXT, "pthread_join");
  real_detach = (int (*)(pthread_t))dlsym(RTLD_NEXT, "pthread_detach");
  real_fopen = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen64");
  real_fclose = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose");
}
__attribute__((constructor(101))) static void Early() { Resolve(); }

struct PtMap { pthread_t pt; int slot; bool used; };
static PtMap g_pt[kMaxThreads];  // this process
static int g_npt = 0;
constexpr size_t kStack = 1 << 20;
static char* StackFor(int slot) {
  static uintptr_t base = 0;
  if (!base) {
    base = 0x200000000000ull;
    void* m = mmap(reinterpret_cast<void*>(base), kStack * kMaxThreads, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (m == MAP_FAILED) { perror("stack mmap"); _exit(4); }
  }
  return reinterpret_cast<char*>(base + kStack * slot);
}
static void* Trampoline(void* p) {
  Start* s = static_cast<Start*>(p);
  Start st = *s;
  tl_self = st.slot;
  SetAltStack(st.slot);
  WaitGo(st.slot);
  free(s);
  RaceThreadStart(st.slot);
  void* ret = st.fn(st.arg);
  // simulated exit
  StepCheck();
  RaceThreadEnd(st.slot);
  S->th[st.slot].state = T_DEAD;
  S->procs[g_proc].nthreads--;
  RemoveLive(st.slot);
  WakeKey(0xF000000000ull + st.slot, g_proc, -1);
  int n = ChooseNext(-1, false, false, K_SCHED, 0, false, 0);
  tl_self = -1;
  SwitchTo(n);
  return ret;
}
}  // namespace sim

using namespace sim;

// Layout of a simulated mutex inside pthread_mutex_t
struct SMutex { int owner; int count; int waiters; int pad; int kind; };
static_assert(sizeof(SMutex) <= sizeof(pthread_mutex_t), "");
struct SCond { int waiters; int clock; };
struct SRw { int writer; int readers; int wwait; };

static int MutexLock(pthread_mutex_t* pm, uint64_t deadline, bool try_only) {
  SMutex* m = reinterpret_cast<SMutex*>(pm);
  int me = sim::Self();
  if (!Active()) { m->owner = -2; m->count++; return 0; }
  if (!try_only) Yield("lock");
  for (;;) {
    if (m->owner == 0) {
      m->owner = me + 1; m->count = 1;
      RaceAcquire(pm);
      return 0;
    }
    if (m->owner == me + 1) {
      if ((m->kind & 3) == PTHREAD_MUTEX_RECURSIVE) { m->count++; return 0; }
      if (try_only) return EBUSY;
      if ((m->kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    if (try_only) return EBUSY;
    if (deadline != kInf && S->now >= deadline) return ETIMEDOUT;
    m->waiters++;
    Block(reinterpret_cast<uint64_t>(pm), deadline, "mutex");
    m->waiters--;
  }
}
static int MutexUnlock(pthread_mutex_t* pm, bool yield = true) {
  SMutex* m = reinterpret_cast<SMutex*>(pm);
  if (!Active()) { if (m->count > 0 && --m->count == 0) m->owner = 0; return 0; }
  if (m->owner == -2) { if (--m->count == 0) m->owner = 0; return 0; }
  if ((m->kind & 3) == PTHREAD_MUTEX_RECURSIVE && m->count > 1) { m->count--; return 0; }
  RaceRelease(pm);
  m->owner = 0; m->count = 0;
  if (m->waiters) WakeKey(reinterpret_cast<uint64_t>(pm), g_proc, -1);
  if (yield) Yield("unlock");
  return 0;
}
static uint64_t AbsDeadline(clockid_t c, const struct timespec* ts);

extern "C" {
#define EXPORT __attribute__((visibility("default")))

EXPORT int pthread_create(pthread_t* t, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  Resolve();
  if (!Active()) return real_create(t, attr, fn, arg);
  if (sim_alloc_hook_on && S->k.alloc_budget && S->k.alloc_thr && (S->k.alloc_node < 0 || S->k.alloc_node == SelfNode()) && DecideNext(K_ALLOC, Coin(S->k.p_alloc) ? 1 : 0)) { S->k.alloc_budget--; S->stats[S_ALLOC_FAIL]++; return EAGAIN; }
  int slot = NewThread(g_proc, "thr");
  Start* s = static_cast<Start*>(malloc(sizeof(Start)));
  s->fn = fn; s->arg = arg; s->slot = slot;
  RaceFork(Self(), slot);
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstack(&a, StackFor(slot), kStack);
  int det = PTHREAD_CREATE_JOINABLE;
  if (attr) pthread_attr_getdetachstate(attr, &det);
  pthread_attr_setdetachstate(&a, det);
  int rc = real_create(t, &a, Trampoline, s);
  pthread_attr_destroy(&a);
  if (rc != 0) { snprintf(S->detail, sizeof S->detail, "pthread_create failed %d", rc); Finish(V_INCONCLUSIVE); }
  g_pt[g_npt++] = {*t, slot, true};
  Yield("create");
  return 0;
}
EXPORT int pthread_join(pthread_t t, void** ret) {
  Resolve();
  if (!Active()) return real_join(t, ret);
  for (int i = g_npt - 1; i >= 0; --i) {
    if (g_pt[i].used && pthread_equal(g_pt[i].pt, t)) {
      int slot = g_pt[i].slot;
      Yield("join");
      while (S->th[slot].state != T_DEAD) Block(0xF000000000ull + slot, kInf, "join");
      RaceJoin(Self(), slot);
      g_pt[i].used = false;
      int rc = real_join(t, ret);
      madvise(StackFor(slot), kStack, MADV_DONTNEED);
      return rc;
    }
  }
  return real_join(t, ret);
}
EXPORT int pthread_detach(pthread_t t) {
  Resolve();
  for (int i = g_npt - 1; i >= 0; --i) if (g_pt[i].used && pthread_equal(g_pt[i].pt, t)) g_pt[i].used = false;
  return real_detach(t);
}

EXPORT int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  memset(m, 0, sizeof *m);
  if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); reinterpret_cast<SMutex*>(m)->kind = k; }
  return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) { return MutexLock(m, kInf, false); }
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) { return MutexLock(m, kInf, true); }
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) { return MutexUnlock(m); }
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { return MutexLock(m, AbsDeadline(CLOCK_REALTIME, ts), false); }
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) { return MutexLock(m, AbsDeadline(c, ts), false); }

EXPORT int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
EXPORT int pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int CondWait(pthread_cond_t* pc, pthread_mutex_t* m, uint64_t dl) {
  if (!Active()) return 0;
  uint32_t sp = DecideNext(K_SPUR, Coin(S->k.p_spur) ? 1 : 0);
  MutexUnlock(m, false);
  bool woken = true;
  if (sp) {
    S->stats[S_SPURIOUS]++;
    Yield("spurious");
  } else {
    woken = Block(reinterpret_cast<uint64_t>(pc), dl, "cond");
  }
  MutexLock(m, kInf, false);
  return (!woken && dl != kInf) ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return CondWait(c, m, kInf); }
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return CondWait(c, m, AbsDeadline(CLOCK_REALTIME, ts)); }
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t ck, const struct timespec* ts) { return CondWait(c, m, AbsDeadline(ck, ts)); }
EXPORT int pthread_cond_signal(pthread_cond_t* c) {
  if (!Active()) return 0;
  WakeKey(reinterpret_cast<uint64_t>(c), g_proc, 1);
  Yield("signal");
  return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!Active()) return 0;
  WakeKey(reinterpret_cast<uint64_t>(c), g_proc, -1);
  Yield("broadcast");
  return 0;
}

EXPORT int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof *l); return 0; }
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
static int RdLock(pthread_rwlock_t* l, uint64_t dl, bool t) {
  SRw* r = reinterpret_cast<SRw*>(l);
  if (!Active()) { r->readers++; return 0; }
  Yield("rdlock");
  for (;;) {
    if (r->writer == 0) { r->readers++; RaceAcquire(l); return 0; }
    if (r->writer == Self() + 1 && !t) return EDEADLK;
    if (t) return EBUSY;
    if (dl != kInf && S->now >= dl) return ETIMEDOUT;
    Block(reinterpret_cast<uint64_t>(l), dl, "rdlock");
  }
}
static int WrLock(pthread_rwlock_t* l, uint64_t dl, bool t) {
  SRw* r = reinterpret_cast<SRw*>(l);
  if (!Active()) { r->writer = -2; return 0; }
  Yield("wrlock");
  for (;;) {
    if (r->writer == 0 && r->readers == 0) { r->writer = Self() + 1; RaceAcquire(l); return 0; }
    if (r->writer == Self() + 1 && !t) return EDEADLK;
    if (t) return EBUSY;
    if (dl != kInf && S->now >= dl) return ETIMEDOUT;
    Block(reinterpret_cast<uint64_t>(l), dl, "wrlock");
  }
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return RdLock(l, kInf, false); }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return RdLock(l, kInf, true); }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return WrLock(l, kInf, false); }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return WrLock(l, kInf, true); }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  SRw* r = reinterpret_cast<SRw*>(l);
  if (Active()) RaceReleaseRw(l, r->writer != 0);
  if (r->writer) r->writer = 0; else if (r->readers > 0) r->readers--;
  if (Active()) { WakeKey(reinterpret_cast<uint64_t>(l), g_proc, -1); Yield("rwunlock"); }
  return 0;
}

EXPORT int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  volatile int* v = reinterpret_cast<volatile int*>(o);
  if (*v == 2) { if (Active()) RaceAcquire(o); return 0; }
  if (!Active()) { *v = 1; fn(); *v = 2; return 0; }
  for (;;) {
    if (*v == 2) { RaceAcquire(o); return 0; }
    if (*v == 0) {
      *v = 1;
      try { fn(); } catch (...) { *v = 0; WakeKey(reinterpret_cast<uint64_t>(o), g_proc, -1); throw; }
      RaceRelease(o);
      *v = 2;
      WakeKey(reinterpret_cast<uint64_t>(o), g_proc, -1);
      return 0;
    }
    Block(reinterpret_cast<uint64_t>(o), kInf, "once");
  }
}

// function-local statics
EXPORT int __cxa_guard_acquire(uint64_t* g) {
  unsigned char* b = reinterpret_cast<unsigned char*>(g);
  for (;;) {
    if (b[0]) { if (Active()) RaceAcquire(g); return 0; }
    if (!b[1]) { b[1] = 1; return 1; }
    if (!Active()) return 1;
    Block(reinterpret_cast<uint64_t>(g), kInf, "static-init");
  }
}
EXPORT void __cxa_guard_release(uint64_t* g) {
  unsigned char* b = reinterpret_cast<unsigned char*>(g);
  if (Active()) RaceRelease(g);
  b[0] = 1; b[1] = 0;
  if (Active()) WakeKey(reinterpret_cast<uint64_t>(g), g_proc, -1);
}
EXPORT void __cxa_guard_abort(uint64_t* g) {
  unsigned char* b = reinterpret_cast<unsigned char*>(g);
  b[1] = 0;
  if (Active()) WakeKey(reinterpret_cast<uint64_t>(g), g_proc, -1);
}

// --------------------------------------------------------------- clocks
static constexpr uint64_t kEpoch = 1700000000000000000ull;
static constexpr uint64_t kMono = 5000000000000ull;
EXPORT int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!Active()) return (int)syscall(SYS_clock_gettime, c, ts);
  uint64_t t;
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
    int n = S->procs[g_proc].node;
    t = kEpoch + S->now + (n >= 0 && n < 8 ? S->k.clock_skew_ns[n] : 0);
  } else {
    t = kMono + S->now;
  }
  ts->tv_sec = t / 1000000000ull;
  ts->tv_nsec = t % 1000000000ull;
  return 0;
}
EXPORT int gettimeofday(struct timeval* tv, void*) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
EXPORT time_t time(time_t* o) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (o) *o = ts.tv_sec;
  return ts.tv_sec;
}
EXPORT int nanosleep(const struct timespec* a, struct timespec*) {
  if (!Active()) return (int)syscall(SYS_nanosleep, a, nullptr);
  SleepNs((uint64_t)a->tv_sec * 1000000000ull + a->tv_nsec);
  return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int flags, const struct timespec* a, struct timespec*) {
  if (!Active()) return (int)syscall(SYS_clock_nanosleep, c, flags, a, nullptr);
  if (flags & TIMER_ABSTIME) { uint64_t d = AbsDeadline(c, a); if (d > S->now) SleepNs(d - S->now); }
  else SleepNs((uint64_t)a->tv_sec * 1000000000ull + a->tv_nsec);
  return 0;
}
EXPORT int usleep(useconds_t us) { struct timespec ts { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 }; return nanosleep(&ts, nullptr); }
EXPORT unsigned sleep(unsigned s) { struct timespec ts { (time_t)s, 0 }; nanosleep(&ts, nullptr); return 0; }
EXPORT int sched_yield(void) {
  if (!Active()) return (int)syscall(SYS_sched_yield);
  YieldOther();
  return 0;
}
EXPORT pid_t getpid(void) {
  if (tl_self < 0) return (pid_t)syscall(SYS_getpid);
  return 4000 + g_proc;
}
EXPORT int get_nprocs(void) { return Active() ? (int)S->k.ncpu : 4; }
EXPORT int get_nprocs_conf(void) { return get_nprocs(); }

// ------------------------------------------------------------ randomness
EXPORT ssize_t getrandom(void* b, size_t n, unsigned f) {
  if (!Active()) return syscall(SYS_getrandom, b, n, f);
  unsigned char* c = static_cast<unsigned char*>(b);
  for (size_t i = 0; i < n; ++i) c[i] = (unsigned char)AppRand();
  return n;
}
EXPORT int getentropy(void* b, size_t n) { getrandom(b, n, 0); return 0; }
EXPORT int RAND_bytes(unsigned char* b, int n) { getrandom(b, n, 0); return 1; }
EXPORT int RAND_priv_bytes(unsigned char* b, int n) { getrandom(b, n, 0); return 1; }
}  // extern C

static uint64_t AbsDeadline(clockid_t c, const struct timespec* ts) {
  uint64_t t = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
  uint64_t base = kMono;
  if (c == CLOCK_REALTIME) {
    int n = S->procs[g_proc].node;
    base = kEpoch + (n >= 0 && n < 8 ? S->k.clock_skew_ns[n] : 0);
  }
  if ((int64_t)ts->tv_sec < 0 || t <= base) return S->now;
  uint64_t d = t - base;
  return d > (kInf >> 2) ? kInf : d;
}

// ------------------------------------------------------- libstdc++ seams
namespace std {
unsigned int thread::hardware_concurrency() noexcept { return get_nprocs(); }
namespace {
bool FutexWait(unsigned* addr, unsigned val, uint64_t dl) {
  if (!Active()) return true;
  Yield("fwait");
  if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return true;
  // libstdc++ re-checks the value after every return
  if (DecideNext(K_SPUR, Coin(S->k.p_spur) ? 1 : 0)) { S->stats[S_SPURIOUS]++; return true; }
  return Block(reinterpret_cast<uint64_t>(addr), dl, "future") || dl == kInf;
}
}  // namespace
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool has, chrono::seconds s, chrono::nanoseconds ns) {
  uint64_t dl = kInf;
  if (has) { struct timespec ts { (time_t)s.count(), (long)ns.count() }; dl = AbsDeadline(CLOCK_REALTIME, &ts); }
  return FutexWait(a, v, dl);
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool has, chrono::seconds s, chrono::nanoseconds ns) {
  uint64_t dl = kInf;
  if (has) { struct timespec ts { (time_t)s.count(), (long)ns.count() }; dl = AbsDeadline(CLOCK_MONOTONIC, &ts); }
  return FutexWait(a, v, dl);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) {
  if (!Active()) return;
  WakeKey(reinterpret_cast<uint64_t>(a), g_proc, -1);
  Yield("fnotify");
}
void random_device::_M_init(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() {
  unsigned v; getrandom(&v, sizeof v, 0); return v;
}
namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  return time_point(duration(chrono::seconds(ts.tv_sec) + chrono::nanoseconds(ts.tv_nsec)));
}
steady_clock::time_point steady_clock::now() noexcept {
  struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
  return time_point(duration(chrono::seconds(ts.tv_sec) + chrono::nanoseconds(ts.tv_nsec)));
}
}}  // namespace chrono
}  // namespace std

// ------------------------------------------------------------------ disk
// the name of the scratch directory differs between processes
static uint64_t PathHash(const char* p) {
  uint64_t h = 0;
  size_t n = strlen(g_scratch);
  while (p && *p) {
    if (*p == '/' && strncmp(p, g_scratch, n) == 0) { p += n; continue; }
    h = (h ^ (unsigned char)*p++) * 1099511628211ull;
  }
  return h;
}
static bool g_tracked[4096];
static bool TrackPath(const char* p) {
  if (!p || p[0] != '/') return true;
  return strncmp(p, g_scratch, strlen(g_scratch)) == 0;
}
static bool Tracked(int fd) { return fd >= 0 && fd < 4096 && g_tracked[fd]; }

// Returns the fault type to apply (IOF_NONE normally); arg gets a length.
static thread_local int g_open_flags;
static uint32_t IoPoint(IoOp op, const char* path, size_t len, size_t* arg) {
  bool meta = op == IO_RENAME || op == IO_UNLINK || op == IO_MKDIR || op == IO_TRUNC || op == IO_SYSTEM || (op == IO_OPEN && (g_open_flags & (O_CREAT | O_TRUNC)));
  CrashPointCls("before-io", meta ? 2 : 1);
  Yield("io");
  S->stats[S_IO_OPS]++;
  Mix(((uint64_t)op << 40) ^ len ^ PathHash(path));
  if (g_verbose) Log("io op=%d %s len=%zu", op, path ? path : "", len);
  ProcInfoX& p = S->procs[g_proc];
  if (p.disk_full && (op == IO_WRITE || op == IO_MKDIR) ) { S->stats[S_IO_ENOSPC]++; return IOF_ENOSPC; }
  Knobs& k = S->k;
  uint64_t idx = S->count[K_IO]++;
  uint32_t gen = 0;
  bool ok = k.io_budget > 0 && (k.io_node < 0 || k.io_node == p.node);
  if (ok && Coin(k.p_io)) {
    uint32_t types[8]; int n = 0;
    auto add = [&](uint32_t t) { if (k.io_mask & (1u << t)) types[n++] = t; };
    switch (op) {
      case IO_OPEN: add(IOF_EMFILE); add(IOF_EIO); break;
      case IO_READ: add(IOF_EIO); add(IOF_SHORT); add(IOF_EINTR); break;
      case IO_WRITE: add(IOF_EIO); add(IOF_ENOSPC); add(IOF_SHORT); add(IOF_EINTR); break;
      case IO_CLOSE: add(IOF_EIO); break;
      case IO_SYSTEM: add(IOF_SYSFAIL); add(IOF_SYSPART); break;
      case IO_MKDIR: add(IOF_ENOSPC); break;
      default: add(IOF_EIO); break;
    }
    if (n) gen = types[Rnd(n)] | (Rnd(1 << 20) << 8);
  }
  uint32_t v = Decide(K_IO, idx, gen);
  if (!v) return IOF_NONE;
  uint32_t t = v & 0xff;
  if (k.io_budget && t != IOF_SHORT && t != IOF_EINTR) k.io_budget--;
  size_t a = v >> 8;
  if (arg) *arg = len > 1 ? 1 + a % (len - 1) : len;
  switch (t) {
    case IOF_EIO: S->stats[S_IO_EIO]++; break;
    case IOF_ENOSPC: S->stats[S_IO_ENOSPC]++; if (a & 1) p.disk_full = 1; break;
    case IOF_SHORT: S->stats[S_IO_SHORT]++; break;
    case IOF_EINTR: S->stats[S_IO_EINTR]++; break;
    case IOF_EMFILE: S->stats[S_IO_EMFILE]++; break;
    default: S->stats[S_IO_SYS]++; break;
  }
  Log("IO FAULT %s op=%d %s", kIoFaultNames[t], op, path ? path : "");
  p.io_faults++;
  return t;
}
static bool IoSim() { return Active() && g_proc > 0; }
static int OpenErr(uint32_t f) { errno = f == IOF_EMFILE ? EMFILE : EIO; return -1; }
// the default trace file of a task would land outside the run's directory
static const char* Contain(const char* p) { return IoSim() && p && !strncmp(p, "/tmp/psi_", 9) ? "/dev/null" : p; }

extern "C" {
static int DoOpen(int dfd, const char* path, int flags, mode_t mode) {
  path = Contain(path);
  if (IoSim() && TrackPath(path)) {
    size_t a;
    g_open_flags = flags;
    uint32_t f = IoPoint(IO_OPEN, path, 0, &a);
    if (f) return OpenErr(f);
    int fd = (int)syscall(SYS_openat, dfd, path, flags, mode);
    int e = errno;
    if (fd >= 0 && fd < 4096) g_tracked[fd] = true;
    if (flags & (O_CREAT | O_TRUNC)) CrashPoint("after-open-write");
    errno = e;
    return fd;
  }
  int fd = (int)syscall(SYS_openat, dfd, path, flags, mode);
  if (fd >= 0 && fd < 4096) g_tracked[fd] = false;
  return fd;
}
EXPORT int open(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, mode_t); va_end(ap); return DoOpen(AT_FDCWD, p, fl, m); }
EXPORT int open64(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, mode_t); va_end(ap); return DoOpen(AT_FDCWD, p, fl, m); }
EXPORT int openat(int d, const char* p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, mode_t); va_end(ap); return DoOpen(d, p, fl, m); }
EXPORT int openat64(int d, const char* p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, mode_t); va_end(ap); return DoOpen(d, p, fl, m); }
EXPORT int creat(const char* p, mode_t m) { return DoOpen(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

EXPORT FILE* fopen(const char* path, const char* mode) {
  Resolve();
  path = Contain(path);
  if (IoSim() && TrackPath(path)) {
    size_t a;
    g_open_flags = mode[0] != 'r' ? O_CREAT : 0;
    uint32_t f = IoPoint(IO_OPEN, path, 0, &a);
    if (f) { OpenErr(f); return nullptr; }
    FILE* r = real_fopen(path, mode);
    int e = errno;
    if (r) { int fd = fileno(r); if (fd >= 0 && fd < 4096) g_tracked[fd] = true; }
    if (mode[0] != 'r') CrashPoint("after-open-write");
    errno = e;
    return r;
  }
  return real_fopen(path, mode);
}
EXPORT FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
EXPORT int fclose(FILE* f) {
  Resolve();
  int fd = f ? fileno(f) : -1;
  if (IoSim() && Tracked(fd)) {
    size_t a;
    uint32_t e = IoPoint(IO_CLOSE, nullptr, 0, &a);
    g_tracked[fd] = false;
    int rc = real_fclose(f);
    if (e) { errno = EIO; return EOF; }
    return rc;
  }
  return real_fclose(f);
}
EXPORT int close(int fd) {
  if (IoSim() && Tracked(fd)) {
    size_t a;
    uint32_t e = IoPoint(IO_CLOSE, nullptr, 0, &a);
    g_tracked[fd] = false;
    int rc = (int)syscall(SYS_close, fd);
    if (e) { errno = EIO; return -1; }
    return rc;
  }
  return (int)syscall(SYS_close, fd);
}
static ssize_t DoWrite(int fd, const struct iovec* iov, int n, off_t off) {
  size_t len = 0;
  for (int i = 0; i < n; ++i) len += iov[i].iov_len;
  auto real = [&](size_t lim) -> ssize_t {
    // gather up to lim bytes
    std::string buf;
    for (int i = 0; i < n && buf.size() < lim; ++i) buf.append(static_cast<char*>(iov[i].iov_base), std::min(iov[i].iov_len, lim - buf.size()));
    if (off >= 0) return syscall(SYS_pwrite64, fd, buf.data(), buf.size(), off);
    return syscall(SYS_write, fd, buf.data(), buf.size());
  };
  size_t a = len;
  uint32_t f = IoPoint(IO_WRITE, nullptr, len, &a);
  ssize_t rc;
  if (f == IOF_EIO) { errno = EIO; return -1; }
  if (f == IOF_ENOSPC) {
    errno = ENOSPC;
    return -1;
  }
  if (f == IOF_EINTR) { errno = EINTR; return -1; }
  if (f == IOF_SHORT && len > 1) rc = real(a);
  else {
    // killed in the middle of the write: only a part of it is in the file
    uint32_t torn = 0;
    if (len > 1) {
      Knobs& k = S->k;
      uint64_t idx = S->count[K_CRASH]++;
      bool ok = k.crash_budget > 0 && (k.crash_node < 0 || k.crash_node == S->procs[g_proc].node) && (k.crash_cls >> 1 & 1);
      torn = Decide(K_CRASH, idx, ok && Coin(k.p_crash) ? 2 + Rnd(1 << 20) : 0);
      if (torn) {
        if (k.crash_budget) k.crash_budget--;
        size_t part = 1 + (torn > 1 ? torn - 2 : 0) % (len - 1);
        real(part);
        S->stats[S_TORN_WRITE]++;
        Log("CRASH in write of %zu bytes after %zu", len, part);
        Mix(part * 31 + len);
        Kill(g_proc);
      }
    }
    rc = real(len);
  }
  int e = errno;
  CrashPointCls("after-write", 1);
  errno = e;
  return rc;
}
EXPORT ssize_t write(int fd, const void* b, size_t n) {
  if (IoSim() && Tracked(fd)) { struct iovec v { const_cast<void*>(b), n }; return DoWrite(fd, &v, 1, -1); }
  return syscall(SYS_write, fd, b, n);
}
EXPORT ssize_t writev(int fd, const struct iovec* v, int n) {
  if (IoSim() && Tracked(fd)) return DoWrite(fd, v, n, -1);
  return syscall(SYS_writev, fd, v, n);
}
EXPORT ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
  if (IoSim() && Tracked(fd)) { struct iovec v { const_cast<void*>(b), n }; return DoWrite(fd, &v, 1, o); }
  return syscall(SYS_pwrite64, fd, b, n, o);
}
EXPORT ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
EXPORT ssize_t read(int fd, void* b, size_t n) {
  if (IoSim() && Tracked(fd)) {
    size_t a = n;
    uint32_t f = IoPoint(IO_READ, nullptr, n, &a);
    if (f == IOF_EIO) { errno = EIO; return -1; }
    if (f == IOF_EINTR) { errno = EINTR; return -1; }
    if (f == IOF_SHORT && n > 1) return syscall(SYS_read, fd, b, a % 64 + 1 < n ? a % 64 + 1 : n);
    return syscall(SYS_read, fd, b, n);
  }
  return syscall(SYS_read, fd, b, n);
}
EXPORT ssize_t pread(int fd, void* b, size_t n, off_t o) {
  if (IoSim() && Tracked(fd)) {
    size_t a = n;
    uint32_t f = IoPoint(IO_READ, nullptr, n, &a);
    if (f == IOF_EIO) { errno = EIO; return -1; }
    if (f == IOF_EINTR) { errno = EINTR; return -1; }
    if (f == IOF_SHORT && n > 1) return syscall(SYS_pread64, fd, b, a % 64 + 1 < n ? a % 64 + 1 : n, o);
  }
  return syscall(SYS_pread64, fd, b, n, o);
}
EXPORT ssize_t pread64(int fd, void* b, size_t n, off_t o) { return pread(fd, b, n, o); }
EXPORT int rename(const char* a, const char* b) {
  if (IoSim() && TrackPath(a)) {
    size_t x;
    if (IoPoint(IO_RENAME, b, 0, &x)) { errno = EIO; return -1; }
    int rc = (int)syscall(SYS_rename, a, b);
    int e = errno;
    CrashPoint("after-rename");
    errno = e;
    return rc;
  }
  return (int)syscall(SYS_rename, a, b);
}
EXPORT int unlink(const char* p) {
  if (IoSim() && TrackPath(p)) {
    size_t x;
    if (IoPoint(IO_UNLINK, p, 0, &x)) { errno = EIO; return -1; }
    int rc = (int)syscall(SYS_unlink, p);
    int e = errno;
    CrashPoint("after-unlink");
    errno = e;
    return rc;
  }
  return (int)syscall(SYS_unlink, p);
}
EXPORT int unlinkat(int d, const char* p, int fl) {
  if (IoSim()) {
    size_t x;
    if (IoPoint(IO_UNLINK, p, 0, &x)) { errno = EIO; return -1; }
  }
  return (int)syscall(SYS_unlinkat, d, p, fl);
}
EXPORT int rmdir(const char* p) {
  if (IoSim() && TrackPath(p)) {
    size_t x;
    if (IoPoint(IO_UNLINK, p, 0, &x)) { errno = EIO; return -1; }
  }
  return (int)syscall(SYS_rmdir, p);
}
EXPORT int remove(const char* p) {
  struct stat st;
  if (lstat(p, &st) != 0) return -1;
  return S_ISDIR(st.st_mode) ? rmdir(p) : unlink(p);
}
EXPORT int mkdir(const char* p, mode_t m) {
  if (IoSim() && TrackPath(p)) {
    size_t x;
    uint32_t f = IoPoint(IO_MKDIR, p, 0, &x);
    if (f) { errno = f == IOF_ENOSPC ? ENOSPC : EIO; return -1; }
    int rc = (int)syscall(SYS_mkdir, p, m);
    int e = errno;
    CrashPoint("after-mkdir");
    errno = e;
    return rc;
  }
  return (int)syscall(SYS_mkdir, p, m);
}
EXPORT int truncate(const char* p, off_t n) {
  if (IoSim() && TrackPath(p)) { size_t x; if (IoPoint(IO_TRUNC, p, n, &x)) { errno = EIO; return -1; } }
  return (int)syscall(SYS_truncate, p, n);
}
EXPORT int ftruncate(int fd, off_t n) {
  if (IoSim() && Tracked(fd)) { size_t x; if (IoPoint(IO_TRUNC, nullptr, n, &x)) { errno = EIO; return -1; } }
  return (int)syscall(SYS_ftruncate, fd, n);
}
EXPORT int fsync(int fd) {
  if (IoSim() && Tracked(fd)) { size_t x; if (IoPoint(IO_SYNC, nullptr, 0, &x)) { errno = EIO; return -1; } return 0; }
  return (int)syscall(SYS_fsync, fd);
}
EXPORT int fdatasync(int fd) { return fsync(fd); }

// A real shell runs the command (sort pipelines), as one atomic event; faults
// make it fail, or make an inner stage die after part of its output.
EXPORT int system(const char* cmd) {
  if (!cmd) return 1;
  uint32_t f = IOF_NONE;
  size_t a = 0;
  bool sim_on = IoSim();
  uint32_t torn = 0;
  if (sim_on) {
    f = IoPoint(IO_SYSTEM, cmd, 1 << 20, &a);
    if (!f) {
      // kill in the middle of the pipeline: decided before running it
      Knobs& k = S->k;
      uint64_t idx = S->count[K_CRASH]++;
      bool ok = k.crash_budget > 0 && (k.crash_node < 0 || k.crash_node == SelfNode());
      torn = Decide(K_CRASH, idx, ok && Coin(k.p_crash * 8) ? 2 + Rnd(1000) : 0);
    }
  }
  std::string c = cmd;
  std::string pre;
  if (f == IOF_SYSPART || f == IOF_SYSFAIL) {
    // a stage of the pipeline dies: it is replaced by one that stops after part
    // of its output with an error status; the rest of the command, including how
    // it judges the pipeline's status, runs as written.
    char b[512];
    const char* stage[3]; int ns = 0;
    for (const char* w : {"sort", "tail", "uniq"})
      if (c.find(std::string(w) + " ") != std::string::npos || c.find(std::string(w) + "\n") != std::string::npos) stage[ns++] = w;
    const char* w = ns ? stage[(a / 256) % ns] : "sort";
    if (f == IOF_SYSPART)
      snprintf(b, sizeof b, "%s() { command %s \"$@\" | head -c %u; return 2; }\n", w, w, (unsigned)(a % 200));
    else
      snprintf(b, sizeof b, "%s() { return 2; }\n", w);
    pre = b;
  }
  // find where the command appends its output, to tear it
  std::string outp;
  long before = -1;
  size_t gt = c.rfind('>');
  if (gt != std::string::npos) {
    size_t i = gt + 1;
    while (i < c.size() && c[i] == ' ') ++i;
    char q = 0;
    if (i < c.size() && (c[i] == '\'' || c[i] == '"')) q = c[i++];
    while (i < c.size() && (q ? c[i] != q : (c[i] != ' ' && c[i] != ';' && c[i] != '&' && c[i] != ')'))) outp += c[i++];
    struct stat st;
    before = stat(outp.c_str(), &st) == 0 ? st.st_size : 0;
  }
  std::string full = pre + c;
  const char* argv[] = {"sh", "-c", full.c_str(), nullptr};
  extern char** environ;
  pid_t pid = -1;
  if (posix_spawn(&pid, "/bin/sh", nullptr, nullptr, const_cast<char* const*>(argv), environ) != 0) return -1;
  int st = 0;
  while (syscall(SYS_wait4, pid, &st, 0, nullptr) < 0 && errno == EINTR) {}
  if (sim_on) {
    if (torn >= 2) {
      struct stat sb;
      if (before >= 0 && stat(outp.c_str(), &sb) == 0 && sb.st_size > before) {
        long keep = before + (long)((double)(sb.st_size - before) * (torn - 2) / 1000.0);
        (void)!syscall(SYS_truncate, outp.c_str(), keep);
        S->stats[S_TORN]++;
      }
      if (S->k.crash_budget) S->k.crash_budget--;
      Log("CRASH in subprocess");
      Kill(g_proc);
    }
    CrashPoint("after-system");
  }
  return st;
}
}  // extern C
