// Deterministic simulator core: one token, seeded decisions, simulated clock,
// simulated network, fault-injecting disk.  All simulated parties are
// processes of one simulator run; at any instant exactly one thread of all of
// them runs, and which one is a recorded decision.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

extern "C" int sim_alloc_hook_on;  // this process takes part in allocation faults
namespace sim {

constexpr int kMaxThreads = 16384;
constexpr int kMaxProcs = 64;
constexpr int kMaxMsgs = 1 << 16;
constexpr int kMaxDecisions = 1 << 20;
constexpr size_t kArenaBytes = size_t{1} << 30;
constexpr uint64_t kInf = ~uint64_t{0};

enum Kind : uint32_t {
  K_SCHED = 0,  // who runs next at a synchronisation point
  K_MEM,        // preemption at a memory access
  K_DELAY,      // extra network delay of a message (100us units)
  K_IO,         // fault of a file operation
  K_CRASH,      // process killed here
  K_STALL,      // thread stalled for v ms
  K_SPUR,       // spurious wake-up
  K_NOTIFY,     // which waiter a notify_one wakes
  K_ALLOC,      // failing allocation
  K_USER,       // scenario-level
  K_KINDS
};
extern const char* kKindNames[K_KINDS];

enum IoOp : uint32_t {
  IO_OPEN = 1, IO_READ, IO_WRITE, IO_CLOSE, IO_RENAME, IO_UNLINK, IO_MKDIR,
  IO_TRUNC, IO_SYNC, IO_SYSTEM, IO_SEEK
};
enum IoFaultType : uint32_t {
  IOF_NONE = 0, IOF_EIO, IOF_ENOSPC, IOF_SHORT, IOF_EINTR, IOF_EMFILE,
  IOF_SYSFAIL, IOF_SYSPART, IOF_TYPES
};
extern const char* kIoFaultNames[IOF_TYPES];

// Faults counted when they really fired.
enum Stat : uint32_t {
  S_SWITCH = 0, S_PREEMPT_SYNC, S_PREEMPT_MEM, S_MSG, S_MSG_DELAYED,
  S_MSG_DROP_RETRY, S_MSG_LOST, S_MSG_PARTITIONED, S_MSG_REORDERED, S_RECV_TIMEOUT, S_THROTTLE_BLOCK,
  S_STALL, S_SPURIOUS, S_IO_OPS, S_IO_EIO, S_IO_ENOSPC, S_IO_SHORT, S_IO_EINTR,
  S_IO_EMFILE, S_IO_SYS, S_CRASH_SELF, S_CRASH_EXT, S_RESTART, S_CLOCK_JUMP,
  S_ALLOC_FAIL, S_THREADS, S_ACCESSES, S_TORN, S_TORN_WRITE, S_COUNT
};
extern const char* kStatNames[S_COUNT];

struct Knobs {
  double p_sched = 0;        // probability of a non-default choice at sync points
  uint64_t mem_mean = 0;     // mean accesses between memory preemptions (0 = off)
  double p_conf = 0;         // probability to preempt at a conflicting access
  double p_delay = 0;        // probability a message gets an extra delay
  uint32_t delay_max = 0;    // max extra delay, 100us units
  double p_drop = 0;         // dropped by the wire, retransmitted later
  double p_stall = 0;        // probability (per sync point) to stall the thread
  uint32_t stall_max_ms = 0;
  double p_spur = 0;
  double p_io = 0;           // probability of an I/O fault per op
  uint32_t io_mask = 0;      // allowed IoFaultType bits
  uint32_t io_budget = 0;    // faults left
  int io_node = -1;          // only this node (-1 any)
  double p_crash = 0;        // crash per crash point
  uint32_t crash_budget = 0;
  int crash_node = -1;       // only this node (-1 any)
  uint32_t crash_cls = 7;    // classes of crash points that may kill
  double p_alloc = 0;
  uint32_t alloc_budget = 0;
  int alloc_node = -1;       // only this node (-1 any)
  uint32_t alloc_min = 64;   // allocations of at least so many bytes
  bool alloc_mem = true, alloc_thr = true;  // memory; creation of threads
  int pct = 0;               // priority based scheduling
  uint32_t net_base = 5;     // base latency 100us units
  uint32_t ncpu = 4;         // hardware_concurrency seen by the code
  uint32_t throttle = 10;    // link throttle window
  uint64_t recv_timeout_ms = 600000;
  int64_t clock_skew_ns[8] = {};
  uint32_t par_threads = 2;  // yacl::parallel_for fan-out
  uint32_t io_buf = 0;       // buffer of output streams (0 = default)
  uint32_t io_chunk = 0;     // csv reader block size (0 = default)
};

struct Decision { uint32_t kind; uint32_t value; uint64_t index; };

struct ProcInfo {
  int pid; int node; int state;  // 0 free 1 running 2 exited 3 killed 4 crashed
  int code; int sig; char name[32]; char msg[2048];
};
enum { P_FREE = 0, P_RUNNING, P_EXITED, P_KILLED, P_CRASHED };

// ---- in-simulation API -------------------------------------------------
bool Active();                 // called on a simulated thread
int Self();
int SelfProc();
int SelfNode();
uint64_t NowNs();
// Harness bookkeeping that must look atomic to the simulated threads.
struct NoPreempt { NoPreempt(); ~NoPreempt(); };
Knobs& K();
void Yield(const char* why = "");
void SleepNs(uint64_t ns);
void Stat_(Stat s, uint64_t n = 1);
uint64_t StatGet(Stat s);
void Probe(const char* name);  // "rare condition was reached"
void Mix(uint64_t v);          // mix into the trace hash
void Log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool Verbose();
uint64_t AppRand();            // randomness the code under test consumes
uint64_t FaultRand();          // only for building values inside decisions
uint32_t DecideUser(uint32_t n, double p);  // 0 default
void CrashPoint(const char* where);
void CrashPointCls(const char* where, uint32_t cls);  // 0 message, 1 data I/O, 2 metadata I/O
// fine-grained reach measure
uint64_t TraceHash();
uint64_t SchedHash();

// ---- network (used by the link shim) ------------------------------------
// Address = (node, key).  Node incarnations share the mailbox; keys carry the
// attempt id.
void NetSend(int dst_node, uint64_t chan, const std::string& key, const void* p,
             size_t n);
// returns false on timeout
bool NetRecv(int src_node, uint64_t chan, const std::string& key,
             std::string* out, uint64_t timeout_ms);
// throttled: block until fewer than `window` messages of the channel with
// sequence <= seq are unacknowledged. returns false on timeout
uint64_t NetChanSent(uint64_t chan);
bool NetThrottle(uint64_t chan, uint64_t seq, uint32_t window,
                 uint64_t timeout_ms);
bool NetWaitDelivered(int dst_node, uint64_t chan, uint64_t seq, uint64_t timeout_ms);
struct MsgInfo { int src, dst; uint64_t chan; uint64_t size; std::string key; uint64_t hash; int proc; };
std::vector<MsgInfo> NetHistory();       // all messages of the run
std::string NetPayload(size_t idx);
void NetPartition(int a, int b, bool on);  // -1 = any
void NetHealAll();

// ---- coordinator API ------------------------------------------------------
int Spawn(int node, const char* name, const std::function<int()>& fn);
const ProcInfo& Proc(int p);
void Kill(int p);                       // SIGKILL
// waits until every listed process has ended; false: deadlock or timeout
bool WaitProcs(const std::vector<int>& ps, uint64_t timeout_ns);
bool Deadlocked();
std::string ThreadDump();
[[noreturn]] void ExitNow(int code);     // _exit of the calling party
void SetProcMsg(const std::string& m);  // from inside a party

uint64_t Hash64(const void* p, size_t n, uint64_t h = 1469598103934665603ull);

// ---- run driver (main.cc) -------------------------------------------------
struct RunSpec {
  std::string scenario;
  uint64_t seed = 1;
  bool replay = false;
  bool verbose = false;
  std::vector<std::pair<std::string, int64_t>> params;  // overrides
  std::vector<Decision> decisions;
};
enum Verdict { V_OK = 0, V_VIOLATION, V_INCONCLUSIVE, V_HARNESS };
struct RunResult {
  int verdict = V_HARNESS;
  std::string tag, detail;
  uint64_t trace_hash = 0, sched_hash = 0, sim_ns = 0, steps = 0, sig_hash = 0;
  std::vector<Decision> decisions;
  std::vector<std::pair<std::string, int64_t>> params;
  std::vector<std::pair<std::string, uint64_t>> probes;
  uint64_t stats[S_COUNT] = {};
  double wall = 0;
  bool nontrivial = false;
  std::string sample;
};
// Parameters of the workload: drawn from hash(seed,name), recorded, overridable
int64_t Param(const char* name, int64_t lo, int64_t hi);
bool ParamP(const char* name, double p);
// scenario verdicts (first one sticks)
void Violation(const std::string& tag, const std::string& detail);
void Inconclusive(const std::string& why);
void MarkNontrivial();
void SetSample(const std::string& s);
bool HasVerdict();

using ScenarioFn = void (*)();
struct Scenario {
  const char* name; ScenarioFn fn;
  Scenario(const char* n, ScenarioFn f);
};
RunResult RunOnce(const RunSpec& spec, double wall_limit_s);
void WorkerInit();
void WorkerCleanup();
const char* ScratchDir();

}  // namespace sim
