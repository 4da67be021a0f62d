#pragma once
#include "sim.h"
namespace sim {
constexpr int kMaxProbes = 128;
constexpr int kMaxParams = 128;
constexpr int kMaxChans = 4096;
constexpr int kCand = 512;
enum { T_FREE = 0, T_RUNNABLE, T_BLOCKED, T_DEAD };
enum { M_FLIGHT = 0, M_DELIVERED, M_CONSUMED, M_LOST };
struct Thread {
  int go; int state; int proc; int woken;
  uint64_t key, deadline, since; int64_t prio;
  const char* why;
};
struct Msg {
  int src, dst, chan_idx, proc, state, retries;
  uint64_t keyhash, off, size, hash, seq, deliver;
  char key[88];
};
struct Chan { uint64_t id, sent, acked, delivered, max_delivered_seq; };
struct ProcInfoX {
  int pid; int node; int state; int code; int sig; char name[32]; char msg[2048];
  int nthreads; int disk_full; int io_faults;
};
struct NameVal { char name[48]; int64_t v; };
struct NameCnt { char name[48]; uint64_t n; };
struct Shm {
  uint64_t acc, next_pre;   // memory access counter and next preemption
  uint64_t conf;            // conflict-directed preemption is on
  uint64_t seed, rng, now, steps, max_steps, trace, sched, fifo;
  int64_t prio_low;
  int replay, cur, nth, nlive, nprocs, nmsgs, mbase, nflight, nchans, deadlock, finished, verdict, nontrivial;
  int nparams, nrparams;
  uint32_t ndec;
  uint64_t arena_used;
  Knobs k;
  uint64_t stats[S_COUNT];
  uint64_t count[K_KINDS];
  uint32_t cursor[K_KINDS], rbeg[K_KINDS], rend[K_KINDS];
  char tag[128]; char detail[4096]; char sample[2048];
  NameVal params[kMaxParams], rparams[kMaxParams];
  NameCnt probes[kMaxProbes];
  bool part[16][16];
  uint64_t procs_rng[kMaxProcs];
  ProcInfoX procs[kMaxProcs];
  int live[kMaxThreads];
  // big tables: not cleared by memset, fresh after MADV_REMOVE
  Thread th[kMaxThreads];
  Chan chans[kMaxChans];
  int flight[kMaxMsgs];
  Msg msgs[kMaxMsgs];
  Decision dec[kMaxDecisions];
  Decision rdec[kMaxDecisions];
};
extern Shm* S;
void MemSlow();
void MemConflict(int other);
int CurThread();
void RearmKnobs();
bool Block(uint64_t key, uint64_t deadline, const char* why);
// race detector hooks (tsan_rt.cc)
void ResetRace();
void RaceAcquire(const void* obj);
void RaceRelease(const void* obj);
void RaceReleaseRw(const void* obj, bool writer);
void RaceFork(int parent, int child);
void RaceJoin(int self, int child);
void RaceThreadStart(int t);
void RaceThreadEnd(int t);
void RaceFree(void* p, size_t n);
}  // namespace sim
