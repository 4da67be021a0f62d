// Two-party balanced PSI under faults: C06/C07 (kill and resume), C08
// (incompatible settings), C09 (what the unentitled party sees), C10 (peer and
// network failures), C11 (storage faults), C20 (leftovers), C21 (several tasks
// in one process).
#include <unistd.h>

#include <thread>

#include "harness/faults.h"
#include "psi/apps/psi_launcher/launch.h"
#include "spdlog/spdlog.h"

using namespace hx;
using std::string;
namespace hx {
const char* Tag(const string& x) { return x.find("aligned") != string::npos ? "not-aligned" : "wrong-result"; }
bool StatFail(const Outcome& o) { return o.err.find("stash") != string::npos || o.err.find("Failed to insert element") != string::npos; }
bool TimeoutErr(const Outcome& o) {
  return !o.ok && (o.err.find("imeout") != string::npos || o.err.find("connect to mesh failed") != string::npos || o.err.find("timed out") != string::npos);
}
bool Wait(const std::vector<int>& ps, uint64_t bound, const char* what) {
  if (sim::WaitProcs(ps, bound)) return true;
  if (!sim::HasVerdict()) sim::Violation(sim::Deadlocked() ? "deadlock" : "no-progress", string(what) + ": " + sim::ThreadDump());
  return false;
}

NetPlan DrawNetPlan() {
  NetPlan p{};
  p.kind = Param("fault", 0, 6);
  p.victim = Param("victim", 0, 1);
  p.at_ns = 200000ull << Param("at", 0, 17);  // 0.2 ms .. 26 s
  p.len_ns = (1ull << Param("len", 0, 4)) * kSec / 4;
  auto& k = sim::K();
  static const double pr[] = {0.1, 0.03, 0.01, 0.003};
  if (p.kind == 0) { k.crash_node = p.victim; k.crash_budget = 1; k.p_crash = pr[Param("density", 0, 3)]; k.crash_cls = CrashCls("crash_cls"); }
  if (p.kind == 5) { k.p_stall = 0.01; k.stall_max_ms = 60000; }
  p.must_finish = p.kind == 4;
  return p;
}
const char* PlanName(int k) {
  static const char* n[] = {"peer killed at a crash point", "peer killed at an instant", "link cut", "link cut one way", "link cut and healed", "slow threads", "peer never starts"};
  return n[k];
}
void RunNetPlan(const NetPlan& p, const std::vector<int>& ps) {
  if (p.kind == 0 || p.kind >= 5) return;
  if (sim::WaitProcs(ps, p.at_ns)) return;
  if (sim::Deadlocked()) return;
  switch (p.kind) {
    case 1: sim::Kill(ps[p.victim]); sim::Probe("peer_killed"); break;
    case 2: sim::NetPartition(-1, -1, true); sim::Probe("partitioned"); break;
    case 3: sim::NetPartition(p.victim, 1 - p.victim, true); sim::Probe("partitioned_one_way"); break;
    case 4:
      sim::NetPartition(-1, -1, true);
      sim::WaitProcs(ps, p.len_ns);
      sim::NetHealAll();
      sim::Probe("partition_healed");
      break;
  }
}
void IoKnobs() {
  auto& k = sim::K();
  static const double pi[] = {0.2, 0.05, 0.02, 0.005, 0.001};
  k.p_io = pi[Param("io_density", 0, 4)];
  k.io_budget = Param("io_budget", 1, 4);
  k.io_node = Param("io_node", 0, 2) - 1;
  int m = Param("io_kinds", 0, 4);
  static const uint32_t masks[] = {0xffffffff, 1u << sim::IOF_ENOSPC, (1u << sim::IOF_SHORT) | (1u << sim::IOF_EINTR), 1u << sim::IOF_EIO, (1u << sim::IOF_SYSFAIL) | (1u << sim::IOF_SYSPART)};
  k.io_mask = masks[m];
}
void AllocKnobs() {
  auto& k = sim::K();
  static const double pa[] = {0.1, 0.01, 0.003, 0.001, 0.0003};
  k.p_alloc = pa[Param("alloc_density", 0, 4)];
  k.alloc_budget = Param("alloc_budget", 1, 4);
  k.alloc_node = Param("alloc_node", 0, 2) - 1;
  static const uint32_t mn[] = {32, 64, 200, 1000};
  k.alloc_min = mn[Param("alloc_min", 0, 3)];
  int m = Param("alloc_kinds", 0, 4);
  k.alloc_mem = m != 4;
  k.alloc_thr = m >= 3;
}
string Leftovers(const Party& p, bool recovery) {
  for (auto& f : ListTree(p.dir)) {
    if (f == "tmp/" || f == "in/" || f == "out/" || f == "cwd/" || f == "in/input.csv" || f == "out/output.csv" || f == "report.json" || f == "psi.trace" || f == "count.csv") continue;
    if (recovery && f.compare(0, 4, "rec/") == 0) continue;
    return f;
  }
  return "";
}
}  // namespace hx
namespace {
// a party that says it succeeded must be right, whatever its peer did
bool JudgeEach(const World2& w, const Outcome o[2], const char* what) {
  for (int r = 0; r < 2; ++r) {
    if (o[r].state == sim::P_CRASHED) { sim::Violation("crash", string(what) + ": party " + std::to_string(r) + " " + o[r].err); return false; }
    if (!o[r].ok) continue;
    if (w.threshold) {
      string x = r ? "" : JudgeSuccess(w, o);
      if (!x.empty()) { sim::Violation(Tag(x), string(what) + ": " + x); return false; }
      continue;
    }
    const Party &me = w.p[r], &peer = w.p[1 - r];
    bool ent = w.Entitled(r);
    string x = CheckCounts(o[r], me.tab, peer.tab, ent);
    if (x.empty()) x = ent ? CheckOutput(me, peer.tab, w.For(r)) : CheckNoOutput(me);
    if (!x.empty()) { sim::Violation("wrong-result", string(what) + ": rank " + std::to_string(r) + ": " + x); return false; }
  }
  if (o[0].ok && o[1].ok) {
    string x = JudgeSuccess(w, o);
    if (!x.empty()) { sim::Violation(Tag(x), string(what) + ": " + x); return false; }
  }
  return true;
}
void ClearOut(World2& w) {
  for (auto& p : w.p) RemoveFile(p.out), RemoveFile(p.rep), RemoveFile(p.dir + "/count.csv");
}
// ---------------------------------------------------------------- C06, C07
void Resume(int protocol) {
  SetupSchedule();
  SetupNet();
  World2 w;
  Opt2 o;
  o.maxrows = 40;
  o.recovery = true;
  o.threshold = true;
  if (protocol == 1) o.curve_cls = Param("curve", 0, 7);
  BuildPsi2(&w, protocol, o);
  sim::MarkNontrivial();
  sim::SetSample(Describe(w));
  LinkOpt lo;
  lo.recv_timeout_ms = 20000;
  lo.connect_retry_times = 5;
  int attempts = Param("attempts", 1, 3);
  static const double pr[] = {0.2, 0.05, 0.02, 0.007, 0.003};
  for (int a = 0; a < attempts; ++a) {
    string s = std::to_string(a);
    int who = Param(("who" + s).c_str(), 0, 2);  // 2: either or both
    auto& k = sim::K();
    k.crash_node = who == 2 ? -1 : who;
    k.crash_budget = who == 2 ? 2 : 1;
    k.p_crash = pr[Param(("density" + s).c_str(), 0, 4)];
    k.crash_cls = CrashCls("crash_cls" + s);
    std::vector<int> ps;
    for (int r = 0; r < 2; ++r) ps.push_back(SpawnPsi(w.p[r], "task" + s, lo));
    // the operator may kill the survivor too, or let it run into its timeouts
    if (Param(("reap" + s).c_str(), 0, 1)) {
      for (int i = 0; i < 4000; ++i) {
        if (sim::WaitProcs(ps, kSec / 4)) break;
        bool dead = false;
        for (int p : ps) dead = dead || sim::Proc(p).state == sim::P_KILLED;
        if (dead) { for (int p : ps) if (sim::Proc(p).state == sim::P_RUNNING) sim::Kill(p); break; }
      }
    }
    if (!Wait(ps, 20000 * kSec, "interrupted attempt")) return;
    k.crash_budget = 0;
    k.p_crash = 0;
    Outcome out[2] = {GetOutcome(w.p[0], ps[0]), GetOutcome(w.p[1], ps[1])};
    bool killed = false;
    for (int r = 0; r < 2; ++r) killed = killed || out[r].state == sim::P_KILLED;
    if (killed) sim::Probe("killed_then_restarted");
    for (int r = 0; r < 2; ++r) if (StatFail(out[r])) { sim::Inconclusive("cuckoo insertion failed"); return; }
    if (!JudgeEach(w, out, "interrupted attempt")) return;
    if (!killed) {
      if (!out[0].ok || !out[1].ok) {
        // the interrupted attempts run with short timeouts: running into them is a failure like any other
        if (TimeoutErr(out[0]) || TimeoutErr(out[1])) { sim::Probe("timed_out_then_restarted"); ClearOut(w); continue; }
        sim::Violation("resume-refused", "attempt " + s + ": " + out[0].err + " | " + out[1].err);
        return;
      }
      if (a) sim::Probe("resumed_and_right");
      if (!Param("again", 0, 3)) { if (a + 1 == attempts) return; } else return;
      sim::Probe("restarted_after_success");
    }
    ClearOut(w);
  }
  std::vector<int> ps;
  for (int r = 0; r < 2; ++r) ps.push_back(SpawnPsi(w.p[r], "last"));
  if (!Wait(ps, 40000 * kSec, "resumed run")) return;
  Outcome out[2] = {GetOutcome(w.p[0], ps[0]), GetOutcome(w.p[1], ps[1])};
  for (int r = 0; r < 2; ++r) if (StatFail(out[r])) { sim::Inconclusive("cuckoo insertion failed"); return; }
  for (int r = 0; r < 2; ++r) if (out[r].state == sim::P_CRASHED) { sim::Violation("crash", "resumed run: " + out[r].err); return; }
  if (!out[0].ok || !out[1].ok) { sim::Violation("resume-refused", "resumed run: " + out[0].err + " | " + out[1].err); return; }
  string x = JudgeSuccess(w, out);
  if (!x.empty()) { sim::Violation(Tag(x), "resumed run: " + x); return; }
  sim::Probe("resumed_and_right");
}

// --------------------------------------------------------------------- C08
void Config() {
  SetupSchedule();
  SetupNet();
  World2 w;
  Opt2 o;
  o.maxrows = 15;
  o.joins = Param("joins", 0, 1);
  int protocol = Param("protocol", 1, 3);
  o.curve_cls = protocol == 1 ? Param("curve", 0, 7) : -1;
  o.recovery = Param("recovery", 0, 3) == 0;
  BuildPsi2(&w, protocol, o);
  sim::MarkNontrivial();
  bool compatible = Param("compatible", 0, 3) == 0;
  string what;
  int side = Param("side", 0, 1);
  auto& c = w.p[side].cfg;
  auto* pc = c.mutable_protocol_config();
  if (compatible) {
    // settings of one's own: may differ
    what = "only private settings differ";
    c.set_disable_alignment(!c.disable_alignment());
    c.mutable_debug_options()->set_logging_level("info");
    c.set_count_path(w.p[side].dir + "/count");
  } else {
    int n = Param("nmut", 1, 2);
    for (int i = 0; i < n; ++i) {
      string s = std::to_string(i);
      switch (Param(("mut" + s).c_str(), 0, 9)) {
        case 0: what += "protocol "; pc->set_protocol((psi::v2::Protocol)(protocol % 3 + 1)); if (pc->protocol() == 1) pc->mutable_ecdh_config()->set_curve(psi::CURVE_25519); break;
        case 1: what += "role "; pc->set_role(pc->role() == psi::v2::ROLE_SENDER ? psi::v2::ROLE_RECEIVER : psi::v2::ROLE_SENDER); break;
        case 2: what += "broadcast "; pc->set_broadcast_result(!pc->broadcast_result()); break;
        case 3: what += "join "; c.set_advanced_join_type((psi::v2::PsiConfig::AdvancedJoinType)(w.e.type % 5 + 1)); c.set_left_side(psi::v2::ROLE_RECEIVER); break;
        case 4:
          what += "left ";
          c.set_left_side(c.left_side() == psi::v2::ROLE_RECEIVER ? psi::v2::ROLE_SENDER : psi::v2::ROLE_RECEIVER);
          if (w.p[1 - side].cfg.left_side() == psi::v2::ROLE_UNSPECIFIED) w.p[1 - side].cfg.set_left_side(c.left_side() == psi::v2::ROLE_RECEIVER ? psi::v2::ROLE_SENDER : psi::v2::ROLE_RECEIVER);
          break;
        case 5: what += "digest "; c.set_check_hash_digest(!c.check_hash_digest()); break;
        case 6: what += "recovery "; c.mutable_recovery_config()->set_enabled(!c.recovery_config().enabled()); c.mutable_recovery_config()->set_folder(w.p[side].rec); break;
        case 7:
          what += "protocol-parameter ";
          if (pc->protocol() == 1) pc->mutable_ecdh_config()->set_curve(pc->ecdh_config().curve() == psi::CURVE_FOURQ ? psi::CURVE_25519 : psi::CURVE_FOURQ);
          else if (pc->protocol() == 2) pc->mutable_kkrt_config()->set_bucket_size(pc->kkrt_config().bucket_size() + 7);
          else pc->mutable_rr22_config()->set_bucket_size(pc->rr22_config().bucket_size() + 7);
          break;
        case 8:
          what += "low-comm/batch ";
          if (pc->protocol() == 3) pc->mutable_rr22_config()->set_low_comm_mode(!pc->rr22_config().low_comm_mode());
          else if (pc->protocol() == 1) pc->mutable_ecdh_config()->set_batch_size(pc->ecdh_config().batch_size() + 3);
          else pc->mutable_kkrt_config()->set_bucket_size(pc->kkrt_config().bucket_size() + 1);
          break;
        default: what += "threshold "; c.set_intersection_threshold(c.intersection_threshold() + 3); break;
      }
    }
    // two changes may cancel out
    auto norm = [](psi::v2::PsiConfig x) {
      x.clear_input_config(); x.clear_output_config(); x.clear_keys(); x.clear_debug_options(); x.clear_disable_alignment(); x.clear_input_attr();
      x.clear_count_path(); x.mutable_recovery_config()->clear_folder(); x.mutable_protocol_config()->set_role(psi::v2::ROLE_UNSPECIFIED);
      return x.DebugString();
    };
    auto &r0 = w.p[0].cfg, &r1 = w.p[1].cfg;
    if (norm(r0) == norm(r1) && r0.protocol_config().role() != r1.protocol_config().role()) { sim::Inconclusive("changes cancelled out"); return; }
    // what a recovering party turns on by itself
    if ((what == "digest ") && (r0.recovery_config().enabled() || r1.recovery_config().enabled())) { sim::Inconclusive("recovery implies the digest check"); return; }
  }
  sim::SetSample(Describe(w) + "; differs in: " + what);
  LinkOpt lo;
  lo.recv_timeout_ms = 30000;
  std::vector<int> ps;
  for (int r = 0; r < 2; ++r) ps.push_back(SpawnPsi(w.p[r], "task", compatible ? LinkOpt() : lo));
  if (compatible) {
    if (!ExpectAllExit(ps, 4000 * kSec, "settings agree")) return;
    Outcome out[2] = {GetOutcome(w.p[0], ps[0]), GetOutcome(w.p[1], ps[1])};
    string x;
    for (int r = 0; r < 2 && x.empty(); ++r)
      x = !w.Entitled(r) ? CheckNoOutput(w.p[r]) : CheckOutput(w.p[r], w.p[1 - r].tab, w.For(r));
    if (!x.empty()) sim::Violation("wrong-result", x);
    sim::Probe("agreeing_settings_ran");
    return;
  }
  if (!Wait(ps, 20000 * kSec, ("settings differ in " + what).c_str())) return;
  for (int r = 0; r < 2; ++r) {
    Outcome out = GetOutcome(w.p[r], ps[r]);
    if (out.state == sim::P_CRASHED) { sim::Violation("crash", what + ": " + out.err); return; }
    if (out.ok) { sim::Violation("accepted", "settings differ in " + what + "but rank " + std::to_string(r) + " reports success"); return; }
    string x = CheckNoOutput(w.p[r]);
    if (!x.empty()) { sim::Violation("accepted", "settings differ in " + what + "but rank " + std::to_string(r) + ": " + x); return; }
  }
  sim::Probe("mismatch_refused");
}

// --------------------------------------------------------------------- C09
// SyncWait's polls: their number depends on elapsed time only
bool Heartbeat(size_t m, uint64_t size) {
  if (size != 10 && size != 12) return false;
  string p = sim::NetPayload(m);
  return p == "p_finished" || p == "p_unfinished";
}
void Blind() {
  SetupSchedule(false);
  SetupNet();
  World2 w[2];
  Opt2 o;
  o.maxrows = 40;
  o.broadcast = 0;
  int protocol = Param("protocol", 1, 3);
  o.curve_cls = protocol == 1 ? Param("curve", 0, 7) : -1;
  o.dup = true;
  for (auto& x : w) BuildPsi2(&x, protocol, o);
  sim::MarkNontrivial();
  int recv = w[0].recv_rank, blind = 1 - recv;
  // Second world: the entitled party's keys are renamed so that the overlap
  // changes, while the shape of its table (rows, duplicates, order) stays.
  Gen g(Param("rename", 1, 1 << 30));
  Party &e0 = w[0].p[recv], &e1 = w[1].p[recv];
  auto bucketed = [&](World2& x) {
    if (protocol == 1) return;
    for (auto& p : x.p) {
      // one bucket: how keys fall into buckets is not a matter of the intersection
      if (protocol == 2) p.cfg.mutable_protocol_config()->mutable_kkrt_config()->set_bucket_size(1000);
      else p.cfg.mutable_protocol_config()->mutable_rr22_config()->set_bucket_size(1000);
    }
  };
  bucketed(w[0]);
  bucketed(w[1]);
  // distinct keys of the entitled party in sorted order, and of the other
  std::vector<int> kc;
  for (auto& k : e1.tab.keys) kc.push_back(std::find(e1.tab.cols.begin(), e1.tab.cols.end(), k) - e1.tab.cols.begin());
  std::map<string, string> ren;
  int mode = Param("overlap_mode", 0, 2);
  std::set<string> used;
  for (auto& row : e1.tab.rows) used.insert(row[kc[0]]);
  auto fresh = [&](const string& s) {
    // same length, not a value of either table: the last character changes
    string t = s;
    for (int tries = 0; tries < 60; ++tries) {
      t = s;
      t[t.size() - 1 - g.Below(t.size())] = "0123456789"[g.Below(10)];
      if (!used.count(t)) break;
    }
    if (used.count(t)) return s;
    used.insert(t);
    return t;
  };
  for (auto& row : e1.tab.rows) {
    string& v = row[kc[0]];
    if (!ren.count(v)) ren[v] = mode == 0 || g.P(mode == 1 ? 0.5 : 0.9) ? fresh(v) : v;
    v = ren[v];
  }
  // keep the duplicate structure: renaming is injective per distinct value
  auto ca = ExpectedCounts(e0.tab, w[0].p[blind].tab), cb = ExpectedCounts(e1.tab, w[1].p[blind].tab);
  if (ca.keys != cb.keys) { sim::Inconclusive("renaming merged keys"); return; }
  // With the digest check on, equal key sets end the protocol early by design.
  for (auto& x : w)
    if (x.p[0].cfg.check_hash_digest()) {
      auto c = ExpectedCounts(x.p[0].tab, x.p[1].tab), d = ExpectedCounts(x.p[1].tab, x.p[0].tab);
      if (c.inter_keys == c.keys && d.inter_keys == d.keys) { sim::Inconclusive("equal key sets under the digest check"); return; }
    }
  PlaceParty(&w[0].p[0], 0, "/a"); PlaceParty(&w[0].p[1], 1, "/a");
  PlaceParty(&w[1].p[0], 0, "/b"); PlaceParty(&w[1].p[1], 1, "/b");
  char b[200];
  snprintf(b, sizeof b, "; intersections of %ld and %ld keys compared", (long)ca.inter_keys, (long)cb.inter_keys);
  sim::SetSample(Describe(w[0]) + b);
  if (ca.inter_keys != cb.inter_keys) sim::Probe("different_intersection_sizes");
  std::map<string, std::vector<uint64_t>> seen[2];
  size_t from = 0;
  for (int i = 0; i < 2; ++i) {
    std::vector<int> ps;
    for (int r = 0; r < 2; ++r) ps.push_back(SpawnPsi(w[i].p[r], "task"));
    if (!ExpectAllExit(ps, 4000 * kSec, "psi")) return;
    Outcome out[2] = {GetOutcome(w[i].p[0], ps[0]), GetOutcome(w[i].p[1], ps[1])};
    string x = JudgeSuccess(w[i], out);
    if (!x.empty()) { sim::Violation("wrong-result", x); return; }
    if (out[blind].intersection_count != -1) { sim::Violation("count-revealed", "the unentitled party reports " + std::to_string(out[blind].intersection_count)); return; }
    auto h = sim::NetHistory();
    for (size_t m = from; m < h.size(); ++m)
      if (h[m].dst == blind && h[m].src == recv && !Heartbeat(m, h[m].size)) seen[i][h[m].key].push_back(h[m].size);
    from = h.size();
  }
  // per channel key: same sizes
  string diff;
  std::vector<uint64_t> tot[2];
  for (int i = 0; i < 2; ++i) for (auto& k : seen[i]) for (auto s : k.second) tot[i].push_back(s);
  for (auto& t : tot) std::sort(t.begin(), t.end());
  if (tot[0] != tot[1]) {
    snprintf(b, sizeof b, "%zu messages against %zu", tot[0].size(), tot[1].size());
    diff = b;
    for (auto& k : seen[0]) if (seen[1][k.first] != k.second) { diff += ", e.g. " + k.first + " " + (k.second.empty() ? "-" : std::to_string(k.second[0])) + " vs " + (seen[1][k.first].empty() ? "-" : std::to_string(seen[1][k.first][0])); break; }
    sim::Violation("traffic-depends-on-intersection", diff);
    return;
  }
  sim::Probe("traffic_compared");
}

// --------------------------------------------------------------------- C10
void NetFault() {
  SetupSchedule();
  SetupNet(false);
  // messages may take longer than computation
  static const uint32_t nb[] = {5, 5, 200, 2000};
  sim::K().net_base = nb[Param("k_netbase", 0, 3)];
  World2 w;
  Opt2 o;
  o.maxrows = 25;
  o.threshold = true;
  o.joins = Param("joins", 0, 1);
  int protocol = Param("protocol", 1, 3);
  o.curve_cls = protocol == 1 ? Param("curve", 0, 7) : -1;
  o.recovery = Param("recovery", 0, 3) == 0;
  BuildPsi2(&w, protocol, o);
  sim::MarkNontrivial();
  NetPlan plan = DrawNetPlan();
  sim::SetSample(Describe(w) + "; " + PlanName(plan.kind));
  LinkOpt lo;
  lo.recv_timeout_ms = 20000;
  lo.connect_retry_times = 10;
  std::vector<int> ps;
  for (int r = 0; r < 2; ++r) {
    if (plan.kind == 6 && r == plan.victim) continue;
    ps.push_back(SpawnPsi(w.p[r], "task", lo));
  }
  RunNetPlan(plan, ps);
  // bounded multiple of the timeouts (plus what stalls add)
  if (!Wait(ps, (plan.kind == 5 ? 90000 : 20000) * kSec, PlanName(plan.kind))) return;
  Outcome out[2];
  size_t i = 0;
  for (int r = 0; r < 2; ++r)
    if (!(plan.kind == 6 && r == plan.victim)) { out[r] = GetOutcome(w.p[r], ps[i++]); }
  for (int r = 0; r < 2; ++r) if (StatFail(out[r])) { sim::Inconclusive("cuckoo insertion failed"); return; }
  if (!JudgeEach(w, out, PlanName(plan.kind))) return;
  if (plan.must_finish && !(out[0].ok && out[1].ok)) { sim::Violation("healed-but-failed", string(PlanName(plan.kind)) + ": " + out[0].err + " | " + out[1].err); return; }
  if (plan.kind == 6 && out[1 - plan.victim].ok) { sim::Violation("wrong-result", "success without a peer"); return; }
  for (int r = 0; r < 2; ++r) {
    if (out[r].ok) sim::Probe("survivor_right");
    else if (out[r].started && out[r].state == sim::P_EXITED) sim::Probe("survivor_error");
  }
}

// --------------------------------------------------------------------- C11
void Faulty(bool mem) {
  SetupSchedule(false);
  SetupNet(false);
  static const uint32_t chunk[] = {0, 0, 64, 300};
  sim::K().io_chunk = chunk[Param("k_chunk", 0, 3)];
  World2 w;
  Opt2 o;
  o.maxrows = 40;
  o.threshold = true;
  o.joins = Param("joins", 0, 1);
  int protocol = Param("protocol", 1, 3);
  o.curve_cls = protocol == 1 ? Param("curve", 0, 7) : -1;
  o.recovery = Param("recovery", 0, 3) == 0;
  BuildPsi2(&w, protocol, o);
  sim::MarkNontrivial();
  if (mem) AllocKnobs(); else IoKnobs();
  const char* what = mem ? "failing allocations" : "storage faults";
  sim::SetSample(Describe(w));
  LinkOpt lo;
  lo.recv_timeout_ms = 20000;
  lo.connect_retry_times = 10;
  std::vector<int> ps;
  for (int r = 0; r < 2; ++r) ps.push_back(SpawnPsi(w.p[r], "task", lo));
  if (!Wait(ps, 20000 * kSec, what)) return;
  Outcome out[2] = {GetOutcome(w.p[0], ps[0]), GetOutcome(w.p[1], ps[1])};
  for (int r = 0; r < 2; ++r) {
    if (StatFail(out[r])) { sim::Inconclusive("cuckoo insertion failed"); return; }
    if (out[r].state == sim::P_CRASHED && DiedWithMessage(ps[r])) out[r].state = sim::P_EXITED, sim::Probe("aborted_with_message");
  }
  if (!JudgeEach(w, out, what)) return;
  for (int r = 0; r < 2; ++r) sim::Probe(out[r].ok ? "party_right" : "party_error");
}

// --------------------------------------------------------------------- C20
void Leave() {
  SetupSchedule(false);
  SetupNet(false);
  World2 w;
  Opt2 o;
  o.maxrows = 25;
  o.threshold = true;
  o.joins = Param("joins", 0, 1);
  o.unique_attr = Param("unique_attr", 0, 1);
  int protocol = Param("protocol", 1, 3);
  o.curve_cls = protocol == 1 ? Param("curve", 0, 7) : -1;
  o.recovery = Param("recovery", 0, 3) == 0;
  BuildPsi2(&w, protocol, o);
  sim::MarkNontrivial();
  int f = Param("failure", 0, 5);
  static const char* fn[] = {"no failure", "full disk", "missing key column", "link cut", "empty input", "settings differ"};
  LinkOpt lo;
  lo.recv_timeout_ms = 20000;
  lo.connect_retry_times = 10;
  int side = Param("side", 0, 1);
  NetPlan plan{};
  if (f == 1) {
    auto& k = sim::K();
    static const double pi[] = {0.2, 0.05, 0.02, 0.005};
    k.p_io = pi[Param("io_density", 0, 3)];
    k.io_budget = 1;
    k.io_node = side;
    k.io_mask = 1u << sim::IOF_ENOSPC;
  } else if (f == 2) {
    w.p[side].cfg.set_keys(0, "no_such_column");
  } else if (f == 3) {
    plan.kind = Param("cut", 2, 3);
    plan.victim = side;
    plan.at_ns = 200000ull << Param("at", 0, 12);
  } else if (f == 4) {
    w.p[side].tab.rows.clear();
    WriteFile(w.p[side].in, Param("no_bytes", 0, 1) ? string() : w.p[side].tab.Csv());
  } else if (f == 5) {
    w.p[side].cfg.set_check_hash_digest(!w.p[side].cfg.check_hash_digest());
  }
  sim::SetSample(Describe(w) + "; " + fn[f]);
  string in[2] = {ReadFile(w.p[0].in), ReadFile(w.p[1].in)};
  std::vector<int> ps;
  for (int r = 0; r < 2; ++r) ps.push_back(SpawnPsi(w.p[r], "task", lo));
  if (f == 3) RunNetPlan(plan, ps);
  if (!Wait(ps, 20000 * kSec, fn[f])) return;
  for (int r = 0; r < 2; ++r) {
    Outcome out = GetOutcome(w.p[r], ps[r]);
    if (out.state == sim::P_CRASHED) { if (DiedWithMessage(ps[r])) { sim::Inconclusive("aborted"); return; } sim::Violation("crash", out.err); return; }
    // a stream that cannot be closed ends the process inside the I/O library
    if (sim::Proc(ps[r]).code == 255) { sim::Inconclusive("exit inside a stream destructor"); return; }
    if (ReadFile(w.p[r].in) != in[r]) { sim::Violation("input-changed", string(fn[f]) + ": rank " + std::to_string(r)); return; }
    string x = Leftovers(w.p[r], o.recovery);
    if (!x.empty()) { sim::Violation("left-behind", string(fn[f]) + ": rank " + std::to_string(r) + " (" + (out.ok ? "success" : "error") + ") leaves " + x); return; }
    sim::Probe(out.ok ? "clean_after_success" : "clean_after_error");
  }
}

// --------------------------------------------------------------------- C21
void Many() {
  SetupSchedule();
  SetupNet();
  int n = Param("tasks", 2, 3);
  std::vector<World2> w(n);
  int bad = Param("one_fails", 0, 1) ? (int)Param("bad", 0, 1) : -1;
  Opt2 o;
  o.maxrows = 15;
  auto draw = [&](int t) {
    // every task has parameters of its own; the first keeps the plain names
    Opt2 q = o;
    World2 x;
    int protocol = Param(("protocol" + std::to_string(t)).c_str(), 1, 3);
    q.curve_cls = protocol == 1 ? Param(("curve" + std::to_string(t)).c_str(), 0, 7) : -1;
    BuildPsi2(&x, protocol, q);
    Gen g(Param(("wseed" + std::to_string(t)).c_str(), 1, 1 << 30));
    TabShape s = DrawShape(15, true);
    bool u[2] = {x.p[0].cfg.input_attr().keys_unique(), x.p[1].cfg.input_attr().keys_unique()};
    x.p[0].tab = Tab();
    x.p[1].tab = Tab();
    MakeTables(s, g, &x.p[0].tab, &x.p[1].tab);
    for (int r = 0; r < 2; ++r) {
      if (u[r] && x.p[r].tab.KeyCount() != x.p[r].tab.rows.size()) x.p[r].cfg.mutable_input_attr()->set_keys_unique(false);
      PlaceParty(&x.p[r], r, "/t" + std::to_string(t));
    }
    return x;
  };
  for (int t = 0; t < n; ++t) w[t] = draw(t);
  bool share = Param("share_input", 0, 2) == 0;
  if (share) {
    // the tasks of one side read the same input file
    int side = Param("share_side", 0, 1);
    for (int t = 1; t < n; ++t) {
      w[t].p[side].tab = w[0].p[side].tab;
      w[t].p[side].in = w[0].p[side].in;
      auto& c = w[t].p[side].cfg;
      c.mutable_input_config()->set_path(w[0].p[side].in);
      c.clear_keys();
      for (auto& k : w[t].p[side].tab.keys) c.add_keys(k);
      c.mutable_input_attr()->set_keys_unique(false);
      // the key columns of the other side must be comparable
      w[t].p[1 - side].tab = w[0].p[1 - side].tab;
      w[t].p[1 - side].cfg.clear_keys();
      for (auto& k : w[t].p[1 - side].tab.keys) w[t].p[1 - side].cfg.add_keys(k);
      w[t].p[1 - side].cfg.mutable_input_attr()->set_keys_unique(false);
      WriteFile(w[t].p[1 - side].in, w[t].p[1 - side].tab.Csv());
    }
    w[0].p[side].cfg.mutable_input_attr()->set_keys_unique(false);
    sim::Probe("shared_input");
  }
  if (bad >= 0) w[bad].p[Param("bad_side", 0, 1)].cfg.set_keys(0, "no_such_column");
  sim::MarkNontrivial();
  string d = std::to_string(n) + " tasks";
  for (auto& x : w) d += "; " + Describe(x);
  sim::SetSample(d);
  LinkOpt lo;
  if (bad >= 0) lo.recv_timeout_ms = 20000;
  auto body = [&w, lo, bad](int t, int r) {
    Party& p = w[t].p[r];
    LinkOpt l = t == bad ? lo : LinkOpt();
    string res;
    try {
      auto rep = psi::RunPsi(p.cfg, MakeLink("task" + std::to_string(t), 2, r, l));
      res = "ok " + std::to_string(rep.original_count()) + " " + std::to_string(rep.original_key_count()) + " " + std::to_string(rep.intersection_count()) + " " + std::to_string(rep.intersection_key_count());
    } catch (const std::exception& e) { res = string("error ") + e.what(); }
    WriteFile(p.rep, res);
  };
  auto host = [&](int node, std::vector<std::pair<int, int>> jobs) {
    return sim::Spawn(node, "host", [=] {
      spdlog::set_level(spdlog::level::off);
      setenv("TMPDIR", w[0].p[node].tmp.c_str(), 1);
      if (chdir((w[0].p[node].dir + "/cwd").c_str())) return 99;
      std::vector<std::function<void()>> fs;
      for (auto j : jobs) fs.push_back([=] { body(j.first, j.second); });
      RunThreads(fs);
      return 0;
    });
  };
  std::vector<int> ps;
  std::vector<std::pair<int, int>> a, b;
  for (int t = 0; t < n; ++t) a.push_back({t, 0}), b.push_back({t, 1});
  ps.push_back(host(0, a));
  ps.push_back(host(1, b));
  if (!ExpectAllExit(ps, 4000 * kSec, "several tasks")) return;
  for (int t = 0; t < n; ++t) {
    for (int r = 0; r < 2; ++r) {
      string res = ReadFile(w[t].p[r].rep);
      if (res.find("stash") != string::npos) { sim::Inconclusive("cuckoo insertion failed"); return; }
    }
    for (int r = 0; r < 2; ++r) {
      const Party &me = w[t].p[r], &peer = w[t].p[1 - r];
      string res = ReadFile(me.rep);
      string who = "task " + std::to_string(t) + " rank " + std::to_string(r) + ": ";
      if (t == bad) {
        if (res.compare(0, 2, "ok") == 0) { sim::Violation("wrong-result", who + "succeeds with a missing key column"); return; }
        continue;
      }
      Outcome out;
      long v[4];
      if (sscanf(res.c_str(), "ok %ld %ld %ld %ld", v, v + 1, v + 2, v + 3) != 4) { sim::Violation("disturbed", who + res); return; }
      out.original_count = v[0]; out.original_key_count = v[1]; out.intersection_count = v[2]; out.intersection_key_count = v[3];
      bool ent = w[t].Entitled(r);
      string x = CheckCounts(out, me.tab, peer.tab, ent);
      if (x.empty()) x = ent ? CheckOutput(me, peer.tab, w[t].For(r)) : CheckNoOutput(me);
      if (!x.empty()) { sim::Violation("disturbed", who + x); return; }
    }
  }
  for (int r = 0; r < 2; ++r) {
    auto left = ListTree(w[0].p[r].tmp);
    if (!left.empty()) { sim::Violation("left-behind", "rank " + std::to_string(r) + " leaves tmp/" + left[0]); return; }
  }
}

sim::Scenario s6("c06_resume", [] { Resume(1); });
sim::Scenario s7("c07_resume", [] { Resume(Param("protocol", 2, 3)); });
sim::Scenario s8("c08_config", Config);
sim::Scenario s9("c09_blind", Blind);
sim::Scenario s10("c10_net", NetFault);
sim::Scenario s11("c11_storage", [] { Faulty(false); });
sim::Scenario s28("c28_psi", [] { Faulty(true); });
sim::Scenario s20("c20_leave", Leave);
sim::Scenario s21("c21_many", Many);
}  // namespace
