// Unbalanced PSI through RunUbPsi: C05 (results over phase histories) and
// C17 (damaged or interrupted caches).
#include "harness/faults.h"
#include "psi/apps/psi_launcher/launch.h"

namespace hx {
using std::string;

struct UbWorld {
  Party s, c;                // server node 0, client node 1
  int stab = 0, ctab = 0;    // table generation
  TabShape shape;
  bool sget = true, cget = true;
  int type = 1;
  bool server_left = true;
  string null_rep = "NULL";
  bool align = true;
  bool key_file = false;
  int tasks = 0;
  string err[2];
};

static void SetInput(Party* p, const Tab& t) {
  p->tab = t;
  WriteFile(p->in, t.Csv());
  p->ub.clear_keys();
  for (auto& k : t.keys) p->ub.add_keys(k);
}
static void BuildUb(UbWorld* w, Gen& g, int maxrows) {
  w->shape = DrawShape(maxrows, true);
  Tab a, b;
  MakeTables(w->shape, g, &a, &b);
  int vis = Param("visibility", 0, 3);
  w->sget = vis != 1;
  w->cget = vis != 2;
  int join = Param("join", 0, 5);
  w->type = join == 0 ? 1 : join;
  w->server_left = Param("server_left", 0, 1);
  w->align = Param("align", 0, 4) != 0;
  w->key_file = Param("key_file", 0, 1);
  w->null_rep = Param("nullrep", 0, 1) ? "-" : "NULL";
  w->s.api = w->c.api = Param("via_api", 0, 3) == 3;
  for (int r = 0; r < 2; ++r) {
    Party& p = r ? w->c : w->s;
    p.rank = r;
    PlaceParty(&p, r);
    auto& u = p.ub;
    u.set_role(r ? psi::v2::ROLE_CLIENT : psi::v2::ROLE_SERVER);
    u.mutable_input_config()->set_type(psi::v2::IO_TYPE_FILE_CSV);
    u.mutable_input_config()->set_path(p.in);
    u.mutable_output_config()->set_type(psi::v2::IO_TYPE_FILE_CSV);
    u.mutable_output_config()->set_path(p.out);
    u.set_cache_path(p.dir + "/cache");
    u.set_server_get_result(w->sget);
    u.set_client_get_result(w->cget);
    u.set_disable_alignment(!w->align);
    u.mutable_debug_options()->set_logging_level("off");
    if (join) {
      u.set_advanced_join_type((psi::v2::PsiConfig::AdvancedJoinType)join);
      u.set_left_side(w->server_left ? psi::v2::ROLE_SERVER : psi::v2::ROLE_CLIENT);
    }
    if (w->null_rep != "NULL") u.mutable_output_attr()->set_csv_null_rep(w->null_rep);
  }
  if (w->key_file) {
    string k;
    for (int i = 0; i < 32; ++i) k += (char)(g.Next() & 0x7f);
    k[0] = 1;
    WriteFile(w->s.dir + "/key.bin", k);
    w->s.ub.set_server_secret_key_path(w->s.dir + "/key.bin");
  }
  SetInput(&w->s, a);
  SetInput(&w->c, b);
}
static int SpawnUbTask(const Party& p, psi::v2::UbPsiConfig::Mode mode, const string& id, bool link, const LinkOpt& o = {}) {
  Party q = p;
  q.ub.set_mode(mode);
  return sim::Spawn(q.node, q.ub.role() == psi::v2::ROLE_SERVER ? "server" : "client", [=] {
    return PartyMain(q, [&] { return RunUbTaskOf(q, link ? MakeLink(id, 2, q.rank, o) : nullptr); });
  });
}
static Expect UbExpect(const UbWorld& w, int r) {
  Expect e;
  e.type = w.type;
  e.self_left = w.server_left == (r == 0);
  e.broadcast = true;
  e.null_rep = w.null_rep;
  return e;
}
static string JudgeUb(const UbWorld& w, const Outcome& so, const Outcome& co) {
  for (int r = 0; r < 2; ++r) {
    const Party &me = r ? w.c : w.s, &peer = r ? w.s : w.c;
    bool ent = r ? w.cget : w.sget;
    string who = r ? "client: " : "server: ";
    if (!ent) {
      string x = CheckNoOutput(me);
      if (!x.empty()) return who + x;
      if ((r ? co : so).intersection_count > 0) return who + "reports an intersection count it may not know";
      continue;
    }
    string x = CheckCounts(r ? co : so, me.tab, peer.tab, true);
    if (x.empty()) x = CheckOutput(me, peer.tab, UbExpect(w, r));
    if (!x.empty()) return who + x;
  }
  if (w.sget && w.cget && w.align) {
    string x = CheckAligned(w.s, w.c, w.null_rep);
    if (!x.empty()) return "outputs not aligned: " + x;
  }
  return "";
}
// Whether the client's cache is a complete copy of the server's.
static bool CachesAgree(const string& srv, const string& cli) {
  const size_t sl = 44, cl = 36;
  if (srv.empty() || srv.size() % sl || cli.size() % cl || srv.size() / sl != cli.size() / cl) return false;
  for (size_t i = 0; i < srv.size() / sl; ++i)
    if (srv.compare(i * sl + 12, 8, cli, i * cl, 8)) return false;
  return true;
}
// What the client held each time its cache agreed with the server's: an online
// task with one of those and another server cache is the known finding.
struct CacheHistory {
  std::map<string, string> complete;  // client bytes -> server bytes
  static void Get(const UbWorld& w, string* srv, string* cli) {
    *srv = ReadFile(w.s.dir + "/cache/ub_psi_cache.bin");
    *cli = FileExists(w.c.dir + "/cache/server_cache.meta") ? ReadFile(w.c.dir + "/cache/server_cache") : "";
  }
  void Note(const UbWorld& w) {
    string s, c;
    Get(w, &s, &c);
    if (!c.empty() && CachesAgree(s, c)) complete[c] = s;
  }
  bool Stale(const UbWorld& w) const {
    string s, c;
    Get(w, &s, &c);
    auto it = complete.find(c);
    return it != complete.end() && it->second != s && !s.empty();
  }
};
static void ClearOutputs(UbWorld& w) {
  for (Party* p : {&w.s, &w.c}) RemoveFile(p->out), RemoveFile(p->rep);
}
// both sides of one task; false when the run is decided
static bool UbTask(UbWorld& w, psi::v2::UbPsiConfig::Mode m, Outcome* so, Outcome* co, const char* what) {
  string id = "ub" + std::to_string(w.tasks++);
  std::vector<int> ps;
  bool gen = m == psi::v2::UbPsiConfig::MODE_OFFLINE_GEN_CACHE;
  ps.push_back(SpawnUbTask(w.s, m, id, !gen));
  if (!gen) ps.push_back(SpawnUbTask(w.c, m, id, true));
  if (!ExpectAllExit(ps, 4000ull * 1000000000ull, what)) return false;
  *so = GetOutcome(w.s, ps[0]);
  if (!gen) *co = GetOutcome(w.c, ps[1]);
  return true;
}
}  // namespace hx

using namespace hx;
using psi::v2::UbPsiConfig;
namespace {
void C05() {
  SetupSchedule();
  SetupNet();
  SetupClockSkew();
  static const uint32_t chunk[] = {0, 0, 64, 300};
  sim::K().io_chunk = chunk[Param("k_chunk", 0, 3)];
  Gen g(Param("wseed", 1, 1 << 30));
  UbWorld w;
  BuildUb(&w, g, 60);
  sim::MarkNontrivial();
  int plan = Param("plan", 0, 4);
  char b[200];
  snprintf(b, sizeof b, "plan %d, server %zu rows/%zu keys, client %zu rows/%zu keys, join %d, server_get %d client_get %d", plan, w.s.tab.rows.size(), w.s.tab.KeyCount(),
           w.c.tab.rows.size(), w.c.tab.KeyCount(), w.type, w.sget, w.cget);
  sim::SetSample(b);
  Outcome so, co;
  auto judge = [&](const char* what) {
    string x = JudgeUb(w, so, co);
    if (x.empty()) return true;
    sim::Violation(x.find("aligned") != string::npos ? "not-aligned" : "wrong-result", string(what) + ": " + x);
    return false;
  };
  auto new_client = [&] {
    Tab a, c;
    TabShape s = w.shape;
    s.n1 = 1 + g.Below(20);
    s.overlap_pct = 25 * g.Below(5);
    // a new client table over the same key universe
    Gen g2(g.Next());
    MakeTables(s, g2, &a, &c);
    c.keys = w.c.tab.keys.size() == c.keys.size() ? c.keys : c.keys;
    SetInput(&w.c, c);
  };
  int rounds = Param("rounds", 1, 3);
  if (plan == 0) {
    if (!UbTask(w, UbPsiConfig::MODE_FULL, &so, &co, "full")) return;
    if (!judge("full")) return;
  } else {
    int gens = plan == 4 ? 2 : 1;
    for (int gen = 0; gen < gens; ++gen) {
      if (gen) {
        Tab a, c;
        Gen g2(g.Next());
        TabShape s = w.shape;
        s.n0 = 1 + g.Below(40);
        MakeTables(s, g2, &a, &c);
        SetInput(&w.s, a);
        SetInput(&w.c, c);
        ClearOutputs(w);
      }
      if (plan == 1 || (plan == 3 && !gen)) {
        if (!UbTask(w, UbPsiConfig::MODE_OFFLINE, &so, &co, "offline")) return;
      } else {
        if (!UbTask(w, UbPsiConfig::MODE_OFFLINE_GEN_CACHE, &so, &co, "gen cache")) return;
        if (!UbTask(w, UbPsiConfig::MODE_OFFLINE_TRANSFER_CACHE, &so, &co, "transfer cache")) return;
        if (plan == 3 && !UbTask(w, UbPsiConfig::MODE_OFFLINE_TRANSFER_CACHE, &so, &co, "transfer cache again")) return;
      }
      for (int r = 0; r < rounds; ++r) {
        if (r) { new_client(); ClearOutputs(w); }
        if (!UbTask(w, UbPsiConfig::MODE_ONLINE, &so, &co, "online")) return;
        sim::Probe(r ? "later_online_round" : "first_online_round");
        if (!judge("online")) return;
      }
    }
  }
  auto c = ExpectedCounts(w.s.tab, w.c.tab);
  if (c.inter_keys == 0) sim::Probe("empty_intersection");
}
sim::Scenario s5("c05_ub", C05);

// C17: the generation or the transfer is interrupted (kill, or the peer dies
// and the task fails), or a cache file is left short; afterwards an online
// round must fail or be right, and redoing the offline phases must repair.
void C17() {
  SetupSchedule();
  SetupNet();
  Gen g(Param("wseed", 1, 1 << 30));
  UbWorld w;
  BuildUb(&w, g, 40);
  sim::MarkNontrivial();
  Outcome so, co;
  CacheHistory hist;
  int nf = Param("faults", 1, 2);
  int redo = Param("redo", 0, 1);
  LinkOpt lo;
  lo.recv_timeout_ms = 20000;
  lo.connect_retry_times = 5;
  char b[200];
  static const char* fn[] = {"kill while generating", "kill the client in transfer", "kill the server in transfer", "truncate a server cache file", "truncate a client cache file", "kill either in offline/full", "kill either in online", "kill while regenerating, then transfer"};
  int f0 = Param("fault0", 0, 7);
  snprintf(b, sizeof b, "%d faults, first: %s, server %zu rows, client %zu rows, %s online", nf, fn[f0], w.s.tab.rows.size(), w.c.tab.rows.size(), redo ? "redo before" : "no redo before");
  sim::SetSample(b);
  // Phases that must succeed get the default patience.
  auto task = [&](UbPsiConfig::Mode m, int victim, bool full_pair, bool must = true) {
    LinkOpt o = must ? LinkOpt() : lo;
    string id = "ub" + std::to_string(w.tasks++);
    std::vector<int> ps;
    ps.push_back(SpawnUbTask(w.s, m, id, full_pair, o));
    if (full_pair) ps.push_back(SpawnUbTask(w.c, m, id, true, o));
    if (victim >= 0) {
      sim::K().crash_node = victim;
      sim::K().crash_budget = 1;
      static const double pr[] = {0.3, 0.1, 0.03, 0.01};
      sim::K().p_crash = pr[Param("crash_density", 0, 3)];
      sim::K().crash_cls = CrashCls("crash_cls");
    }
    bool ok = sim::WaitProcs(ps, 4000ull * 1000000000ull);
    sim::K().crash_budget = 0;
    sim::K().p_crash = 0;
    if (!ok) {
      sim::Violation(sim::Deadlocked() ? "deadlock" : "no-progress", string("interrupted phase: ") + sim::ThreadDump());
      return ps;
    }
    for (int p : ps) if (sim::Proc(p).state == sim::P_KILLED) sim::Probe("victim_killed");
    so = GetOutcome(w.s, ps[0]);
    if (full_pair) co = GetOutcome(w.c, ps[1]);
    hist.Note(w);
    return ps;
  };
  auto crashed = [&](const std::vector<int>& ps) {
    for (int p : ps)
      if (sim::Proc(p).state == sim::P_CRASHED && !DiedWithMessage(p)) { sim::Violation("crash", string(sim::Proc(p).name) + " " + sim::Proc(p).msg); return true; }
    return sim::HasVerdict();
  };
  std::vector<int> ps;
  int fault = 0;
  for (int fi = 0; fi < nf; ++fi) {
  fault = fi ? Param("fault1", 0, 7) : f0;
  switch (fault) {
    case 0: ps = task(UbPsiConfig::MODE_OFFLINE_GEN_CACHE, 0, false, false); break;
    case 1: case 2:
      ps = task(UbPsiConfig::MODE_OFFLINE_GEN_CACHE, -1, false);
      if (crashed(ps)) return;
      // a first complete transfer may precede the interrupted one
      if (Param("transferred_before", 0, 1)) { ps = task(UbPsiConfig::MODE_OFFLINE_TRANSFER_CACHE, -1, true); if (crashed(ps)) return; }
      ps = task(UbPsiConfig::MODE_OFFLINE_TRANSFER_CACHE, fault == 1 ? 1 : 0, true, false);
      break;
    case 3: case 4: {
      ps = task(UbPsiConfig::MODE_OFFLINE, -1, true);
      if (crashed(ps)) return;
      if (!so.ok || !co.ok) { sim::Violation("unexpected-error", "offline: " + so.err + co.err); return; }
      string dir = (fault == 3 ? w.s : w.c).dir + "/cache";
      auto files = ListTree(dir);
      std::vector<string> fs;
      for (auto& f : files) if (f.back() != '/') fs.push_back(f);
      if (fs.empty()) return;
      string f = dir + "/" + fs[g.Below(fs.size())];
      string d = ReadFile(f);
      size_t keep = g.Below(4) == 0 ? 0 : g.Below(std::max<size_t>(1, d.size()));
      if (Param("cut_remove", 0, 4) == 0) RemoveFile(f);
      else WriteFile(f, d.substr(0, keep));
      sim::Log("cut %s to %zu of %zu", f.c_str(), keep, d.size());
      sim::Probe(fault == 3 ? "server_file_short" : "client_file_short");
      break;
    }
    case 5:
      ps = task(Param("fullmode", 0, 1) ? UbPsiConfig::MODE_FULL : UbPsiConfig::MODE_OFFLINE, Param("victim", 0, 1), true, false);
      break;
    case 6:
      ps = task(UbPsiConfig::MODE_OFFLINE, -1, true);
      if (crashed(ps)) return;
      if (!so.ok || !co.ok) { sim::Violation("unexpected-error", "offline: " + so.err + co.err); return; }
      ps = task(UbPsiConfig::MODE_ONLINE, Param("victim", 0, 1), true, false);
      break;
    case 7:
      ps = task(UbPsiConfig::MODE_OFFLINE_GEN_CACHE, -1, false);
      if (crashed(ps)) return;
      ps = task(UbPsiConfig::MODE_OFFLINE_GEN_CACHE, 0, false, false);
      if (crashed(ps)) return;
      ps = task(UbPsiConfig::MODE_OFFLINE_TRANSFER_CACHE, -1, true, false);  // may be refused
      if (so.ok && co.ok) sim::Probe("transferred_after_interrupted_generation");
      break;
  }
  if (crashed(ps)) return;
  }
  if (crashed(ps)) return;
  ClearOutputs(w);
  auto online = [&](const char* what, bool must) {
    bool stale = !must && hist.Stale(w);
    auto q = task(UbPsiConfig::MODE_ONLINE, -1, true, must);
    if (crashed(q)) return false;
    if (so.ok && co.ok) {
      string x = JudgeUb(w, so, co);
      if (!x.empty()) { sim::Violation(stale ? "stale-client-cache" : "silent-wrong-result", string(what) + ": " + x); return false; }
      sim::Probe("online_right");
    } else {
      sim::Probe("online_refused");
      if (must) { sim::Violation("not-restored", string(what) + ": server " + so.err + " client " + co.err); return false; }
    }
    return true;
  };
  if (!redo && !online("online after the fault", false)) return;
  // regenerate and transfer again: must restore
  ClearOutputs(w);
  if (fault == 1 && Param("only_transfer", 0, 1)) {
    ps = task(UbPsiConfig::MODE_OFFLINE_TRANSFER_CACHE, -1, true);
  } else if (Param("redo_offline", 0, 1)) {
    ps = task(UbPsiConfig::MODE_OFFLINE, -1, true);
  } else {
    ps = task(UbPsiConfig::MODE_OFFLINE_GEN_CACHE, -1, false);
    if (crashed(ps)) return;
    if (!so.ok) { sim::Violation("not-restored", "regenerating the cache failed: " + so.err); return; }
    ps = task(UbPsiConfig::MODE_OFFLINE_TRANSFER_CACHE, -1, true);
  }
  if (crashed(ps)) return;
  if (!so.ok || !co.ok) { sim::Violation("not-restored", "redoing the offline phase failed: server " + so.err + " client " + co.err); return; }
  online("online after redoing the offline phase", true);
}
sim::Scenario s17("c17_ub_cache", C17);

// ------------------------------------------------- C10, C11, C20 for UB-PSI
// Runs a drawn history of phases; the fault hits one of them.
struct UbRun {
  UbWorld w;
  Gen g{1};
  LinkOpt lo;
  std::vector<int> ps;
  int victim_phase = 0;
  UbPsiConfig::Mode mode{};
  bool pair = true;
  UbRun() {
    SetupNet(false);
    g = Gen(Param("wseed", 1, 1 << 30));
    BuildUb(&w, g, 30);
    lo.recv_timeout_ms = 20000;
    lo.connect_retry_times = 10;
  }
  bool Phase(UbPsiConfig::Mode m, const char* what, bool one = false) {
    Outcome so, co;
    (void)one;
    if (!UbTask(w, m, &so, &co, what)) return false;
    if (!so.ok || (m != UbPsiConfig::MODE_OFFLINE_GEN_CACHE && !co.ok)) { sim::Violation("unexpected-error", string(what) + ": " + so.err + " | " + co.err); return false; }
    return true;
  }
  // healthy phases before the one the fault hits
  bool Prepare() {
    victim_phase = Param("phase", 0, 4);
    bool split = Param("split_offline", 0, 1);
    static const UbPsiConfig::Mode ms[] = {UbPsiConfig::MODE_FULL, UbPsiConfig::MODE_OFFLINE, UbPsiConfig::MODE_OFFLINE_GEN_CACHE, UbPsiConfig::MODE_OFFLINE_TRANSFER_CACHE, UbPsiConfig::MODE_ONLINE};
    mode = ms[victim_phase];
    pair = victim_phase != 2;
    if (victim_phase == 3 || (victim_phase == 4 && split)) if (!Phase(UbPsiConfig::MODE_OFFLINE_GEN_CACHE, "gen cache")) return false;
    if (victim_phase == 4) if (!Phase(split ? UbPsiConfig::MODE_OFFLINE_TRANSFER_CACHE : UbPsiConfig::MODE_OFFLINE, "offline")) return false;
    return true;
  }
  string Name() const {
    static const char* n[] = {"full", "offline", "gen cache", "transfer cache", "online"};
    char b[160];
    snprintf(b, sizeof b, "%s phase, server %zu rows, client %zu rows, join %d", n[victim_phase], w.s.tab.rows.size(), w.c.tab.rows.size(), w.type);
    return b;
  }
  void Start(int skip = -1) {
    if (skip != 0) ps.push_back(SpawnUbTask(w.s, mode, "victim", pair, lo));
    if (pair && skip != 1) ps.push_back(SpawnUbTask(w.c, mode, "victim", true, lo));
  }
  bool HasResult() const { return victim_phase == 0 || victim_phase == 4; }
  // a party that says it succeeded must be right
  bool Judge(Outcome o[2], const char* what) {
    for (int r = 0; r < 2; ++r) {
      const Party &me = r ? w.c : w.s, &peer = r ? w.s : w.c;
      if (o[r].state == sim::P_CRASHED) { sim::Violation("crash", string(what) + ": " + (r ? "client " : "server ") + o[r].err); return false; }
      if (!o[r].ok || !HasResult()) continue;
      bool ent = r ? w.cget : w.sget;
      string x;
      if (!ent) x = CheckNoOutput(me);
      else {
        x = CheckCounts(o[r], me.tab, peer.tab, true);
        if (x.empty()) x = CheckOutput(me, peer.tab, UbExpect(w, r));
      }
      if (!x.empty()) { sim::Violation("wrong-result", string(what) + ": " + (r ? "client: " : "server: ") + x); return false; }
    }
    return true;
  }
  // whatever offline phases reported success, the online task that follows
  // must be right or fail
  bool Online(Outcome o[2], const char* what) {
    ClearOutputs(w);
    auto& k = sim::K();
    k.p_io = 0; k.io_budget = 0;
    victim_phase = 4;
    mode = UbPsiConfig::MODE_ONLINE;
    ps.clear();
    pair = true;
    Start();
    if (!Wait(ps, 20000 * kSec, what)) return false;
    for (int r = 0; r < 2; ++r) {
      o[r] = GetOutcome(r ? w.c : w.s, ps[r]);
      if (o[r].state == sim::P_CRASHED && DiedWithMessage(ps[r])) o[r].state = sim::P_EXITED;
    }
    return Judge(o, what);
  }
};

void UbNet() {
  SetupSchedule();
  UbRun u;
  sim::MarkNontrivial();
  if (!u.Prepare()) return;
  if (!u.pair) { u.pair = true; u.mode = UbPsiConfig::MODE_OFFLINE; u.victim_phase = 1; }
  NetPlan plan = DrawNetPlan();
  sim::SetSample(u.Name() + "; " + PlanName(plan.kind));
  u.Start(plan.kind == 6 ? plan.victim : -1);
  RunNetPlan(plan, u.ps);
  if (!Wait(u.ps, (plan.kind == 5 ? 90000 : 20000) * kSec, PlanName(plan.kind))) return;
  sim::K().crash_budget = 0; sim::K().p_crash = 0; sim::K().p_stall = 0;
  Outcome o[2];
  size_t i = 0;
  for (int r = 0; r < 2; ++r)
    if (!(plan.kind == 6 && r == plan.victim)) o[r] = GetOutcome(r ? u.w.c : u.w.s, u.ps[i++]);
  if (!u.Judge(o, PlanName(plan.kind))) return;
  if (plan.must_finish && !(o[0].ok && o[1].ok)) { sim::Violation("healed-but-failed", string(PlanName(plan.kind)) + ": " + o[0].err + " | " + o[1].err); return; }
  if (plan.kind == 6 && o[1 - plan.victim].ok && u.HasResult() && (plan.victim ? u.w.sget : u.w.cget)) { sim::Violation("wrong-result", "success without a peer"); return; }
  for (int r = 0; r < 2; ++r) if (o[r].started) sim::Probe(o[r].ok ? "survivor_right" : "survivor_error");
}
sim::Scenario s10u("c10_ub", UbNet);

void UbFaulty(bool mem) {
  SetupSchedule(false);
  static const uint32_t chunk[] = {0, 0, 64, 300};
  sim::K().io_chunk = chunk[Param("k_chunk", 0, 3)];
  UbRun u;
  sim::MarkNontrivial();
  if (!u.Prepare()) return;
  if (mem) AllocKnobs(); else IoKnobs();
  const char* what = mem ? "failing allocations" : "storage faults";
  sim::SetSample(u.Name());
  u.Start();
  if (!Wait(u.ps, 20000 * kSec, what)) return;
  sim::K().alloc_budget = 0;
  Outcome o[2];
  for (size_t r = 0; r < u.ps.size(); ++r) {
    o[r] = GetOutcome(r ? u.w.c : u.w.s, u.ps[r]);
    if (o[r].state == sim::P_CRASHED && DiedWithMessage(u.ps[r])) o[r].state = sim::P_EXITED, sim::Probe("aborted_with_message");
  }
  if (!u.Judge(o, what)) return;
  for (size_t r = 0; r < u.ps.size(); ++r) sim::Probe(o[r].ok ? "party_right" : "party_error");
  if (u.HasResult() || u.victim_phase == 2) return;
  // an offline phase: what it left must not give wrong results
  bool off_ok = o[0].ok && o[1].ok;
  Outcome p[2];
  if (!u.Online(p, "online after storage faults")) return;
  sim::Probe(p[0].ok && p[1].ok ? "online_after_faults_right" : "online_after_faults_refused");
  if (off_ok && !(p[0].ok && p[1].ok)) { sim::Violation("offline-success-unusable", "both parties reported the offline phase a success, but: " + p[0].err + " | " + p[1].err); return; }
}
sim::Scenario s11u("c11_ub", [] { UbFaulty(false); });
sim::Scenario s28u("c28_ub", [] { UbFaulty(true); });

void UbLeave() {
  SetupSchedule(false);
  UbRun u;
  sim::MarkNontrivial();
  if (!u.Prepare()) return;
  int f = Param("failure", 0, 4);
  static const char* fn[] = {"no failure", "full disk", "missing key column", "link cut", "empty input"};
  int side = Param("side", 0, 1);
  Party& v = side ? u.w.c : u.w.s;
  NetPlan plan{};
  if (f == 1) {
    auto& k = sim::K();
    static const double pi[] = {0.2, 0.05, 0.02, 0.005};
    k.p_io = pi[Param("io_density", 0, 3)];
    k.io_budget = 1;
    k.io_node = side;
    k.io_mask = 1u << sim::IOF_ENOSPC;
  } else if (f == 2) {
    v.ub.set_keys(0, "no_such_column");
  } else if (f == 3 && u.pair) {
    plan.kind = Param("cut", 2, 3);
    plan.victim = side;
    plan.at_ns = 200000ull << Param("at", 0, 12);
  } else if (f == 4) {
    v.tab.rows.clear();
    WriteFile(v.in, Param("no_bytes", 0, 1) ? string() : v.tab.Csv());
  }
  sim::SetSample(u.Name() + "; " + fn[f]);
  string in[2] = {ReadFile(u.w.s.in), ReadFile(u.w.c.in)};
  u.Start();
  if (plan.kind) RunNetPlan(plan, u.ps);
  if (!Wait(u.ps, 20000 * kSec, fn[f])) return;
  for (size_t r = 0; r < u.ps.size(); ++r) {
    const Party& p = r ? u.w.c : u.w.s;
    Outcome out = GetOutcome(p, u.ps[r]);
    if (out.state == sim::P_CRASHED) { if (DiedWithMessage(u.ps[r])) { sim::Inconclusive("aborted"); return; } sim::Violation("crash", out.err); return; }
    if (sim::Proc(u.ps[r]).code == 255) { sim::Inconclusive("exit inside a stream destructor"); return; }
    if (ReadFile(p.in) != in[r]) { sim::Violation("input-changed", string(fn[f]) + ": rank " + std::to_string(r)); return; }
    string x;
    for (auto& q : ListTree(p.dir)) {
      if (q == "tmp/" || q == "in/" || q == "out/" || q == "cwd/" || q == "in/input.csv" || q == "out/output.csv" || q == "report.json" || q == "psi.trace" || q == "key.bin") continue;
      if (q.compare(0, 6, "cache/") == 0) continue;
      x = q;
      break;
    }
    if (!x.empty()) { sim::Violation("left-behind", string(fn[f]) + ": " + (r ? "client" : "server") + " (" + (out.ok ? "success" : "error") + ") leaves " + x); return; }
    sim::Probe(out.ok ? "clean_after_success" : "clean_after_error");
  }
}
sim::Scenario s20u("c20_ub", UbLeave);
// C18: a threshold limits what an online task reveals
void C18() {
  SetupSchedule();
  SetupNet();
  SetupClockSkew();
  static const uint32_t chunk[] = {0, 0, 64, 300};
  sim::K().io_chunk = chunk[Param("k_chunk", 0, 3)];
  Gen g(Param("wseed", 1, 1 << 30));
  UbWorld w;
  BuildUb(&w, g, 60);
  for (Party* p : {&w.s, &w.c}) {
    p->api = false;
    p->ub.clear_advanced_join_type();
    p->ub.clear_left_side();
    p->ub.mutable_output_attr()->clear_csv_null_rep();
  }
  int n = ExpectedCounts(w.s.tab, w.c.tab).inter_keys;
  int cls = Param("thr_class", 0, 5);
  uint32_t thr = cls == 0 ? 1 : cls == 1 ? std::max(1, n) : cls == 2 ? std::max(1, n - 1) : cls == 3 ? n + 1 : cls == 4 ? 1 + n / 2 : Param("thr", 1, 2000);
  for (Party* p : {&w.s, &w.c}) {
    p->ub.set_intersection_threshold(thr);
    p->ub.set_count_path(p->dir + "/count.csv");
  }
  bool full = Param("full", 0, 1);
  int rounds = full ? 1 : Param("rounds", 1, 2);
  sim::MarkNontrivial();
  sim::SetSample(fmt::format("{} with threshold {}, server {} rows/{} keys, client {} rows/{} keys, {} common, server_get {} client_get {}", full ? "full" : "offline, online", thr,
                             w.s.tab.rows.size(), w.s.tab.KeyCount(), w.c.tab.rows.size(), w.c.tab.KeyCount(), n, w.sget, w.cget));
  if (n > (int)thr) sim::Probe("threshold_took_effect");
  if (n == (int)thr) sim::Probe("threshold_exactly_met");
  Outcome o[2];
  if (!full && !UbTask(w, UbPsiConfig::MODE_OFFLINE, &o[0], &o[1], "offline")) return;
  for (int r = 0; r < rounds; ++r) {
    if (r) ClearOutputs(w), RemoveFile(w.s.dir + "/count.csv"), RemoveFile(w.c.dir + "/count.csv");
    if (!UbTask(w, full ? UbPsiConfig::MODE_FULL : UbPsiConfig::MODE_ONLINE, &o[0], &o[1], "threshold task")) return;
    Party p[2] = {w.s, w.c};
    bool ent[2] = {w.sget, w.cget};
    string x = JudgeThreshold(p, ent, o, thr, w.align);
    if (!x.empty()) { sim::Violation(x.find("aligned") != string::npos ? "not-aligned" : "wrong-result", x); return; }
  }
}
sim::Scenario s18("c18_ub", C18);
}  // namespace
