// The bucketed and in-memory operators of psi/legacy through RunLegacyPsi,
// psi::api::PsiExecute and MemoryPsi, two parties (C13) and more (C14), and the
// many-party protocols psi/algorithm/nty and kmprt17 (C14).
#include <unistd.h>

#include "experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.h"
#include "harness/faults.h"
#include "psi/algorithm/nty/nty_mp_psi.h"
#include "psi/apps/psi_launcher/launch.h"
#include "psi/legacy/memory_psi.h"
#include "spdlog/spdlog.h"
#include "yacl/crypto/hash/hash_utils.h"

using namespace hx;
using std::string;
using std::vector;
namespace {
enum Via { V_MEMORY = 0, V_BUCKET, V_API, V_NTY, V_KMPRT };
const char* kVia[] = {"MemoryPsi", "RunLegacyPsi", "api::PsiExecute", "NtyMPsi", "KmprtParty"};
struct NWorld {
  int n = 2, via = 0, receiver = 0;
  int helper = 0, aided = 1;  // nty
  psi::PsiType type = psi::KKRT_PSI_2PC;
  bool broadcast = true, sorted = true, progress = false, precheck = true;
  uint32_t bucket = 0;
  psi::CurveType curve = psi::CURVE_25519;
  uint32_t interval = 1;
  vector<Party> p;
  vector<vector<string>> items;   // memory: what each party holds
  std::set<string> inter;         // joined keys all parties hold
  bool dups = false;
  bool Entitled(int r) const { return broadcast || r == receiver; }
  bool Files() const { return via == V_BUCKET || via == V_API; }
};
string KeyVal(int style, int64_t v) {
  char b[64];
  switch (style) {
    case 0: return std::to_string(v);
    case 1: snprintf(b, sizeof b, "%c%ld", v % 2 ? 'a' : 'A', (long)v); return b;
    case 2: return "id-" + string(v % 40, 'x') + std::to_string(v);
    default: snprintf(b, sizeof b, "%04ld.user_%ld", (long)(v * 7919 % 10000), (long)v); return b;
  }
}
// every key belongs to a drawn set of parties: all of them, all but one (the
// interesting near miss), or a random subset
void DrawN(NWorld* w, int nmin, int nmax) {
  Gen g(Param("wseed", 1, 1 << 30));
  w->n = Param("parties", nmin, nmax);
  w->receiver = Param("receiver", 0, w->n - 1);
  w->broadcast = Param("broadcast", 0, 2) != 0;
  int cls = Param("size_cls", 0, 4);
  static const int hi[] = {4, 12, 30, 60, 90};
  int maxrows = hi[cls];
  int style = Param("keystyle", 0, 3), keycols = w->Files() ? Param("keycols", 1, 2) : 1;
  int mode = Param("overlap", 0, 4);
  bool empty_one = Param("empty_one", 0, 11) == 11;
  int universe = Param("universe", 1, maxrows * 2);
  w->p.resize(w->n);
  w->items.resize(w->n);
  vector<vector<int>> has(w->n);
  vector<double> weight(w->n);
  for (auto& x : weight) x = 0.2 + g.Below(9) * 0.1;  // unequal sizes
  for (int k = 0; k < universe; ++k) {
    bool everyone = mode == 0 ? false : mode == 4 ? true : g.P(mode * 0.25);
    int miss = g.P(0.5) ? (int)g.Below(w->n) : -1;
    bool all = true;
    vector<int> who;
    for (int r = 0; r < w->n; ++r) {
      bool in = everyone || (miss >= 0 ? r != miss : g.P(weight[r]));
      if ((int)has[r].size() >= maxrows) in = false;
      if (in) who.push_back(r);
      all = all && in;
    }
    for (int r : who) has[r].push_back(k);
  }
  if (empty_one) has[g.Below(w->n)].clear();
  for (int r = 0; r < w->n; ++r)
    if (has[r].empty() && !empty_one) has[r].push_back(1000 + r);
  std::map<int, int> cnt;
  for (auto& h : has) for (int k : h) cnt[k]++;
  int side = 1;
  while (keycols == 2 && side * side < universe + 1) ++side;
  auto parts = [&](int k) -> vector<string> {
    if (keycols == 1) return {KeyVal(style, k + 5)};
    return {KeyVal(style, k / side), KeyVal(style, k % side + 3)};
  };
  for (int r = 0; r < w->n; ++r) {
    g.Shuffle(has[r]);
    Party& p = w->p[r];
    p.rank = r;
    Tab& t = p.tab;
    string pre(1, (char)('a' + r));
    int npay = g.Below(3);
    vector<string> pay;
    for (int i = 0; i < keycols; ++i) t.keys.push_back(pre + "k" + std::to_string(i));
    for (int i = 0; i < npay; ++i) pay.push_back(pre + "v" + std::to_string(i));
    if (g.P(0.5)) { t.cols = t.keys; t.cols.insert(t.cols.end(), pay.begin(), pay.end()); }
    else { t.cols = pay; t.cols.insert(t.cols.end(), t.keys.rbegin(), t.keys.rend()); }
    int serial = 0;
    for (int k : has[r]) {
      std::map<string, string> m;
      auto kv = parts(k);
      for (int i = 0; i < keycols; ++i) m[t.keys[i]] = kv[i];
      ++serial;
      for (auto& c : pay) m[c] = "p" + std::to_string(g.Below(1000)) + "_" + std::to_string(serial);
      vector<string> row;
      for (auto& c : t.cols) row.push_back(m[c]);
      t.rows.push_back(row);
      string joined = kv[0];
      for (int i = 1; i < keycols; ++i) joined += "\x1f" + kv[i];
      if (cnt[k] == w->n) w->inter.insert(joined);
      w->items[r].push_back(joined);
    }
  }
  if (w->Files() && keycols == 1 && Param("craft", 0, 15) == 15) {
    string text = DrawCutText(g);
    std::map<string, int> held;
    w->inter.clear();
    for (int r = 0; r < w->n; ++r) {
      w->items[r] = CutText(text, 20, g);
      ReplaceKeys(&w->p[r].tab, w->items[r], g);
      for (auto& k : w->items[r]) if (++held[k] == w->n) w->inter.insert(k);
    }
    sim::Probe("keys_with_one_concatenation");
  }
  w->precheck = Param("precheck", 0, 1);
  w->sorted = Param("sorted", 0, 3) != 0;
  w->progress = Param("progress", 0, 1);
  static const uint32_t iv[] = {5, 40, 300, 1000, 5000};
  w->interval = iv[Param("interval", 0, 4)];
  static const uint32_t bk[] = {0, 1, 2, 5, 16, 1000};
  w->bucket = bk[Param("bucket", 0, 5)];
  if (w->bucket && w->bucket < 5 && maxrows > 30 && w->n > 2) w->bucket = 5;  // bounds the length of a run
  static const psi::CurveType ct[] = {psi::CURVE_25519, psi::CURVE_FOURQ, psi::CURVE_INVALID_TYPE, psi::CURVE_25519_ELLIGATOR2};
  w->curve = ct[Param("curve", 0, 3)];
  for (int r = 0; r < w->n; ++r) PlaceParty(&w->p[r], r);
}
psi::BucketPsiConfig BucketCfg(const NWorld& w, const Party& p) {
  psi::BucketPsiConfig c;
  c.set_psi_type(w.type);
  c.set_receiver_rank(w.receiver);
  c.set_broadcast_result(w.broadcast);
  c.mutable_input_params()->set_path(p.in);
  for (auto& k : p.tab.keys) c.mutable_input_params()->add_select_fields(k);
  c.mutable_input_params()->set_precheck(w.precheck);
  c.mutable_output_params()->set_path(p.out);
  c.mutable_output_params()->set_need_sort(w.sorted);
  c.set_curve_type(w.curve);
  c.set_bucket_size(w.bucket);
  return c;
}
psi::PsiResultReport RunFiles(const NWorld& w, const Party& p, const std::shared_ptr<yacl::link::Context>& link, vector<size_t>* seen) {
  psi::ProgressCallbacks cb;
  if (w.progress) cb = [seen](const psi::Progress::Data& d) { seen->push_back(d.percentage); };
  if (w.via == V_BUCKET) return psi::RunLegacyPsi(BucketCfg(w, p), link, cb, w.interval);
  psi::api::PsiExecuteConfig a;
  a.protocol_conf.protocol = w.type == psi::ECDH_PSI_3PC   ? psi::api::PsiProtocol::PROTOCOL_ECDH_3PC
                             : w.type == psi::ECDH_PSI_NPC ? psi::api::PsiProtocol::PROTOCOL_ECDH_NPC
                                                           : psi::api::PsiProtocol::PROTOCOL_KKRT_NPC;
  a.protocol_conf.receiver_rank = w.receiver;
  a.protocol_conf.broadcast_result = w.broadcast;
  a.protocol_conf.bucket_size = w.bucket;
  a.protocol_conf.ecdh_params.curve = (psi::api::EllipticCurveType)w.curve;
  a.input_params.path = p.in;
  a.input_params.selected_keys.assign(p.tab.keys.begin(), p.tab.keys.end());
  a.input_params.keys_unique = !w.precheck;
  a.output_params.path = p.out;
  a.output_params.disable_alignment = !w.sorted;
  psi::api::ProgressParams pp;
  pp.hook = cb;
  pp.interval_ms = w.interval;
  auto r = psi::api::PsiExecute(a, link, pp);
  psi::PsiResultReport rep;
  rep.set_original_count(r.original_count);
  rep.set_intersection_count(r.intersection_count);
  rep.set_original_key_count(r.original_unique_count);
  rep.set_intersection_key_count(r.intersection_unique_count);
  return rep;
}
psi::PsiResultReport RunItems(const NWorld& w, int r, const std::shared_ptr<yacl::link::Context>& link) {
  const auto& items = w.items[r];
  vector<string> res;
  if (w.via == V_MEMORY) {
    psi::MemoryPsiConfig c;
    c.set_psi_type(w.type);
    c.set_receiver_rank(w.receiver);
    c.set_broadcast_result(w.broadcast);
    c.set_curve_type(w.curve);
    psi::MemoryPsi m(c, link);
    res = m.Run(items);
  } else if (w.via == V_KMPRT) {
    psi::psi::KmprtParty::Options o;
    o.link_ctx = link;
    o.leader_rank = w.receiver;
    psi::psi::KmprtParty m(o);
    res = m.Run(items);
  } else {
    psi::nty::NtyMPsiOptions o(Param("nty_threads", 1, 3), w.aided, w.helper, w.receiver, w.broadcast);
    o.link_ctx = link;
    psi::nty::NtyMPsi m(o);
    vector<uint128_t> in;
    std::map<std::pair<uint64_t, uint64_t>, string> back;
    for (auto& keys : w.items)
      for (auto& s : keys) {
        uint128_t h = yacl::crypto::Blake3_128(s);
        back[{(uint64_t)(h >> 64), (uint64_t)h}] = s;
      }
    for (auto& s : items) in.push_back(yacl::crypto::Blake3_128(s));
    for (auto h : m.Run(in)) {
      auto it = back.find({(uint64_t)(h >> 64), (uint64_t)h});
      res.push_back(it == back.end() ? "?unknown" : it->second);
    }
  }
  string s;
  for (auto& x : res) s += x + "\n";
  WriteFile(w.p[r].out, s);
  psi::PsiResultReport rep;
  rep.set_original_count(items.size());
  rep.set_intersection_count(res.size());
  return rep;
}
vector<int> SpawnN(const NWorld& w, const string& id, const LinkOpt& o = {}, int skip = -1) {
  vector<int> ps;
  for (int r = 0; r < w.n; ++r) {
    if (r == skip) continue;
    ps.push_back(sim::Spawn(r, ("party" + std::to_string(r)).c_str(), [=] {
      return PartyMain(w.p[r], [&] {
        auto link = MakeLink(id, w.n, r, o);
        link->ConnectToMesh();
        if (!w.Files()) return RunItems(w, r, link);
        vector<size_t> seen;
        auto rep = RunFiles(w, w.p[r], link, &seen);
        string s;
        for (auto v : seen) s += std::to_string(v) + " ";
        if (w.progress) WriteFile(w.p[r].dir + "/progress", s);
        return rep;
      });
    }));
  }
  return ps;
}
string JudgeProgress(const NWorld& w, int r) {
  if (!w.progress || !w.Files()) return "";
  string f = w.p[r].dir + "/progress";
  if (!FileExists(f)) return "";
  std::istringstream is(ReadFile(f));
  long last = -1, v;
  while (is >> v) {
    if (v > 100) return "a progress callback says " + std::to_string(v) + "%";
    if (v < last) return "progress callbacks go back from " + std::to_string(last) + "% to " + std::to_string(v) + "%";
    last = v;
  }
  if (last != 100) return "the last progress callback of a finished task says " + std::to_string(last) + "%";
  sim::Probe("progress_followed");
  return "";
}
// a party that says it succeeded
string JudgeOne(const NWorld& w, int r, const Outcome& o) {
  const Party& p = w.p[r];
  string who = "rank " + std::to_string(r) + ": ";
  bool ent = w.Entitled(r);
  if (!w.Files()) {
    vector<string> got = SplitLines(ReadFile(p.out)), want;
    if (ent) want.assign(w.inter.begin(), w.inter.end());
    std::sort(got.begin(), got.end());
    if (got == want) return "";
    if (!ent) return who + "not entitled but got " + std::to_string(got.size()) + " items";
    vector<string> miss, extra;
    std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(miss));
    std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(extra));
    return who + std::to_string(got.size()) + " items, expected " + std::to_string(want.size()) + (miss.empty() ? "" : ", missing " + miss[0]) + (extra.empty() ? "" : ", extra " + extra[0]);
  }
  int64_t wi = ent ? (int64_t)w.inter.size() : -1;
  if (o.original_count != (int64_t)p.tab.rows.size() || o.intersection_count != wi)
    return who + "report says original " + std::to_string(o.original_count) + ", intersection " + std::to_string(o.intersection_count) + ", expected " + std::to_string(p.tab.rows.size()) + ", " + std::to_string(wi);
  if (!ent) { string x = CheckNoOutput(p); return x.empty() ? "" : who + x; }
  if (!FileExists(p.out)) return who + "no output file";
  bool ok;
  auto got = ParseCsv(ReadFile(p.out), &ok);
  if (!ok || got.empty()) return who + "output file is torn or empty";
  if (got[0] != p.tab.cols) return who + "wrong header";
  got.erase(got.begin());
  vector<vector<string>> want;
  for (size_t i = 0; i < p.tab.rows.size(); ++i) if (w.inter.count(p.tab.KeyStr(i))) want.push_back(p.tab.rows[i]);
  auto a = got, b = want;
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  if (a != b) {
    vector<vector<string>> miss, extra;
    std::set_difference(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(miss));
    std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(extra));
    return who + std::to_string(got.size()) + " rows, expected " + std::to_string(want.size()) + (miss.empty() ? "" : ", missing " + miss[0][0]) + (extra.empty() ? "" : ", extra " + extra[0][0]);
  }
  if (!w.sorted && got != want) return who + "unsorted output is not in the order of the input";
  string x = JudgeProgress(w, r);
  return x.empty() ? "" : who + x;
}
string JudgeAll(const NWorld& w, const vector<Outcome>& o) {
  for (int r = 0; r < w.n; ++r) { string x = JudgeOne(w, r, o[r]); if (!x.empty()) return x; }
  if (w.Files() && w.broadcast && w.sorted)
    for (int r = 1; r < w.n; ++r) { string x = CheckAligned(w.p[0], w.p[r], "\x01"); if (!x.empty()) return "outputs not aligned: " + x; }
  return "";
}
string Describe(const NWorld& w) {
  string s = string(kVia[w.via]) + " " + (w.via < V_NTY ? psi::PsiType_Name(w.type) : "") + ", sizes";
  for (auto& i : w.items) s += " " + std::to_string(i.size());
  s += ", in all " + std::to_string(w.inter.size()) + ", receiver " + std::to_string(w.receiver) + (w.broadcast ? ", broadcast" : "");
  if (w.Files()) s += ", bucket size " + std::to_string(w.bucket);
  return s;
}
void Setup(NWorld* w, bool many) {
  SetupSchedule();
  SetupNet();
  SetupClockSkew();
  static const uint32_t chunk[] = {0, 0, 64, 300};
  sim::K().io_chunk = chunk[Param("k_chunk", 0, 3)];
  if (!many) {
    static const psi::PsiType t[] = {psi::KKRT_PSI_2PC, psi::ECDH_PSI_NPC, psi::KKRT_PSI_NPC};
    w->via = Param("via", 0, 2);
    w->type = t[Param("type", 0, 2)];
    if (w->via == V_API && w->type == psi::KKRT_PSI_2PC) w->via = V_BUCKET;
    DrawN(w, 2, 2);
    return;
  }
  int c = Param("family", 0, 9);
  if (c <= 1) {
    w->type = psi::ECDH_PSI_3PC;
    w->via = Param("via", 0, 2);
    DrawN(w, 3, 3);
  } else if (c <= 6) {
    w->type = c <= 4 ? psi::ECDH_PSI_NPC : psi::KKRT_PSI_NPC;
    w->via = Param("via", 0, 2);
    DrawN(w, 3, 6);
  } else if (c <= 8) {
    w->via = V_NTY;
    DrawN(w, 3, 5);
    int a = Param("nty_helper", 1, w->n - 1), b = Param("nty_aided", 1, w->n - 2);
    w->helper = (w->receiver + a) % w->n;
    vector<int> rest;
    for (int r = 0; r < w->n; ++r) if (r != w->receiver && r != w->helper) rest.push_back(r);
    w->aided = rest[(b - 1) % rest.size()];
  } else {
    w->via = V_KMPRT;
    DrawN(w, 2, 4);
    w->broadcast = false;
  }
}
vector<Outcome> Outcomes(const NWorld& w, const vector<int>& ps) {
  vector<Outcome> o;
  for (int r = 0; r < w.n; ++r) o.push_back(GetOutcome(w.p[r], ps[r]));
  return o;
}
void Plain(bool many) {
  NWorld w;
  Setup(&w, many);
  sim::MarkNontrivial();
  sim::SetSample(Describe(w));
  auto ps = SpawnN(w, "task");
  if (!ExpectAllExit(ps, 20000 * kSec, "legacy psi")) return;
  if (w.inter.empty()) sim::Probe("empty_intersection");
  string x = JudgeAll(w, Outcomes(w, ps));
  if (!x.empty()) sim::Violation(Tag(x), x);
}
// draws a world for the fault scenarios
void SetupFault(NWorld* w, bool files) {
  SetupSchedule(false);
  SetupNet(false);
  static const uint32_t chunk[] = {0, 0, 64, 300};
  sim::K().io_chunk = chunk[Param("k_chunk", 0, 3)];
  static const psi::PsiType t[] = {psi::KKRT_PSI_2PC, psi::ECDH_PSI_3PC, psi::ECDH_PSI_NPC, psi::KKRT_PSI_NPC};
  w->type = t[Param("type", 0, 3)];
  w->via = Param("via", files ? 1 : 0, 2);
  if (w->via == V_API && w->type == psi::KKRT_PSI_2PC) w->via = V_BUCKET;
  if (w->type == psi::KKRT_PSI_2PC) DrawN(w, 2, 2);
  else if (w->type == psi::ECDH_PSI_3PC) DrawN(w, 3, 3);
  else DrawN(w, 2, 4);
  w->interval = std::max(w->interval, 2000u);  // waiting for a lost peer can take an hour
}
bool JudgeEachN(const NWorld& w, vector<Outcome>* o, const vector<int>& ps, const char* what) {
  bool all = true;
  for (int r = 0; r < w.n; ++r) {
    Outcome& x = (*o)[r];
    if (x.state == sim::P_CRASHED && DiedWithMessage(ps[r])) x.state = sim::P_EXITED, sim::Probe("aborted_with_message");
    if (x.state == sim::P_CRASHED) { sim::Violation("crash", string(what) + ": party " + std::to_string(r) + " " + x.err); return false; }
    if (StatFail(x)) { sim::Inconclusive("cuckoo insertion failed"); return false; }
    if (!x.ok) { all = false; continue; }
    string v = JudgeOne(w, r, x);
    if (!v.empty()) { sim::Violation("wrong-result", string(what) + ": " + v); return false; }
  }
  if (all) {
    string v = JudgeAll(w, *o);
    if (!v.empty()) { sim::Violation(Tag(v), string(what) + ": " + v); return false; }
  }
  return true;
}
// --------------------------------------------------------------------- C10
void NetFault() {
  NWorld w;
  SetupFault(&w, false);
  static const uint32_t nb[] = {5, 5, 200, 2000};
  sim::K().net_base = nb[Param("k_netbase", 0, 3)];
  sim::MarkNontrivial();
  NetPlan plan = DrawNetPlan();
  plan.victim = Param("victim_n", 0, w.n - 1);
  if (plan.kind == 0) sim::K().crash_node = plan.victim;
  sim::SetSample(Describe(w) + "; " + PlanName(plan.kind));
  LinkOpt lo;
  // a party may wait for others that are busy with each other
  lo.recv_timeout_ms = plan.must_finish ? 600000 : 20000;
  lo.connect_retry_times = 10;
  auto ps = SpawnN(w, "task", lo, plan.kind == 6 ? plan.victim : -1);
  if (plan.kind == 3) {
    // one way from or to one party
    if (!sim::WaitProcs(ps, plan.at_ns) && !sim::Deadlocked()) {
      bool out = Param("outward", 0, 1);
      for (int r = 0; r < w.n; ++r)
        if (r != plan.victim) sim::NetPartition(out ? plan.victim : r, out ? r : plan.victim, true);
      sim::Probe("partitioned_one_way");
    }
  } else {
    RunNetPlan(plan, ps);
  }
  // the protocol sets receive timeouts of up to an hour of its own
  if (!Wait(ps, (plan.kind == 5 ? 90000 : 30000) * kSec, PlanName(plan.kind))) return;
  vector<Outcome> o(w.n);
  vector<int> procs(w.n, -1);
  size_t i = 0;
  for (int r = 0; r < w.n; ++r)
    if (!(plan.kind == 6 && r == plan.victim)) procs[r] = ps[i], o[r] = GetOutcome(w.p[r], ps[i++]);
  if (!JudgeEachN(w, &o, procs, PlanName(plan.kind))) return;
  for (int r = 0; r < w.n; ++r) {
    if (plan.kind == 6 && r == plan.victim) continue;
    if (plan.must_finish && !o[r].ok) { sim::Violation("healed-but-failed", string(PlanName(plan.kind)) + ": " + o[r].err); return; }
    if (plan.kind == 6 && o[r].ok) { sim::Violation("wrong-result", "success without a peer"); return; }
    if (o[r].ok) sim::Probe("survivor_right");
    else if (o[r].started && o[r].state == sim::P_EXITED) sim::Probe("survivor_error");
  }
}
// --------------------------------------------------------------------- C11
void Faulty(bool mem) {
  NWorld w;
  SetupFault(&w, true);
  sim::MarkNontrivial();
  if (mem) AllocKnobs(); else IoKnobs();
  const char* what = mem ? "failing allocations" : "storage faults";
  sim::SetSample(Describe(w));
  LinkOpt lo;
  lo.recv_timeout_ms = 20000;
  lo.connect_retry_times = 10;
  auto ps = SpawnN(w, "task", lo);
  if (!Wait(ps, 30000 * kSec, what)) return;
  auto o = Outcomes(w, ps);
  if (!JudgeEachN(w, &o, ps, what)) return;
  for (auto& x : o) sim::Probe(x.ok ? "party_right" : "party_error");
}
// --------------------------------------------------------------------- C20
void Leave() {
  NWorld w;
  SetupFault(&w, true);
  sim::MarkNontrivial();
  int f = Param("failure", 0, 6);
  static const char* fn[] = {"no failure", "full disk", "missing key column", "link cut", "empty input", "duplicate keys", "empty key value"};
  LinkOpt lo;
  lo.recv_timeout_ms = 20000;
  lo.connect_retry_times = 10;
  int side = Param("side", 0, w.n - 1);
  NetPlan plan{};
  Party& p = w.p[side];
  if (f == 1) {
    auto& k = sim::K();
    static const double pi[] = {0.2, 0.05, 0.02, 0.005};
    k.p_io = pi[Param("io_density", 0, 3)];
    k.io_budget = 1;
    k.io_node = side;
    k.io_mask = 1u << sim::IOF_ENOSPC;
  } else if (f == 2) {
    p.tab.keys[0] = "no_such_column";
  } else if (f == 3) {
    plan.kind = 2;
    plan.at_ns = 200000ull << Param("at", 0, 12);
  } else if (f == 4) {
    p.tab.rows.clear();
    WriteFile(p.in, Param("no_bytes", 0, 1) ? string() : p.tab.Csv());
  } else if (f == 5) {
    w.precheck = true;
    if (p.tab.rows.empty()) { sim::Inconclusive("no row to repeat"); return; }
    p.tab.rows.push_back(p.tab.rows[Param("dup", 0, p.tab.rows.size() - 1)]);
    WriteFile(p.in, p.tab.Csv());
  } else if (f == 6) {
    // with a single column the row would be a blank line
    if (p.tab.rows.empty() || p.tab.cols.size() < 2) { sim::Inconclusive("no value to empty"); return; }
    auto& row = p.tab.rows[Param("dup", 0, p.tab.rows.size() - 1)];
    row[std::find(p.tab.cols.begin(), p.tab.cols.end(), p.tab.keys[0]) - p.tab.cols.begin()] = "";
    WriteFile(p.in, p.tab.Csv());
  }
  sim::SetSample(Describe(w) + "; " + fn[f]);
  vector<string> in;
  for (auto& q : w.p) in.push_back(ReadFile(q.in));
  auto ps = SpawnN(w, "task", lo);
  if (f == 3) RunNetPlan(plan, ps);
  if (!Wait(ps, 30000 * kSec, fn[f])) return;
  for (int r = 0; r < w.n; ++r) {
    Outcome out = GetOutcome(w.p[r], ps[r]);
    if (out.state == sim::P_CRASHED) { if (DiedWithMessage(ps[r])) { sim::Inconclusive("aborted"); return; } sim::Violation("crash", out.err); return; }
    if (sim::Proc(ps[r]).code == 255) { sim::Inconclusive("exit inside a stream destructor"); return; }
    if (ReadFile(w.p[r].in) != in[r]) { sim::Violation("input-changed", string(fn[f]) + ": rank " + std::to_string(r)); return; }
    RemoveFile(w.p[r].dir + "/progress");
    string x = Leftovers(w.p[r], false);
    if (!x.empty()) { sim::Violation("left-behind", string(fn[f]) + ": rank " + std::to_string(r) + " (" + (out.ok ? "success" : "error") + ") leaves " + x); return; }
    if (r == side && (f == 2 || f == 5 || f == 6) && out.ok) { sim::Violation("accepted", string(fn[f]) + " but rank " + std::to_string(r) + " reports success"); return; }
    sim::Probe(out.ok ? "clean_after_success" : "clean_after_error");
  }
}
sim::Scenario s10("c10_legacy", NetFault);
sim::Scenario s11("c11_legacy", [] { Faulty(false); });
sim::Scenario s28("c28_legacy", [] { Faulty(true); });
sim::Scenario s20("c20_legacy", Leave);
sim::Scenario s1("c13_legacy", [] { Plain(false); });
sim::Scenario s2("c14_many", [] { Plain(true); });
}  // namespace
