// Differentially private two-party PSI (C19): psi/legacy/dp_psi directly,
// through MemoryPsi and through RunLegacyPsi.  The sender (Alice) computes and
// adds the noise, the receiver (Bob) gets the result.
#include <unistd.h>

#include <cmath>

#include "harness/faults.h"
#include "psi/apps/psi_launcher/launch.h"
#include "psi/legacy/dp_psi/dp_psi.h"
#include "psi/legacy/memory_psi.h"
#include "spdlog/spdlog.h"

using namespace hx;
using std::string;
using std::vector;
namespace {
enum Via { V_DIRECT = 0, V_MEMORY, V_FILE };
const char* kVia[] = {"RunDpEcdhPsi", "MemoryPsi", "RunLegacyPsi"};
struct DpWorld {
  int via = 0, receiver = 0;
  double p1 = 1, eps = 3;
  bool broadcast = false;
  uint32_t bucket = 0;
  psi::CurveType curve = psi::CURVE_25519;
  Party p[2];
  vector<string> items[2];
  std::set<string> inter;
  double p2() const { return 1 - 1 / (1 + std::exp(eps)); }
  const vector<string>& bob() const { return items[receiver]; }
};
void Draw(DpWorld* w) {
  Gen g(Param("wseed", 1, 1 << 30));
  w->via = std::max<int>(0, Param("via_dp", 0, 3) - 1);
  w->receiver = Param("receiver", 0, 1);
  static const double p1[] = {1, 0.9, 0.5, 0.1, 0};
  static const double ep[] = {0.1, 1, 3, 6, 50};  // 50: every intersection item is kept and none is made up
  w->p1 = p1[Param("keep", 0, 4)];
  w->eps = ep[Param("epsilon", 0, 4)];
  // an unbalanced task with a broadcast would publish what Bob got
  w->broadcast = w->via == V_MEMORY && Param("broadcast", 0, 3) == 3;
  static const uint32_t bk[] = {0, 1000, 5, 16};
  w->bucket = bk[Param("bucket", 0, 3)];
  static const psi::CurveType ct[] = {psi::CURVE_25519, psi::CURVE_FOURQ, psi::CURVE_SM2, psi::CURVE_INVALID_TYPE};
  w->curve = ct[Param("curve", 0, 3)];
  static const int hi[] = {3, 20, 60, 120};
  int n[2];
  for (int i = 0; i < 2; ++i) n[i] = Param(i ? "n1" : "n0", w->via == V_FILE ? 1 : 0, hi[Param(i ? "cls1" : "cls0", 0, 3)]);
  int mode = Param("overlap", 0, 4);  // 4: Bob's items are all among Alice's, if they fit
  int common = mode == 0 ? 0 : mode == 4 ? std::min(n[0], n[1]) : (int)(std::min(n[0], n[1]) * mode * 0.3);
  int style = Param("keystyle", 0, 1);
  auto val = [&](int v) { return style ? "user_" + string(v % 40, 'x') + std::to_string(v) : std::to_string(v); };
  for (int i = 0; i < 2; ++i) {
    for (int k = 0; k < n[i]; ++k) w->items[i].push_back(val(k < common ? k : 1000 * (i + 1) + k));
    g.Shuffle(w->items[i]);
    Party& p = w->p[i];
    p.rank = i;
    p.tab.cols = {string(1, (char)('a' + i)) + "id", "v"};
    p.tab.keys = {p.tab.cols[0]};
    for (auto& s : w->items[i]) p.tab.rows.push_back({s, "p" + std::to_string(g.Below(1000))});
    PlaceParty(&p, i);
  }
  for (int k = 0; k < common; ++k) w->inter.insert(val(k));
}
psi::PsiResultReport RunParty(const DpWorld& w, int r, const std::shared_ptr<yacl::link::Context>& link) {
  psi::PsiResultReport rep;
  const auto& items = w.items[r];
  rep.set_original_count(items.size());
  if (w.via == V_FILE) {
    psi::BucketPsiConfig c;
    c.set_psi_type(psi::DP_PSI_2PC);
    c.set_receiver_rank(w.receiver);
    c.set_broadcast_result(false);
    c.mutable_input_params()->set_path(w.p[r].in);
    c.mutable_input_params()->add_select_fields(w.p[r].tab.keys[0]);
    c.mutable_input_params()->set_precheck(true);
    c.mutable_output_params()->set_path(w.p[r].out);
    c.mutable_output_params()->set_need_sort(false);
    c.set_curve_type(w.curve);
    c.set_bucket_size(w.bucket);
    c.mutable_dppsi_params()->set_bob_sub_sampling(w.p1);
    c.mutable_dppsi_params()->set_epsilon(w.eps);
    return psi::RunLegacyPsi(c, link);
  }
  vector<string> res;
  if (w.via == V_MEMORY) {
    psi::MemoryPsiConfig c;
    c.set_psi_type(psi::DP_PSI_2PC);
    c.set_receiver_rank(w.receiver);
    c.set_broadcast_result(w.broadcast);
    c.set_curve_type(w.curve);
    c.mutable_dppsi_params()->set_bob_sub_sampling(w.p1);
    c.mutable_dppsi_params()->set_epsilon(w.eps);
    psi::MemoryPsi m(c, link);
    res = m.Run(items);
    rep.set_intersection_count(res.size());
  } else {
    psi::dp_psi::DpPsiOptions o(w.p1, w.eps);
    auto curve = w.curve == psi::CURVE_INVALID_TYPE ? psi::CURVE_25519 : w.curve;
    size_t sub = 0, up = 0;
    if (r == w.receiver) {
      auto idx = psi::dp_psi::RunDpEcdhPsiBob(o, link, items, &sub, curve);
      for (auto i : idx) {
        if (i >= items.size()) throw std::runtime_error("index outside the input");
        res.push_back(items[i]);
      }
      if (!std::is_sorted(idx.begin(), idx.end())) throw std::runtime_error("indices are not sorted");
      rep.set_intersection_count(res.size());
    } else {
      rep.set_intersection_count(psi::dp_psi::RunDpEcdhPsiAlice(o, link, items, &sub, &up, curve));
    }
    rep.set_original_key_count(sub);
    rep.set_intersection_key_count(up);
  }
  string s;
  for (auto& x : res) s += x + "\n";
  WriteFile(w.p[r].out, s);
  return rep;
}
vector<int> SpawnDp(const DpWorld& w, const string& id, const LinkOpt& o = {}, int skip = -1) {
  vector<int> ps;
  for (int r = 0; r < 2; ++r) {
    if (r == skip) continue;
    ps.push_back(sim::Spawn(r, r == w.receiver ? "bob" : "alice", [=] {
      return PartyMain(w.p[r], [&] {
        auto link = MakeLink(id, 2, r, o);
        link->ConnectToMesh();
        return RunParty(w, r, link);
      });
    }));
  }
  return ps;
}
// probability that a binomial variable is at most (upper: at least) k
double Tail(int n, double p, int k, bool upper) {
  double sum = 0;
  for (int i = upper ? k : 0; i <= (upper ? n : k); ++i) {
    if (i < 0 || i > n) continue;
    if (p <= 0) { sum += i == 0; continue; }
    if (p >= 1) { sum += i == n; continue; }
    sum += std::exp(std::lgamma(n + 1.0) - std::lgamma(i + 1.0) - std::lgamma(n - i + 1.0) + i * std::log(p) + (n - i) * std::log1p(-p));
  }
  return sum;
}
constexpr double kNever = 1e-13;
string Unlikely(const char* what, int n, double p, int k) {
  if (Tail(n, p, k, true) < kNever || Tail(n, p, k, false) < kNever)
    return string(what) + ": " + std::to_string(k) + " of " + std::to_string(n) + " where each has probability " + std::to_string(p);
  return "";
}
bool ReadItems(const DpWorld& w, int r, vector<string>* got, string* bad) {
  const Party& p = w.p[r];
  got->clear();
  if (w.via != V_FILE) { *got = SplitLines(ReadFile(p.out)); return true; }
  bool ok;
  auto rows = ParseCsv(ReadFile(p.out), &ok);
  if (!FileExists(p.out) || !ok || rows.empty()) { *bad = "output is missing, torn or empty"; return false; }
  if (rows[0] != p.tab.cols) { *bad = "wrong header"; return false; }
  std::set<vector<string>> own(p.tab.rows.begin(), p.tab.rows.end());
  for (size_t i = 1; i < rows.size(); ++i) {
    if (!own.count(rows[i])) { *bad = "a row that is not in the input: " + rows[i][0]; return false; }
    got->push_back(rows[i][0]);
  }
  return true;
}
// o[r].ok tells which parties said they succeeded
string JudgeDp(const DpWorld& w, const Outcome o[2]) {
  int B = w.receiver, A = 1 - B;
  int n = w.bob().size(), ni = w.inter.size();
  vector<string> got;
  string bad;
  if (o[A].ok) {
    if (w.via == V_FILE) { if (FileExists(w.p[A].out)) return "the sender has an output file"; }
    else if (w.via == V_MEMORY && !w.broadcast) { ReadItems(w, A, &got, &bad); if (!got.empty()) return "the sender got " + std::to_string(got.size()) + " items"; }
    if (w.via == V_DIRECT && o[A].intersection_count > n) return "the sender counts more items than the receiver has";
  }
  if (!o[B].ok) return "";
  if (!ReadItems(w, B, &got, &bad)) return bad;
  std::set<string> own(w.bob().begin(), w.bob().end()), R(got.begin(), got.end());
  if (R.size() != got.size()) return "the result holds an item twice";
  int in = 0, out = 0;
  for (auto& s : got) {
    if (!own.count(s)) return "the result holds an item that is not the receiver's: " + s;
    w.inter.count(s) ? ++in : ++out;
  }
  if (o[B].intersection_count != (int64_t)got.size()) return "the receiver reports " + std::to_string(o[B].intersection_count) + " items, but has " + std::to_string(got.size());
  if (w.via == V_FILE) {  // an unsorted output keeps the order of the input
    vector<string> want;
    for (auto& s : w.bob()) if (R.count(s)) want.push_back(s);
    if (want != got) return "rows are not in the order of the input";
  }
  if (w.via == V_MEMORY && w.broadcast && o[A].ok) {
    vector<string> a;
    ReadItems(w, A, &a, &bad);
    if (std::set<string>(a.begin(), a.end()) != R || a.size() != got.size()) return "broadcast: the parties got different results";
  }
  // every item of Bob's is kept with probability p1; then it is in the result
  // with probability p2 if Alice has it and with 1-p2 if she does not
  double p2 = w.p2();
  if (w.eps >= 50 && out) return "noise of a probability of 0 was added";
  if (w.p1 == 0 && !got.empty()) return "items were used that should never be sampled";
  if (w.items[A].empty() && w.via != V_DIRECT) return got.empty() ? "" : "a result although the sender has no items";
  bool whole = w.via != V_FILE || w.bucket > std::max(w.items[0].size(), w.items[1].size());
  // when nothing is there to add as noise the result is empty
  bool noiseless = n == ni;
  if (w.p1 == 1 && w.eps >= 50 && whole && in != (noiseless ? 0 : ni)) return "every intersection item should be there: " + std::to_string(in) + " of " + std::to_string(ni);
  if (noiseless && whole && !got.empty()) return "items are revealed although no noise can be added";
  string x;
  if (Tail(n - ni, w.p1 * (1 - p2), out, true) < kNever) x = "more noise than drawn: " + std::to_string(out) + " of " + std::to_string(n - ni);
  if (x.empty() && Tail(ni, w.p1 * p2, in, true) < kNever) x = "sampling rate ignored: " + std::to_string(in) + " of " + std::to_string(ni);
  bool settled = whole && (!got.empty() || (w.p1 == 1 && !noiseless));  // the empty-noise rule did not apply
  if (x.empty() && settled) x = Unlikely("intersection items in the result", ni, w.p1 * p2, in);
  if (x.empty() && settled) x = Unlikely("noise items in the result", n - ni, w.p1 * (1 - p2), out);
  if (!x.empty()) return "sampling is off: " + x;
  if (w.via != V_DIRECT) return "";
  int bsub = o[B].original_key_count;
  if (bsub < 0 || bsub > n) return "the receiver dropped " + std::to_string(bsub) + " of its items";
  if ((int)got.size() > n - bsub) return "more items in the result than the receiver sent";
  x = Unlikely("items the receiver dropped", n, 1 - w.p1, bsub);
  if (!x.empty()) return "sampling is off: " + x;
  if (!o[A].ok) return "";
  if (o[A].intersection_count != (int64_t)got.size()) return "the sender announces " + std::to_string(o[A].intersection_count) + " items, the receiver has " + std::to_string(got.size());
  if (got.empty() && o[A].original_key_count == 0 && o[A].intersection_key_count == 0) return "";
  if (o[A].intersection_key_count != out) return "the sender says " + std::to_string(o[A].intersection_key_count) + " noise items, the result holds " + std::to_string(out);
  int kept = in + o[A].original_key_count;  // intersection items the receiver had sent
  if (kept > std::min(ni, n - bsub) || kept < n - bsub - (n - ni))
    return "the sender dropped " + std::to_string(o[A].original_key_count) + ", the result holds " + std::to_string(in) + ", but the receiver sent " + std::to_string(n - bsub) + " items of which at most " + std::to_string(ni) + " are shared";
  return "";
}
const char* TagDp(const string& x) {
  return x.find("sampling is off") == 0 ? "sampling" : x.find("not fresh") != string::npos ? "noise-not-fresh" : "wrong-result";
}
string Describe(const DpWorld& w) {
  return fmt::format("{} sizes {} {}, shared {}, receiver {}, keep {}, epsilon {}, bucket {}{}", kVia[w.via], w.items[0].size(), w.items[1].size(), w.inter.size(), w.receiver, w.p1, w.eps, w.bucket, w.broadcast ? ", broadcast" : "");
}
void Begin(DpWorld* w, bool mem) {
  SetupSchedule(mem);
  SetupNet(mem);
  if (mem) SetupClockSkew();
  static const uint32_t chunk[] = {0, 0, 64, 300};
  sim::K().io_chunk = chunk[Param("k_chunk", 0, 3)];
  Draw(w);
  sim::MarkNontrivial();
}
void Plain() {
  DpWorld w;
  Begin(&w, true);
  bool twice = Param("twice", 0, 3) == 3;
  sim::SetSample(Describe(w) + (twice ? ", twice" : ""));
  vector<string> first;
  for (int i = 0; i <= twice; ++i) {
    if (i) for (auto& p : w.p) { RemoveFile(p.out); RemoveFile(p.rep); }
    auto ps = SpawnDp(w, "task" + std::to_string(i));
    if (!ExpectAllExit(ps, 20000 * kSec, "dp psi")) return;
    Outcome o[2] = {GetOutcome(w.p[0], ps[0]), GetOutcome(w.p[1], ps[1])};
    for (auto& x : o) if (!x.ok) { sim::Violation("unexpected-error", x.err); return; }
    string x = JudgeDp(w, o);
    if (!x.empty()) { sim::Violation(TagDp(x), x); return; }
    vector<string> got;
    ReadItems(w, w.receiver, &got, &x);
    if (!got.empty()) sim::Probe("result_not_empty");
    for (auto& s : got) if (!w.inter.count(s)) { sim::Probe("noise_added"); break; }
    if (i == 0) { first = got; continue; }
    // the same samples twice by chance?
    double same = 1;
    for (auto& s : w.bob()) { double q = w.p1 * (w.inter.count(s) ? w.p2() : 1 - w.p2()); same *= q * q + (1 - q) * (1 - q); }
    if (same < kNever && got == first && !got.empty()) { sim::Violation("noise-not-fresh", "two tasks on the same inputs drew the same samples"); return; }
    if (same < kNever) sim::Probe("freshness_judged");
  }
}
void Net() {
  DpWorld w;
  Begin(&w, false);
  NetPlan plan = DrawNetPlan();
  sim::SetSample(Describe(w) + "; " + PlanName(plan.kind));
  LinkOpt lo;
  lo.recv_timeout_ms = plan.must_finish ? 600000 : 20000;
  lo.connect_retry_times = 10;
  auto ps = SpawnDp(w, "task", lo, plan.kind == 6 ? plan.victim : -1);
  RunNetPlan(plan, ps);
  if (!Wait(ps, (plan.kind == 5 ? 90000 : 30000) * kSec, PlanName(plan.kind))) return;
  Outcome o[2];
  size_t i = 0;
  for (int r = 0; r < 2; ++r) {
    if (plan.kind == 6 && r == plan.victim) continue;
    o[r] = GetOutcome(w.p[r], ps[i]);
    if (o[r].state == sim::P_CRASHED && !DiedWithMessage(ps[i])) { sim::Violation("crash", o[r].err); return; }
    ++i;
    if (plan.must_finish && !o[r].ok) { sim::Violation("healed-but-failed", string(PlanName(plan.kind)) + ": " + o[r].err); return; }
    if (plan.kind == 6 && o[r].ok) { sim::Violation("wrong-result", "success without a peer"); return; }
    sim::Probe(o[r].ok ? "survivor_right" : "survivor_error");
  }
  string x = JudgeDp(w, o);
  if (!x.empty()) sim::Violation(TagDp(x), string(PlanName(plan.kind)) + ": " + x);
}
sim::Scenario s1("c19_dp", Plain);
sim::Scenario s2("c19_net", Net);
}  // namespace
