// Two-party balanced PSI through RunPsi: C01 (ECDH), C02 (KKRT), C03 (RR22),
// C04 (joins).
#include "harness/world.h"

namespace hx {
using std::string;
static uint32_t DrawThreshold(const Tab& a, const Tab& b) {
  uint32_t n = ExpectedCounts(a, b).inter_keys;
  switch (Param("thr_class", 0, 5)) {
    case 0: return 1;
    case 1: return std::max(1u, n);
    case 2: return n > 1 ? n - 1 : 1;
    case 3: return n + 1;
    case 4: return 1 + n / 2;
    default: return Param("thr", 1, 2000);
  }
}
void BuildPsi2(World2* w, int protocol, const Opt2& o) {
  Gen g(Param("wseed", 1, 1 << 30));
  w->protocol = protocol;
  int curve_cls = o.curve_cls >= 0 ? o.curve_cls : protocol == 1 ? Param("curve", 0, 9) : 0;
  int maxrows = o.maxrows;
  if (curve_cls >= 8) maxrows = std::min(maxrows, 12);  // real EC arithmetic
  TabShape s = DrawShape(maxrows, o.dup);
  MakeTables(s, g, &w->p[0].tab, &w->p[1].tab);
  if (s.keycols == 1 && Param("craft", 0, 15) == 15) {
    string text = DrawCutText(g);
    for (auto& p : w->p) ReplaceKeys(&p.tab, CutText(text, maxrows, g), g);
    sim::Probe("keys_with_one_concatenation");
  }
  if (o.content) for (int r = 0; r < 2; ++r) Dress(&w->p[r].tab, o.content, r);
  w->recv_rank = Param("recv_rank", 0, 1);
  w->broadcast = o.broadcast >= 0 ? o.broadcast : Param("broadcast", 0, 3) != 0;
  int join = o.joins ? Param("join", 1, 5) : Param("join_unspec", 0, 1);
  bool recv_left = o.joins ? Param("recv_left", 0, 1) : true;
  w->e.type = join == 0 ? 1 : join;
  w->e.broadcast = w->broadcast;
  w->e.self_left = (w->recv_rank == 0) == recv_left;
  int nullrep = o.joins ? Param("nullrep", 0, 2) : 0;
  w->e.null_rep = nullrep == 0 ? "NULL" : nullrep == 1 ? "n/a" : "-";
  int batch = Param("batch", 0, 4);
  static const int bs[] = {0, 1, 3, 8, 64};
  int bucket = Param("bucket", 0, 4);
  static const int bk[] = {0, 1, 4, 16, 1000};
  bool digest = Param("digest", 0, 1);
  bool lowcomm = protocol == 3 && Param("lowcomm", 0, 1);
  int align_off = Param("align_off", 0, 7) == 7;
  if (o.threshold && protocol == 1 && w->e.type == 1 && Param("threshold", 0, 4) == 4) w->threshold = DrawThreshold(w->p[0].tab, w->p[1].tab);
  for (int r = 0; r < 2; ++r) {
    Party& p = w->p[r];
    p.rank = r;
    auto& c = p.cfg;
    auto* pc = c.mutable_protocol_config();
    pc->set_protocol((psi::v2::Protocol)protocol);
    pc->set_role(r == w->recv_rank ? psi::v2::ROLE_RECEIVER : psi::v2::ROLE_SENDER);
    pc->set_broadcast_result(w->broadcast);
    if (protocol == 1) {
      static const psi::CurveType ct[] = {psi::CURVE_25519, psi::CURVE_FOURQ, psi::CURVE_25519_ELLIGATOR2, psi::CURVE_25519, psi::CURVE_FOURQ,
                                          psi::CURVE_25519, psi::CURVE_25519, psi::CURVE_FOURQ, psi::CURVE_SM2, psi::CURVE_SECP256K1};
      pc->mutable_ecdh_config()->set_curve(ct[curve_cls]);
      pc->mutable_ecdh_config()->set_batch_size(bs[batch]);
    } else if (protocol == 2) {
      pc->mutable_kkrt_config()->set_bucket_size(bk[bucket]);
    } else {
      pc->mutable_rr22_config()->set_bucket_size(bk[bucket]);
      pc->mutable_rr22_config()->set_low_comm_mode(lowcomm);
    }
    if (join) {
      c.set_advanced_join_type((psi::v2::PsiConfig::AdvancedJoinType)join);
      c.set_left_side(recv_left ? psi::v2::ROLE_RECEIVER : psi::v2::ROLE_SENDER);
    }
    if (w->threshold) c.set_intersection_threshold(w->threshold);
    c.set_check_hash_digest(digest);
    c.set_disable_alignment(align_off);
    if (nullrep) c.mutable_output_attr()->set_csv_null_rep(w->e.null_rep);
    bool uniq = p.tab.KeyCount() == p.tab.rows.size();
    if (o.unique_attr && uniq && Param(r ? "uniq_attr1" : "uniq_attr0", 0, 1)) c.mutable_input_attr()->set_keys_unique(true);
    PlaceParty(&p, r);
    if (w->threshold) c.set_count_path(p.dir + "/count.csv");
    if (o.recovery) {
      c.mutable_recovery_config()->set_enabled(true);
      c.mutable_recovery_config()->set_folder(p.rec);
    }
  }
}
string Describe(const World2& w) {
  char b[300];
  static const char* jn[] = {"?", "inner", "left", "right", "full", "difference"};
  static const char* pn[] = {"?", "ECDH", "KKRT", "RR22"};
  snprintf(b, sizeof b, "%s, %zu rows/%zu keys against %zu rows/%zu keys, %s join, %s, receiver rank %d", pn[w.protocol], w.p[0].tab.rows.size(), w.p[0].tab.KeyCount(),
           w.p[1].tab.rows.size(), w.p[1].tab.KeyCount(), jn[w.e.type], w.broadcast ? "both get the result" : "receiver only", w.recv_rank);
  return b + (w.threshold ? ", threshold " + std::to_string(w.threshold) : string());
}
string JudgeSuccess(const World2& w, const Outcome o[2]) {
  if (w.threshold) {
    bool ent[2] = {w.Entitled(0), w.Entitled(1)};
    return JudgeThreshold(w.p, ent, o, w.threshold, !w.p[0].cfg.disable_alignment() && !w.p[1].cfg.disable_alignment());
  }
  for (int r = 0; r < 2; ++r) {
    const Party &me = w.p[r], &peer = w.p[1 - r];
    string who = r == w.recv_rank ? "receiver" : "sender";
    bool ent = w.Entitled(r);
    string x = CheckCounts(o[r], me.tab, peer.tab, ent);
    if (!x.empty()) return who + ": " + x;
    x = ent ? CheckOutput(me, peer.tab, w.For(r)) : CheckNoOutput(me);
    if (!x.empty()) return who + ": " + x;
  }
  bool align = !w.p[0].cfg.disable_alignment() && !w.p[1].cfg.disable_alignment();
  if (w.broadcast && align) {
    string x = CheckAligned(w.p[0], w.p[1], w.e.null_rep);
    if (!x.empty()) return "outputs not aligned: " + x;
  }
  return "";
}
}  // namespace hx

using namespace hx;
namespace {
void Plain(int protocol, bool joins, int content = 0) {
  SetupSchedule();
  SetupNet();
  SetupClockSkew();
  static const uint32_t chunk[] = {0, 0, 64, 300};
  sim::K().io_chunk = chunk[Param("k_chunk", 0, 3)];
  World2 w;
  Opt2 o;
  o.joins = joins;
  o.content = content;
  o.maxrows = protocol == 1 ? 80 : 60;
  BuildPsi2(&w, protocol, o);
  bool api = Param("via_api", 0, 3) == 3;
  for (auto& p : w.p) p.api = api;
  sim::MarkNontrivial();
  sim::SetSample(Describe(w) + (api ? ", through psi::api::PsiExecute" : ""));
  std::vector<int> ps;
  for (int r = 0; r < 2; ++r) ps.push_back(SpawnPsi(w.p[r], "task"));
  if (!ExpectAllExit(ps, 4000ull * 1000000000ull, "psi")) return;
  Outcome out[2] = {GetOutcome(w.p[0], ps[0]), GetOutcome(w.p[1], ps[1])};
  auto c = ExpectedCounts(w.p[0].tab, w.p[1].tab);
  if (c.inter_keys == 0) sim::Probe("empty_intersection");
  if (c.inter_keys == c.keys && w.p[1].tab.KeyCount() == (size_t)c.keys) sim::Probe("same_key_sets");
  if (c.orig != c.keys) sim::Probe("duplicate_keys");
  std::string x = JudgeSuccess(w, out);
  if (!x.empty()) sim::Violation(x.find("aligned") != std::string::npos ? "not-aligned" : "wrong-result", x);
}
// C18: a threshold limits what is revealed
void Threshold() {
  SetupSchedule();
  SetupNet();
  SetupClockSkew();
  static const uint32_t chunk[] = {0, 0, 64, 300};
  sim::K().io_chunk = chunk[Param("k_chunk", 0, 3)];
  World2 w;
  Opt2 o;
  o.maxrows = 80;
  BuildPsi2(&w, 1, o);
  w.threshold = DrawThreshold(w.p[0].tab, w.p[1].tab);
  uint32_t thr = w.threshold;
  for (auto& p : w.p) {
    p.cfg.set_intersection_threshold(thr);
    p.cfg.set_count_path(p.dir + "/count.csv");
  }
  sim::MarkNontrivial();
  sim::SetSample(Describe(w));
  std::vector<int> ps;
  for (int r = 0; r < 2; ++r) ps.push_back(SpawnPsi(w.p[r], "task"));
  if (!ExpectAllExit(ps, 4000ull * 1000000000ull, "threshold psi")) return;
  Outcome out[2] = {GetOutcome(w.p[0], ps[0]), GetOutcome(w.p[1], ps[1])};
  auto c = ExpectedCounts(w.p[0].tab, w.p[1].tab);
  if (c.inter_keys > thr) sim::Probe("threshold_took_effect");
  if (c.inter_keys == thr) sim::Probe("threshold_exactly_met");
  std::string x = JudgeSuccess(w, out);
  if (!x.empty()) sim::Violation(x.find("aligned") != std::string::npos ? "not-aligned" : "wrong-result", x);
}
sim::Scenario s18("c18_ecdh", Threshold);
sim::Scenario s1("c01_ecdh", [] { Plain(1, false); });
sim::Scenario t1("c04_text", [] { Plain(Param("protocol", 1, 3), Param("joins", 0, 1), Param("content", 1, 2)); });
sim::Scenario t2("c01_quoted", [] { Plain(Param("protocol", 1, 3), false, Param("content", 3, 4)); });
sim::Scenario s2("c02_kkrt", [] { Plain(2, false); });
sim::Scenario s3("c03_rr22", [] { Plain(3, false); });
sim::Scenario s4("c04_join", [] { Plain(Param("protocol", 1, 3), true); });
}  // namespace
