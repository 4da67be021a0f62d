// C26: oblivious key-value stores decode every encoded pair.
#include "harness/world.h"
#include "psi/algorithm/rr22/okvs/baxos.h"
#include "psi/algorithm/rr22/okvs/paxos.h"
#include "yacl/crypto/tools/prg.h"

using namespace hx;
namespace okvs = psi::rr22::okvs;
namespace {
uint128_t U128(Gen& g) { uint64_t a = g.Next(); return yacl::MakeUint128(a, g.Next()); }
int DrawN(const char* name) {
  static const int lo[] = {1, 8, 33, 65, 200}, hi[] = {7, 32, 64, 200, 1500};
  int c = Param("n_class", 0, 4);
  return Param(name, lo[c], hi[c]);
}
struct Case {
  int collide = 0;
  int n, threads, threads2, absent;
  bool prng;
  std::vector<uint128_t> keys, vals, got, other;
  std::string bad;
  bool refused = false;
};
void Draw(Case* c, Gen& g) {
  c->n = DrawN("n");
  c->threads = Param("threads", 0, 6);
  c->threads2 = Param("threads2", 0, 6);
  c->prng = Param("randomised", 0, 1);
  c->collide = Param("collide", 0, 5);
  if (c->collide > 4 || c->n > 32 || c->n < 4) c->collide = 0;
  std::set<std::pair<uint64_t, uint64_t>> seen;
  bool small = Param("smallkeys", 0, 3) == 3;  // structured keys instead of hashes
  for (int i = 0; i < c->n; ++i) {
    uint128_t k = small ? yacl::MakeUint128(0, (uint64_t)i * 7 + 3) : U128(g);
    c->keys.push_back(k);
    c->vals.push_back(Param("zerovals", 0, 9) == 9 ? 0 : U128(g));
  }
}
std::shared_ptr<yacl::crypto::Prg<uint8_t>> MakePrng(const Case& c, Gen& g) {
  uint128_t s = U128(g);
  return c.prng ? std::make_shared<yacl::crypto::Prg<uint8_t>>(s) : nullptr;
}
void Compare(Case* c, const char* what) {
  int bad = 0, first = -1;
  for (int i = 0; i < c->n; ++i)
    if (c->got[i] != c->vals[i]) { bad++; if (first < 0) first = i; }
  if (bad) c->bad = fmt::format("{}: {} of {} keys decode to another value (first: key {})", what, bad, c->n, first);
}
int Report(const Case& c) {
  if (!c.bad.empty()) { sim::SetProcMsg("BAD " + c.bad); return 3; }
  if (c.refused) return 4;
  return 0;
}
void Finish(int p, const std::string& what) {
  if (!sim::WaitProcs({p}, 4000ull * 1000000000ull)) {
    sim::Violation(sim::Deadlocked() ? "hang" : "timeout", what + "; " + sim::ThreadDump());
    return;
  }
  auto& pi = sim::Proc(p);
  if (pi.state != sim::P_EXITED) { sim::Violation("crash", what + ": " + pi.msg); return; }
  if (pi.code == 3) { sim::Violation("wrong-value", what + ": " + (pi.msg + 4)); return; }
  if (pi.code == 4) { sim::Inconclusive("encoding refused this seed"); return; }
  if (pi.code) sim::Violation("crash", what + ": exit " + std::to_string(pi.code) + " " + pi.msg);
}
// makes some keys fall on the same sparse row as an earlier key, the case the
// dense columns exist for and that random keys rarely show
template <class I>
void Collide(Case* c, const okvs::PaxosHash<I>& h, uint64_t weight, Gen g) {
  std::map<std::multiset<I>, int> at;
  std::vector<I> r(weight);
  int done = 0;
  auto row = [&](uint128_t k) { uint128_t hash; h.HashBuildRow1(k, absl::MakeSpan(r), &hash); return std::multiset<I>(r.begin(), r.end()); };
  int m = c->n - c->collide;
  for (int i = 0; i < m; ++i) at[row(c->keys[i])] = i;
  for (int t = 0; t < 4000 && done < c->collide; ++t) {
    uint128_t k = U128(g);
    auto it = at.find(row(k));
    if (it == at.end() || it->second < 0) continue;
    c->keys[m + done++] = k;
    it->second = -1;   // two keys of a row; three would need luck to be solvable
  }
  if (done >= 1) sim::Probe("gap_rows_1+");
  if (done >= 2) sim::Probe("gap_rows_2+");
}
void Baxos() {
  SetupSchedule();
  Gen g(Param("wseed", 1, 1 << 30));
  static Case cs;
  cs = Case();
  Draw(&cs, g);
  int bins = Param("bins", 0, 3);
  int bin_size = bins == 0 ? 1 << 14 : bins == 1 ? std::max(1, cs.n / 2) : bins == 2 ? std::max(1, cs.n / 5) : std::max(4, cs.n / 16);
  bool dup_decode = Param("decode_subset", 0, 1);
  auto dt = Param("dense", 0, 1) ? okvs::PaxosParam::DenseType::Binary : okvs::PaxosParam::DenseType::GF128;
  uint128_t seed = U128(g);
  auto prng = MakePrng(cs, g);
  sim::MarkNontrivial();
  std::string what = fmt::format("Baxos {} keys, bin size {}, {} + {} threads, {}", cs.n, bin_size, cs.threads, cs.threads2, dt == okvs::PaxosParam::DenseType::Binary ? "binary" : "GF128");
  sim::SetSample(what);
  int p = sim::Spawn(0, "okvs", [=]() mutable {
    Case c = cs;
    okvs::Baxos b;
    b.Init(c.n, bin_size, 3, 40, dt, seed);
    if (c.collide && b.num_bins_ == 1) {
      okvs::Paxos<uint32_t> px;
      px.Init(c.n, b.paxos_param_, seed);
      Collide<uint32_t>(&c, px.hasher_, 3, g);
    }
    std::vector<uint128_t> out(b.size());
    try {
      b.Solve(absl::MakeSpan(c.keys), absl::MakeSpan(c.vals), absl::MakeSpan(out), prng, c.threads);
    } catch (const std::exception& e) {
      sim::SetProcMsg(e.what());
      return 4;
    }
    // decode on another object, as the other party does, in another order
    okvs::Baxos b2;
    b2.Init(c.n, bin_size, 3, 40, dt, seed);
    std::vector<size_t> ord(c.n);
    for (int i = 0; i < c.n; ++i) ord[i] = i;
    g.Shuffle(ord);
    int m = dup_decode ? 1 + g.Below(c.n) : c.n;
    std::vector<uint128_t> q(m), r(m);
    for (int i = 0; i < m; ++i) q[i] = c.keys[ord[i]];
    b2.Decode(absl::MakeSpan(q), absl::MakeSpan(r), absl::MakeSpan(out), c.threads2);
    c.got = c.vals;
    for (int i = 0; i < m; ++i) c.got[ord[i]] = r[i];
    Compare(&c, "decode");
    return Report(c);
  });
  Finish(p, what);
}
template <class I>
int RunPaxos(Case c, okvs::PaxosParam::DenseType dt, bool u64, uint128_t seed, std::shared_ptr<yacl::crypto::Prg<uint8_t>> prng, bool twice) {
  okvs::Paxos<I> px, py;
  try {
    px.Init(c.n, 3, 40, dt, seed);
    py.Init(c.n, 3, 40, dt, seed);
    if (c.collide) Collide<I>(&c, px.hasher_, 3, Gen((uint64_t)seed));
    px.SetInput(absl::MakeSpan(c.keys));
  } catch (const std::exception& e) { sim::SetProcMsg(e.what()); return 4; }
  c.got.resize(c.n);
  for (int round = 0; round < (twice ? 2 : 1); ++round) {
    if (round) for (auto& v : c.vals) v = v * 3 + 1;
    if (u64) {
      std::vector<uint64_t> v(c.n), r(c.n), out(px.size());
      for (int i = 0; i < c.n; ++i) { v[i] = (uint64_t)c.vals[i]; c.vals[i] = v[i]; }
      try { px.EncodeU64(absl::MakeSpan(v), absl::MakeSpan(out), prng); } catch (const std::exception& e) { sim::SetProcMsg(e.what()); return 4; }
      py.DecodeU64(absl::MakeSpan(c.keys), absl::MakeSpan(r), absl::MakeSpan(out));
      for (int i = 0; i < c.n; ++i) c.got[i] = r[i];
    } else {
      std::vector<uint128_t> out(px.size());
      try { px.Encode(absl::MakeSpan(c.vals), absl::MakeSpan(out), prng); } catch (const std::exception& e) { sim::SetProcMsg(e.what()); return 4; }
      py.Decode(absl::MakeSpan(c.keys), absl::MakeSpan(c.got), absl::MakeSpan(out));
    }
    Compare(&c, round ? "second encoding" : "encoding");
    if (!c.bad.empty()) break;
  }
  return Report(c);
}
void PaxosS() {
  SetupSchedule();
  Gen g(Param("wseed", 1, 1 << 30));
  static Case cs;
  cs = Case();
  Draw(&cs, g);
  auto dt = Param("dense", 0, 1) ? okvs::PaxosParam::DenseType::Binary : okvs::PaxosParam::DenseType::GF128;
  bool u64 = dt == okvs::PaxosParam::DenseType::Binary && Param("u64", 0, 1);
  int idx = Param("idx", 0, 3);
  if (idx == 0 && cs.n > 60) idx = 1;
  bool twice = Param("twice", 0, 3) == 3;
  uint128_t seed = U128(g);
  auto prng = MakePrng(cs, g);
  sim::MarkNontrivial();
  std::string what = fmt::format("Paxos {} keys, {}, index bytes {}, {} values", cs.n, dt == okvs::PaxosParam::DenseType::Binary ? "binary" : "GF128", 1 << idx, u64 ? "64-bit" : "128-bit");
  sim::SetSample(what);
  int p = sim::Spawn(0, "okvs", [=]() {
    switch (idx) {
      case 0: return RunPaxos<uint8_t>(cs, dt, u64, seed, prng, twice);
      case 1: return RunPaxos<uint16_t>(cs, dt, u64, seed, prng, twice);
      case 2: return RunPaxos<uint32_t>(cs, dt, u64, seed, prng, twice);
      default: return RunPaxos<uint64_t>(cs, dt, u64, seed, prng, twice);
    }
  });
  Finish(p, what);
}
sim::Scenario s1("c26_baxos", Baxos);
sim::Scenario s2("c26_paxos", PaxosS);
}  // namespace
