// C15: spill files and stores give back what was put in, once and in order.
#include <signal.h>
#include <unistd.h>

#include <filesystem>
#include <future>

#include "harness/single.h"
#include "psi/algorithm/ecdh/ub_psi/ub_psi_cache.h"
#include "psi/utils/arrow_csv_batch_provider.h"
#include "psi/utils/batch_provider_impl.h"
#include "psi/utils/ec_point_store.h"
#include "psi/utils/hash_bucket_cache.h"
#include "psi/utils/index_store.h"
#include "psi/utils/multiplex_disk_cache.h"

using namespace hx;
namespace {
struct Item { string data; uint32_t dup; };
// distinct items; with fixed length when len > 0
vector<Item> DrawItems(Gen& g, int n, int len, bool distinct = true) {
  vector<Item> v;
  std::set<string> seen;
  int style = g.Below(3);
  while ((int)v.size() < n) {
    string d = len ? RandData(g, len) : style == 0 ? RandData(g, g.Below(20)) : style == 1 ? "k," + std::to_string(g.Below(4 * n + 8)) + "\n" : RandData(g, 1 + g.Below(40));
    if (distinct && !seen.insert(d).second) { style = 2; continue; }
    v.push_back({d, g.P(0.3) ? (uint32_t)g.Below(g.P(0.1) ? 4000000000u : 5) : 0});
  }
  return v;
}
using BI = psi::HashBucketCache::BucketItem;
// buckets `got` hold exactly the first n items
void CheckBuckets(const vector<vector<BI>>& got, const vector<Item>& items, size_t n, const char* what) {
  std::map<uint64_t, int> seen;
  std::map<string, size_t> bin;
  for (size_t b = 0; b < got.size(); ++b) {
    int64_t last = -1;
    for (auto& it : got[b]) {
      CHECK_(it.index < n, "{}: bucket {} holds index {} of {} items", what, b, it.index, n);
      CHECK_(it.base64_data == absl::Base64Escape(items[it.index].data), "{}: item {} came back with other data", what, it.index);
      CHECK_(it.extra_dup_cnt == items[it.index].dup, "{}: item {} came back with count {} instead of {}", what, it.index, it.extra_dup_cnt, items[it.index].dup);
      CHECK_((int64_t)it.index > last, "{}: bucket {} is out of order at index {}", what, b, it.index);
      last = it.index;
      CHECK_(!seen[it.index]++, "{}: item {} came back twice", what, it.index);
      auto f = bin.emplace(it.base64_data, b).first;
      CHECK_(f->second == b, "{}: equal items in buckets {} and {}", what, f->second, b);
    }
  }
  CHECK_(seen.size() == n, "{}: {} of {} items came back", what, seen.size(), n);
}
template <class C> vector<vector<BI>> LoadAll(C& c, int bins, bool threads) {
  vector<vector<BI>> r(bins);
  if (threads) {
    vector<std::future<void>> f;
    for (int b = 0; b < bins; ++b) f.push_back(std::async(std::launch::async, [&, b] { r[b] = c.LoadBucketItems(b); }));
    std::exception_ptr e;
    for (auto& x : f) try { x.get(); } catch (...) { e = std::current_exception(); }
    if (e) std::rethrow_exception(e);
  } else {
    for (int b = 0; b < bins; ++b) r[b] = c.LoadBucketItems(b);
  }
  return r;
}
// ---- hash bucket cache -------------------------------------------------
struct HbcOp { int op; long n; };
struct HbcRun {
  int bins; bool threads; bool scoped;
  vector<Item> items;
  vector<HbcOp> ops;
};
// done: contents the cache has; returns when the history is through
void HbcHistory(const HbcRun& r, const string& dir, size_t have, size_t from_op, bool reopened) {
  auto c = std::make_unique<psi::HashBucketCache>(dir, r.bins, r.scoped);
  if (reopened) {
    c->Truncate(have);
    SetAck(have, from_op);
    CheckBuckets(LoadAll(*c, r.bins, r.threads), r.items, have, "after reopening");
  }
  size_t n = have, acked = have;
  for (size_t i = from_op; i < r.ops.size(); ++i) {
    auto& o = r.ops[i];
    switch (o.op) {
      case 0: for (long k = 0; k < o.n && n < r.items.size(); ++k, ++n) c->WriteItem(r.items[n].data, r.items[n].dup); break;
      case 1: c->Flush(); SetAck(acked = n, i + 1); break;
      case 2: c->Flush(); SetAck(acked = n, i + 1); CheckBuckets(LoadAll(*c, r.bins, r.threads), r.items, n, "loaded"); break;
      case 3: {
        size_t t = n ? (o.n * n) / 1000 : 0;
        // until it returns, either count may be what survives a kill
        SetAck(std::min(acked, t), i);
        c->Truncate(t);
        SetAck(acked = n = t, i + 1);
        CHECK_(c->ItemCount() == n, "ItemCount {} after a truncation to {}", c->ItemCount(), n);
        break;
      }
      case 4: if (!r.scoped) {
        c->Flush(); SetAck(acked = n, i);
        c.reset();
        c = std::make_unique<psi::HashBucketCache>(dir, r.bins, false);
        c->Truncate(n);
        SetAck(acked = n, i + 1);
        break;
      }
    }
    CHECK_(c->ItemCount() == n, "ItemCount {} after {} items", c->ItemCount(), n);
  }
  c->Flush();
  SetAck(n, r.ops.size());
  CheckBuckets(LoadAll(*c, r.bins, r.threads), r.items, n, "at the end");
}
void Hbc() {
  Begin();
  Gen g(Param("wseed", 1, 1 << 30));
  HbcRun r;
  r.bins = Param("bins", 1, 9);
  r.threads = Param("threads", 0, 1);
  r.scoped = !g_crash && Param("scoped", 0, 1);
  int n = DrawN(0, 250);
  r.items = DrawItems(g, n, Param("fixed_len", 0, 1) ? 12 + g.Below(21) : 0);
  int m = Param("ops", 1, 14);
  for (int i = 0; i < m; ++i) {
    int o = g.Below(10);
    r.ops.push_back({o < 5 ? 0 : o < 6 ? 1 : o < 7 ? 2 : o < 8 ? 3 : o < 9 ? 4 : 1, 0});
    auto& b = r.ops.back();
    b.n = b.op == 3 ? g.Below(1001) : g.Below(n + 1);
  }
  string what = fmt::format("bucket cache: {} bins, {} items, {} ops", r.bins, n, m);
  sim::SetSample(what);
  Arm();
  string dir = Dir();
  Ack a;
  int rc = RunProc(what, [=] { HbcHistory(r, dir, 0, 0, false); }, g_faults, &a);
  NoFaults();
  // the killed process' flushed items survive
  if (rc == 1) {
    sim::Probe("killed");
    RunProc(what + fmt::format(", killed, reopened at {}", a.a), [=] { HbcHistory(r, dir, a.a, a.b, true); }, false);
  }
}

// ---- index files ---------------------------------------------------------
using IdxVec = vector<std::pair<uint64_t, uint64_t>>;
IdxVec ReadIdx(psi::IndexReader& rd, Gen g) {
  IdxVec v;
  bool pc = g.Below(2);
  for (;;) {
    int k = g.Below(3);
    bool more = true;
    if (k == 0) more = rd.HasNext();
    if (k == 0 && g.Below(2)) CHECK_(rd.HasNext() == more, "HasNext changes its mind at {}", v.size());
    if (pc) {
      auto x = rd.GetNextWithPeerCnt();
      CHECK_(k || more == x.has_value(), "HasNext says {} at {}", more, v.size());
      if (!x) break;
      v.push_back(*x);
    } else {
      auto x = rd.GetNext();
      CHECK_(k || more == x.has_value(), "HasNext says {} at {}", more, v.size());
      if (!x) break;
      v.push_back({*x, ~0ull});
    }
    CHECK_(rd.read_cnt() == v.size(), "read_cnt {} after {} reads", rd.read_cnt(), v.size());
  }
  CHECK_(!rd.HasNext(), "HasNext after the end");
  return v;
}
void SameIdx(const IdxVec& got, const IdxVec& want, size_t lo, const char* what) {
  // got must start with the first `lo` and be a prefix of want
  CHECK_(got.size() >= lo && got.size() <= want.size(), "{}: {} indices came back, {} were written ({} committed)", what, got.size(), want.size(), lo);
  for (size_t i = 0; i < got.size(); ++i) {
    CHECK_(got[i].first == want[i].first, "{}: index {} came back as {} instead of {}", what, i, got[i].first, want[i].first);
    CHECK_(got[i].second == ~0ull || got[i].second == want[i].second, "{}: peer count {} came back as {} instead of {}", what, i, got[i].second, want[i].second);
  }
}
struct IdxRun { IdxVec v; vector<HbcOp> ops; size_t cache; bool counts; };
// `have`: what the file holds already
void IdxHistory(const IdxRun& r, const string& path, size_t have, size_t from, Gen g) {
  auto w = std::make_unique<psi::IndexWriter>(path, r.cache, from == 0);
  size_t n = have, acked = have;
  SetAck(n, from, n, 1);
  for (size_t i = from; i < r.ops.size(); ++i) {
    auto& o = r.ops[i];
    switch (o.op) {
      case 0: case 1: {
        size_t m = std::min<size_t>(o.n, r.v.size() - n);
        if (o.op == 0) for (size_t k = 0; k < m; ++k) r.counts ? w->WriteCache(r.v[n + k].first, r.v[n + k].second) : w->WriteCache(r.v[n + k].first);
        else {
          vector<uint64_t> a, b;
          for (size_t k = 0; k < m; ++k) { a.push_back(r.v[n + k].first); b.push_back(r.v[n + k].second); }
          r.counts ? w->WriteCache(a, b) : w->WriteCache(a);
        }
        n += m;
        SetAck(acked, i + 1, n, 1);
        break;
      }
      case 2: w->Commit(); SetAck(acked = n, i + 1, n, 1); break;
      case 3: w->Close(); SetAck(acked = n, i, n, 1); {
        psi::FileIndexReader rd(path);
        SameIdx(ReadIdx(rd, g), r.v, n, "closed");
        CHECK_(rd.read_cnt() == n, "{} of {} indices came back", rd.read_cnt(), n);
        w = std::make_unique<psi::IndexWriter>(path, r.cache, false);
        SetAck(acked = n, i + 1, n, 1);
        break;
      }
    }
  }
  w->Close();
  SetAck(n, r.ops.size(), n, 1);
  w.reset();
  psi::FileIndexReader rd(path);
  auto got = ReadIdx(rd, g);
  IdxVec want(r.v.begin(), r.v.begin() + n);
  SameIdx(got, want, n, "at the end");
}
void Idx() {
  Begin();
  Gen g(Param("wseed", 1, 1 << 30));
  IdxRun r;
  static const size_t cs[] = {1, 4, 64, 1024};
  r.cache = cs[Param("cache", 0, 3)];
  r.counts = Param("counts", 0, 1);
  int n = DrawN(1, 300);
  uint64_t x = 0;
  bool sorted = Param("sorted", 0, 1);
  for (int i = 0; i < n; ++i) {
    x += 1 + g.Below(g.P(0.05) ? 1000000000ull : 10);
    r.v.push_back({sorted ? x : g.Below(1u << 31), r.counts ? g.Below(g.P(0.1) ? 1u << 31 : 4) : 0});
  }
  int m = Param("ops", 1, 12);
  for (int i = 0; i < m; ++i) { int o = g.Below(8); r.ops.push_back({o < 3 ? 0 : o < 5 ? 1 : o < 7 ? 2 : 3, (long)g.Below(n + 1)}); }
  r.ops.push_back({0, 1});   // never empty at the end
  for (auto& o : r.ops) if (o.op == 3) { r.ops.insert(r.ops.begin(), {0, 1}); break; }
  string what = fmt::format("index file: {} indices, {} ops", n, m);
  sim::SetSample(what);
  Arm();
  string path = Dir() + "/idx.csv";
  Ack a;
  int rc = RunProc(what, [=] { IdxHistory(r, path, 0, 0, g); }, g_faults, &a);
  NoFaults();
  if (rc != 1) return;
  sim::Probe("killed");
  // reopened: what was committed is there, followed by at most what was on its
  // way; from there on it continues
  RunProc(what + ", killed, reopened", [=] {
    if (!a.d) return;   // killed before the first open returned
    { psi::IndexWriter w(path, r.cache, false); }
    size_t have = 0;
    {
      psi::FileIndexReader rd(path);
      auto got = ReadIdx(rd, g);
      // a write in flight may be among the following items of the history
      SameIdx(got, r.v, a.a, "after the kill");
      have = got.size();
    }
    IdxRun r2 = r;
    r2.ops.insert(r2.ops.begin(), {0, 0});
    IdxHistory(r2, path, have, 1, g);
  }, false);
}
void MemIdx() {
  Begin();
  NoFaults();
  Gen g(Param("wseed", 1, 1 << 30));
  int n = DrawN(0, 300);
  std::map<uint32_t, uint32_t> m;
  for (int i = 0; i < n; ++i) m[(uint32_t)g.Below(g.P(0.1) ? 4000000000u : 4 * n + 4)] = (uint32_t)g.Below(5);
  vector<std::pair<uint32_t, uint32_t>> v(m.begin(), m.end());
  g.Shuffle(v);
  sim::SetSample(fmt::format("memory index reader: {} indices", v.size()));
  sim::MarkNontrivial();
  RunProc("memory index reader", [=] {
    vector<uint32_t> a, b;
    for (auto& x : v) { a.push_back(x.first); b.push_back(x.second); }
    psi::MemoryIndexReader rd(a, b);
    auto got = ReadIdx(rd, g);
    IdxVec want;
    for (auto& x : m) want.push_back({x.first, x.second});
    SameIdx(got, want, want.size(), "memory index reader");
  }, false);
}

// ---- point stores --------------------------------------------------------
void Points() {
  Begin();
  if (g_crash) g_crash = false;
  Gen g(Param("wseed", 1, 1 << 30));
  int n = DrawN(0, 200), bins = Param("bins", 1, 9), n2 = Param("n_peer", 0, n + 10), api = Param("api", 0, 2);
  bool par = Param("parallel", 0, 1), scoped = Param("scoped", 0, 1);
  auto uni = DrawItems(g, n + n2 + 1, 12 + g.Below(21));
  vector<Item> self(uni.begin(), uni.begin() + n), peer;
  for (int i = 0; i < n2; ++i) peer.push_back(i < n && g.P(0.6) ? self[i] : uni[n + i]);
  for (auto& x : peer) x.dup = g.P(0.3) ? (uint32_t)g.Below(6) : 0;
  g.Shuffle(peer);
  bool map_api = Param("map_api", 0, 1);
  string what = fmt::format("point stores: {} and {} items, {} bins, api {}", n, n2, bins, api);
  sim::SetSample(what);
  Arm();
  string dir = Dir();
  fs::create_directories(dir + "/a"); fs::create_directories(dir + "/b");
  RunProc(what, [=]() mutable {
    auto A = std::make_shared<psi::HashBucketEcPointStore>(scoped ? dir : dir + "/a", bins, scoped);
    auto B = std::make_shared<psi::HashBucketEcPointStore>(scoped ? dir : dir + "/b", bins, scoped);
    auto put = [&](psi::HashBucketEcPointStore& st, const vector<Item>& v, Gen q) {
      psi::IEcPointStore& s = st;
      size_t i = 0;
      while (i < v.size()) {
        size_t m = std::min<size_t>(1 + q.Below(40), v.size() - i);
        if (map_api) {
          vector<string> c; std::unordered_map<uint32_t, uint32_t> d;
          for (size_t k = 0; k < m; ++k) { c.push_back(v[i + k].data); if (v[i + k].dup) d[k] = v[i + k].dup; }
          s.Save(c, d);
        } else {
          for (size_t k = 0; k < m; ++k) s.Save(v[i + k].data, v[i + k].dup);
        }
        i += m;
        if (q.P(0.2)) s.Flush();
        CHECK_(s.ItemCount() == i, "ItemCount {} after {} items", s.ItemCount(), i);
      }
    };
    Gen g1(g.Next()), g2(g.Next());
    if (par) {
      auto f = std::async(std::launch::async, [&] { put(*B, peer, g2); });
      std::exception_ptr e;
      try { put(*A, self, g1); } catch (...) { e = std::current_exception(); }
      f.get();
      if (e) std::rethrow_exception(e);
    } else { put(*A, self, g1); put(*B, peer, g2); }
    std::map<string, uint32_t> pm;
    uint32_t tot = 0, inter = 0;
    for (auto& x : peer) { pm[x.data] = x.dup; tot += x.dup + 1; }
    std::map<uint64_t, uint64_t> want;
    for (size_t i = 0; i < self.size(); ++i) if (pm.count(self[i].data)) { want[i] = pm[self[i].data]; inter += want[i] + 1; }
    if (api == 0) {
      auto v = psi::FinalizeAndComputeIndices(A, B);
      vector<uint64_t> w;
      for (auto& x : want) w.push_back(x.first);
      CHECK_(v == w, "FinalizeAndComputeIndices gives {} indices, {} expected (or others, or unsorted)", v.size(), w.size());
    } else if (api == 1) {
      string path = dir + "/out.csv";
      psi::IndexWriter wr(path, 1 + g.Below(20), true);
      auto [t, in] = psi::FinalizeAndComputeIndices(A, B, &wr);
      wr.Close();
      CHECK_(t == tot && in == inter, "peer counts {} and {}, expected {} and {}", t, in, tot, inter);
      std::map<uint64_t, uint64_t> got;
      if (want.empty()) { CHECK_(SplitLines(ReadFile(path)).size() == 1, "indices where there are none"); }
      else {
        psi::FileIndexReader rd(path);
        while (auto x = rd.GetNextWithPeerCnt()) CHECK_(got.emplace(x->first, x->second).second, "index {} twice", x->first);
        CHECK_(got == want, "the indices differ: {} instead of {}", got.size(), want.size());
      }
    } else {
      A->Flush(); B->Flush();
      vector<vector<BI>> x, y;
      for (int b = 0; b < bins; ++b) { x.push_back(A->LoadBucketItems(b)); y.push_back(B->LoadBucketItems(b)); }
      CheckBuckets(x, self, self.size(), "self");
      CheckBuckets(y, peer, peer.size(), "peer");
      std::map<string, int> bx;
      for (int b = 0; b < bins; ++b) for (auto& it : x[b]) bx[it.base64_data] = b;
      for (int b = 0; b < bins; ++b) for (auto& it : y[b]) CHECK_(!bx.count(it.base64_data) || bx[it.base64_data] == b, "the two stores put an item into different buckets");
    }
  }, g_faults);
}

// ---- unbalanced PSI: the client's file store, compared with a memory store --
void CheckFileStore(psi::UbPsiClientCacheFileStore& s, const vector<Item>& items, size_t n, size_t batch, const char* what) {
  uint64_t peer = 0;
  for (size_t i = 0; i < n; ++i) peer += items[i].dup + 1;
  CHECK_(s.ItemCount() == n, "{}: ItemCount {} of {}", what, s.ItemCount(), n);
  CHECK_((uint32_t)s.PeerCount() == (uint32_t)peer, "{}: PeerCount {} of {}", what, s.PeerCount(), peer);
  auto p = s.GetBatchProvider(batch);
  size_t at = 0;
  for (;;) {
    auto [v, d] = p->ReadNextBatchWithDupCnt();
    if (v.empty()) break;
    CHECK_(v.size() == std::min(batch, n - at), "{}: batch of {} at {} of {}", what, v.size(), at, n);
    for (size_t i = 0; i < v.size(); ++i) {
      CHECK_(v[i] == items[at + i].data, "{}: item {} came back with other data", what, at + i);
      auto it = d.find(i);
      CHECK_((it == d.end() ? 0 : it->second) == items[at + i].dup, "{}: item {} came back with another count", what, at + i);
    }
    at += v.size();
  }
  CHECK_(at == n, "{}: {} of {} items came back", what, at, n);
}
struct UbRun { int len; vector<Item> items; vector<HbcOp> ops; size_t batch; };
void UbHistory(const UbRun& r, const string& path, size_t have, size_t from) {
  auto s = std::make_unique<psi::UbPsiClientCacheFileStore>(path, r.len);
  size_t n = have;
  if (from) CHECK_(s->ItemCount() == n, "{} items after reopening, {} flushed", s->ItemCount(), n);
  for (size_t i = from; i < r.ops.size(); ++i) {
    auto& o = r.ops[i];
    if (o.op == 0) { for (long k = 0; k < o.n && n < r.items.size(); ++k, ++n) s->Save(r.items[n].data, r.items[n].dup); SetAck(have, i + 1, n, 1); }
    if (o.op == 1) { SetAck(have, i, n, 2); s->Flush(); SetAck(have = n, i + 1, n, 1); }
    if (o.op == 2) { SetAck(have, i, n, 2); s->Flush(); SetAck(have = n, i + 1, n, 1); CheckFileStore(*s, r.items, n, r.batch, "flushed"); }
    if (o.op == 3) { SetAck(have, i, n, 2); s->Flush(); SetAck(have = n, i + 1, n, 1); s.reset(); s = std::make_unique<psi::UbPsiClientCacheFileStore>(path, r.len); CheckFileStore(*s, r.items, n, r.batch, "reopened"); }
  }
  s->Flush();
  SetAck(n, r.ops.size(), n, 1);
  CheckFileStore(*s, r.items, n, r.batch, "at the end");
}
void UbFile() {
  Begin();
  Gen g(Param("wseed", 1, 1 << 30));
  UbRun r;
  r.len = Param("len", 1, 32);
  if (r.len < 6) r.len = 12;
  int n = DrawN(0, 900);
  r.items = DrawItems(g, n, r.len);
  for (auto& x : r.items) x.dup %= 1000;
  r.batch = Param("batch_class", 0, 2) == 0 ? 1 + g.Below(3) : 1 + g.Below(n + 5);
  int m = Param("ops", 1, 10);
  for (int i = 0; i < m; ++i) { int o = g.Below(7); r.ops.push_back({o < 4 ? 0 : o - 3, (long)g.Below(n + 1)}); }
  string what = fmt::format("client cache: {} items of {} bytes, {} ops, batch {}", n, r.len, m, r.batch);
  sim::SetSample(what);
  Arm();
  string path = Dir() + "/c/server_cache";
  Ack a;
  int rc = RunProc(what, [=] { UbHistory(r, path, 0, 0); }, g_faults, &a);
  NoFaults();
  if (rc != 1) return;
  sim::Probe("killed");
  // either refused or exactly what was flushed (or what was being flushed)
  if (!a.d) return;
  RunProc(what + ", killed, reopened", [=] {
    try {
      auto s = std::make_unique<psi::UbPsiClientCacheFileStore>(path, r.len);
      size_t n = s->ItemCount();
      if (!fs::exists(path + ".meta")) return;   // nothing was ever flushed: not a complete cache
      if (n != (size_t)a.a && n != (size_t)a.c) throw Bad{fmt::format("{} items after the kill, {} flushed, {} written", n, a.a, a.c)};
      CheckFileStore(*s, r.items, n, r.batch, "after the kill");
      // and it goes on from there
      size_t k = n;
      for (; k < r.items.size(); ++k) s->Save(r.items[k].data, r.items[k].dup);
      s->Flush();
      CheckFileStore(*s, r.items, k, r.batch, "continued after the kill");
      sim::Probe("continued");
    } catch (const Bad&) { throw; } catch (const std::exception& e) { sim::Probe("reopening_refused"); }
  }, false);
}
void UbCompare() {
  Begin();
  g_crash = false;
  Gen g(Param("wseed", 1, 1 << 30));
  int len = Param("len", 12, 32), n = DrawN(0, 150), m = Param("n_peer", 0, 150), batch = Param("batch", 1, 200);
  if (Param("batch_small", 0, 2) == 0) batch = 1 + batch % 5;
  auto uni = DrawItems(g, n + m, len);
  vector<Item> self(uni.begin(), uni.begin() + n), peer;
  for (int i = 0; i < m; ++i) peer.push_back(i < n && g.P(0.6) ? self[i] : uni[n + i]);
  for (auto& x : peer) x.dup = g.P(0.4) ? (uint32_t)g.Below(6) : 0;
  for (auto& x : self) x.dup = g.P(0.4) ? (uint32_t)g.Below(6) : 0;
  g.Shuffle(peer);
  string what = fmt::format("comparison of {} own and {} cached items, batch {}", n, m, batch);
  sim::SetSample(what);
  Arm();
  string path = Dir() + "/server_cache";
  RunProc(what, [=] {
    auto A = std::make_shared<psi::UbPsiClientCacheMemoryStore>();
    auto B = std::make_shared<psi::UbPsiClientCacheFileStore>(path, len);
    for (auto& x : self) A->Save(x.data, x.dup);
    for (auto& x : peer) B->Save(x.data, x.dup);
    auto info = psi::ComputeIndicesWithDupCnt(A, B, batch);
    size_t k = info.self_indices.size();
    CHECK_(info.peer_indices.size() == k && info.self_dup_cnt.size() == k && info.peer_dup_cnt.size() == k, "lists of different lengths");
    std::map<string, size_t> at;
    for (size_t i = 0; i < self.size(); ++i) at[self[i].data] = i;
    size_t want = 0;
    for (auto& x : peer) want += at.count(x.data);
    CHECK_(k == want, "{} matches, {} expected", k, want);
    std::set<uint32_t> seen;
    for (size_t i = 0; i < k; ++i) {
      uint32_t p = info.peer_indices[i], s = info.self_indices[i];
      CHECK_(p < peer.size() && s < self.size(), "index out of range");
      CHECK_(seen.insert(p).second, "peer index {} twice", p);
      CHECK_(self[s].data == peer[p].data, "self {} and peer {} are not equal", s, p);
      CHECK_(info.self_dup_cnt[i] == self[s].dup && info.peer_dup_cnt[i] == peer[p].dup, "counts {} {} instead of {} {}", info.self_dup_cnt[i], info.peer_dup_cnt[i], self[s].dup, peer[p].dup);
    }
  }, g_faults);
}
// ---- unbalanced PSI: the server's cache ------------------------------------
void UbServer() {
  Begin();
  g_crash = false;
  Gen g(Param("wseed", 1, 1 << 30));
  int len = Param("len", 6, 31), n = DrawN(0, 200), api = Param("api", 0, 2), batch = Param("batch", 1, 220);
  if (Param("batch_small", 0, 2) == 0) batch = 1 + batch % 5;
  bool again = Param("again", 0, 2) == 2;   // a cache over an earlier one
  auto items = DrawItems(g, n, len);
  vector<size_t> sh(n);
  for (int i = 0; i < n; ++i) sh[i] = i;
  g.Shuffle(sh);
  string key = RandData(g, 32);
  string what = fmt::format("server cache: {} items of {} bytes, batch {}", n, len, batch);
  sim::SetSample(what);
  Arm();
  string dir = Dir();
  RunProc(what, [=]() mutable {
    vector<string> cols = {"id", "na,me"};
    for (int round = again ? 0 : 1; round < 2; ++round) {
      psi::UbPsiCache c(dir, len, cols, {key.begin(), key.end()});
      for (int i = 0; i < (round ? n : n / 2); ++i) {
        c.SaveData(items[round ? i : n - 1 - i].data, i, sh[i], items[i].dup);
        if (g.P(0.05)) c.Flush();
      }
      c.Flush();
    }
    psi::UbPsiCacheProvider p(dir, batch);
    CHECK_(p.GetSelectedFields() == cols, "the key columns changed");
    auto k = p.GetCachePrivateKey();
    CHECK_(string(k.begin(), k.end()) == key, "the key changed");
    size_t at = 0;
    for (;;) {
      vector<string> v;
      psi::IShuffledBatchProvider::ShuffledBatch sb;
      std::unordered_map<uint32_t, uint32_t> d;
      if (api == 0) v = p.ReadNextBatch();
      else if (api == 1) { auto r = p.ReadNextBatchWithDupCnt(); v = r.first; d = r.second; }
      else { sb = p.ReadNextShuffledBatch(); v = sb.batch_items; }
      if (v.empty()) break;
      CHECK_(v.size() == std::min<size_t>(batch, n - at), "batch of {} at {} of {}", v.size(), at, n);
      for (size_t i = 0; i < v.size(); ++i, ++at) {
        CHECK_(v[i] == items[at].data, "item {} came back with other data", at);
        if (api == 1) { auto it = d.find(i); CHECK_((it == d.end() ? 0 : it->second) == items[at].dup, "item {}: another count", at); }
        if (api == 2) CHECK_(sb.batch_indices[i] == at && sb.shuffled_indices[i] == sh[at] && sb.dup_cnts[i] == items[at].dup, "item {}: other indices or count", at);
      }
    }
    CHECK_((int)at == n, "{} of {} items came back", at, n);
    CHECK_(p.ReadNextBatch().empty(), "items after the end");
  }, g_faults);
}
// ---- plain multi-file cache, caches from tables and providers ------------------
void Misc() {
  Begin();
  g_crash = false;
  Gen g(Param("wseed", 1, 1 << 30));
  int kind = Param("kind", 0, 3), n = DrawN(1, 200), bins = Param("bins", 1, 9), batch = Param("batch", 1, 120);
  string dir = Dir();
  string what = fmt::format("misc kind {} of {} items, {} bins, batch {}", kind, n, bins, batch);
  sim::SetSample(what);
  vector<string> keys;
  vector<vector<string>> rows;
  bool two = Param("two", 0, 1);
  for (int i = 0; i < n; ++i) {
    string a = "a" + std::to_string(g.Below(1000000)) + "x" + std::to_string(i), b = std::to_string(g.Below(50));
    keys.push_back(two ? a + "," + b : a);
    rows.push_back({b, a, "p" + std::to_string(i)});
  }
  vector<string> cols = {"num", "id", "pay"}, sel = two ? vector<string>{"id", "num"} : vector<string>{"id"};
  WriteFile(dir + "/in.csv", CsvOf(cols, rows));
  vector<Item> items;
  for (auto& k : keys) items.push_back({k, 0});
  Arm();
  RunProc(what, [=]() mutable {
    if (kind == 0) {
      auto c = psi::CreateCacheFromCsv(dir + "/in.csv", sel, dir + "/c", bins, batch, g.Below(2));
      CHECK_((int)c->ItemCount() == n, "ItemCount {} of {}", c->ItemCount(), n);
      CheckBuckets(LoadAll(*c, bins, g.Below(2)), items, n, "cache from csv");
    } else if (kind == 1) {
      auto p = std::make_shared<psi::ArrowCsvBatchProvider>(dir + "/in.csv", sel, batch);
      // CreateCacheFromProvider asks for the counts of every item
      struct P : psi::IBasicBatchProvider {
        std::shared_ptr<psi::IBasicBatchProvider> p; uint32_t at = 0;
        size_t batch_size() const override { return p->batch_size(); }
        vector<string> ReadNextBatch() override { return p->ReadNextBatch(); }
        std::pair<vector<string>, std::unordered_map<uint32_t, uint32_t>> ReadNextBatchWithDupCnt() override {
          auto v = p->ReadNextBatch(); std::unordered_map<uint32_t, uint32_t> d;
          for (size_t i = 0; i < v.size(); ++i, ++at) if (at % 3 == 1) d[i] = at % 7;
          return {v, d};
        }
      };
      auto q = std::make_shared<P>(); q->p = p;
      auto c = psi::CreateCacheFromProvider(q, dir + "/c", bins, g.Below(2));
      auto it2 = items;
      for (int i = 0; i < n; ++i) if (i % 3 == 1) it2[i].dup = i % 7;
      CheckBuckets(LoadAll(*c, bins, g.Below(2)), it2, n, "cache from provider");
    } else if (kind == 2) {
      vector<string> q; std::set<string> s;
      for (auto& k : keys) if (g.P(0.4)) { q.push_back(k); s.insert(k); }
      for (int i = 0; i < 5; ++i) q.push_back("absent" + std::to_string(i));
      g.Shuffle(q);
      auto v = psi::GetIndicesByItems(dir + "/in.csv", sel, q, batch);
      vector<uint64_t> w;
      for (int i = 0; i < n; ++i) if (s.count(keys[i])) w.push_back(i);
      CHECK_(v == w, "GetIndicesByItems gives {} indices, {} expected (or others, or out of order)", v.size(), w.size());
    } else {
      fs::create_directories(dir + "/m");
      psi::MultiplexDiskCache c(dir + "/m", g.Below(2), "pre");
      vector<vector<string>> want(bins);
      {
        vector<std::unique_ptr<psi::io::OutputStream>> o;
        c.CreateOutputStreams(bins, &o);
        CHECK_((int)o.size() == bins, "{} streams for {} bins", o.size(), bins);
        bool par = g.Below(2);
        for (int i = 0; i < n; ++i) want[g.Below(bins)].push_back(rows[i][1]);
        auto wr = [&](int b) { for (auto& l : want[b]) { o[b]->Write(l); o[b]->Write("\n"); } o[b]->Flush(); o[b]->Close(); };
        if (par) {
          vector<std::future<void>> f;
          for (int b = 0; b < bins; ++b) f.push_back(std::async(std::launch::async, wr, b));
          std::exception_ptr e;
          for (auto& x : f) try { x.get(); } catch (...) { e = std::current_exception(); }
          if (e) std::rethrow_exception(e);
        } else for (int b = 0; b < bins; ++b) wr(b);
      }
      for (int b = 0; b < bins; ++b) {
        auto in = c.CreateInputStream(b);
        vector<string> got; string l;
        while (in->GetLine(&l)) got.push_back(l);
        CHECK_(got == want[b], "bin {} gives back {} of {} lines (or others)", b, got.size(), want[b].size());
      }
    }
  }, g_faults);
}
void Store() {
  static void (*fn[])() = {Hbc, Hbc, Idx, Idx, MemIdx, Points, Points, UbFile, UbFile, UbCompare, UbServer, Misc};
  fn[Param("what", 0, 11)]();
}
sim::Scenario s1("c15_store", Store);
}  // namespace
