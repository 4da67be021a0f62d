// C16: batch readers deliver every row exactly once and in order.
#include <numeric>
#include <optional>

#include "harness/single.h"
#include "psi/utils/arrow_csv_batch_provider.h"
#include "psi/utils/batch_provider_impl.h"
#include "psi/utils/index_store.h"
#include "psi/utils/table_utils.h"

namespace {
// a table with `nk` key columns and `nl` label columns at drawn places among others
struct Tbl {
  vector<string> cols, keys, labels;
  vector<vector<string>> rows;
  vector<vector<string>> KV;   // the key values of every row
  vector<string> K, L;   // joined keys and labels of every row
  string path;
};
string Quote(const string& v, bool q) {
  if (!q) return v;
  string s = "\"";
  for (char c : v) { s += c; if (c == '"') s += c; }
  return s + "\"";
}
string Joined(const vector<string>& v, char d) {
  string s;
  for (size_t i = 0; i < v.size(); ++i) { if (i) s += d; s += v[i]; }
  return s;
}
Tbl DrawTbl(Gen& g, int n, int dom, bool special, char delim = ',') {
  Tbl t;
  int nk = 1 + g.Below(3), nl = g.Below(3), no = g.Below(3);
  vector<std::pair<int, string>> c;
  for (int i = 0; i < nk; ++i) c.push_back({0, "k" + std::to_string(i)});
  for (int i = 0; i < nl; ++i) c.push_back({1, "l" + std::to_string(i)});
  for (int i = 0; i < no; ++i) c.push_back({2, "o" + std::to_string(i)});
  g.Shuffle(c);
  for (auto& x : c) { t.cols.push_back(x.second); if (x.first == 0) t.keys.push_back(x.second); if (x.first == 1) t.labels.push_back(x.second); }
  g.Shuffle(t.keys);
  g.Shuffle(t.labels);
  auto at = [&](const string& s) { return std::find(t.cols.begin(), t.cols.end(), s) - t.cols.begin(); };
  for (int r = 0; r < n; ++r) {
    vector<string> row;
    for (auto& x : c) {
      if (x.first == 0) row.push_back((g.P(0.2) ? "key" : "") + std::to_string(g.Below(dom)));
      else if (x.first == 1) row.push_back("L" + std::to_string(r) + (special && g.P(0.2) ? ",\"q\"" : ""));
      else row.push_back(g.P(0.1) ? "" : "x" + std::to_string(g.Below(1000)));
      if (special && x.first == 0 && g.P(0.2)) row.back() += g.P(0.5) ? ", or" : " \"it\"";
    }
    if (row.size() > 1 && special && g.P(0.03)) row[0].clear();
    t.rows.push_back(row);
    vector<string> k, l;
    for (auto& x : t.keys) k.push_back(row[at(x)]);
    for (auto& x : t.labels) l.push_back(row[at(x)]);
    t.KV.push_back(k);
    t.K.push_back(Joined(k, delim));
    t.L.push_back(Joined(l, delim));
  }
  return t;
}
// Keys of several columns may be joined in any way that keeps different ones
// apart; those without odd characters read as documented.
struct KeyForms {
  std::map<vector<string>, string> to;
  std::map<string, vector<string>> from;
  bool Ok(const vector<string>& v, const string& plain, const string& got) {
    bool odd = false;
    for (auto& x : v) odd |= x.find_first_of(",|\"") != string::npos;
    if (v.size() < 2 || !odd) { if (got != plain) return false; }
    return to.emplace(v, got).first->second == got && from.emplace(got, v).first->second == v;
  }
};
string CsvText(const Tbl& t, Gen& g) {
  vector<vector<string>> rows = t.rows;
  for (auto& r : rows) for (auto& v : r) v = Quote(v, v.find_first_of(",\"") != string::npos || g.P(0.05));
  string s = CsvOf(t.cols, rows);
  if (g.P(0.2) && !rows.empty()) s.pop_back();   // no newline at the end
  return s;
}
// n elements arrive in batches of `batch`; calls next until it gives an empty one
void CheckSize(size_t got, size_t batch, size_t at, size_t n) {
  CHECK_(got == std::min(batch, n - at), "a batch of {} at {} of {} (batch size {})", got, at, n, batch);
}

// ---- rows of a csv file ----------------------------------------------------
void Csv() {
  Begin();
  g_crash = false;
  Gen g(Param("wseed", 1, 1 << 30));
  int n = DrawN(0, 200), batch = Param("batch_class", 0, 2) == 0 ? Param("batch", 1, 3) : Param("batch", 1, 90);
  char delim = Param("delim", 0, 3) == 0 ? '|' : ',';
  Tbl t = DrawTbl(g, n, 1 + g.Below(2 * n + 2), Param("special", 0, 1), delim);
  t.path = Dir() + "/in.csv";
  WriteFile(t.path, CsvText(t, g));
  int api = Param("api", 0, 2);                  // plain, labelled, mixed
  int stop = Param("stop", 0, 7) == 0 ? (int)g.Below(4) : -1;   // dropped early
  string what = fmt::format("csv reader: {} rows, batch {}, {} keys, {} labels, api {}", n, batch, t.keys.size(), t.labels.size(), api);
  sim::SetSample(what);
  Arm();
  bool faults = g_faults;
  RunProc(what, [=]() mutable {
    psi::ArrowCsvBatchProvider p(t.path, t.keys, batch, t.labels, delim);
    CHECK_((int)p.batch_size() == batch, "batch_size {}", p.batch_size());
    size_t at = 0;
    KeyForms forms;
    for (;;) {
      if (stop-- == 0) return;
      if (g.P(0.2)) std::this_thread::sleep_for(std::chrono::microseconds(g.Below(3000)));
      vector<string> k, l;
      bool lab = api == 1 || (api == 2 && g.Below(2));
      try {
        if (lab) std::tie(k, l) = p.ReadNextLabeledBatch(); else k = p.ReadNextBatch();
      } catch (const std::exception& e) {
        // the error must not turn into an end for a consumer that asks again
        try { k = p.ReadNextBatch(); } catch (const std::exception&) { throw std::runtime_error("read error"); }
        CHECK_(!k.empty() || at == t.K.size(), "after a read error at {} of {} rows the reader signals the end", at, t.K.size());
        l.clear();
        lab = false;
      }
      CheckSize(k.size(), batch, at, t.K.size());
      if (lab) CHECK_(l.size() == (t.labels.empty() ? 0 : k.size()), "{} labels with {} keys", l.size(), k.size());
      for (size_t i = 0; i < k.size(); ++i, ++at) {
        CHECK_(forms.Ok(t.KV[at], t.K[at], k[i]), "row {} came back with key {} instead of {}", at, k[i], t.K[at]);
        if (lab && !t.labels.empty()) CHECK_(l[i] == t.L[at], "row {} came back with label {} instead of {}", at, l[i], t.L[at]);
      }
      if (k.empty()) break;
    }
    CHECK_(at == t.K.size(), "{} of {} rows came back", at, t.K.size());
    for (int i = g.Below(3); i >= 0; --i) CHECK_(p.ReadNextBatch().empty() && p.ReadNextLabeledBatch().first.empty(), "rows after the end");
    CHECK_(p.row_cnt() == t.K.size(), "row_cnt {} after {} rows", p.row_cnt(), t.K.size());
  }, faults);
}

// ---- shuffled readers ---------------------------------------------------------
struct CountedProvider : psi::IBasicBatchProvider {
  vector<string> items; vector<uint32_t> dup; size_t batch, at = 0; uint64_t sleepy; Gen g; long fail_at = -1;
  CountedProvider(vector<string> i, vector<uint32_t> d, size_t b, uint64_t s) : items(std::move(i)), dup(std::move(d)), batch(b), sleepy(s), g(s) {}
  size_t batch_size() const override { return batch; }
  vector<string> ReadNextBatch() override { return ReadNextBatchWithDupCnt().first; }
  std::pair<vector<string>, std::unordered_map<uint32_t, uint32_t>> ReadNextBatchWithDupCnt() override {
    if (sleepy) std::this_thread::sleep_for(std::chrono::microseconds(g.Below(2000)));
    std::pair<vector<string>, std::unordered_map<uint32_t, uint32_t>> r;
    for (; r.first.size() < batch && at < items.size(); ++at) {
      if ((long)at == fail_at) throw std::runtime_error("injected");
      if (dup[at]) r.second[r.first.size()] = dup[at];
      r.first.push_back(items[at]);
    }
    return r;
  }
};
void CheckShuffled(psi::IShuffledBatchProvider& p, const vector<string>& items, const vector<uint32_t>& dup, size_t batch, bool dups, int stop) {
  size_t n = items.size(), at = 0;
  vector<char> seen(n);
  for (;;) {
    if (stop-- == 0) return;
    psi::IShuffledBatchProvider::ShuffledBatch b;
    try {
      b = p.ReadNextShuffledBatch();
    } catch (const std::exception& e) {
      try { b = p.ReadNextShuffledBatch(); } catch (const std::exception&) { throw std::runtime_error("read error"); }
      CHECK_(!b.batch_items.empty() || at == n, "after a read error at {} of {} rows the reader signals the end", at, n);
    }
    CheckSize(b.batch_items.size(), batch, at, n);
    CHECK_(b.batch_indices.size() == b.batch_items.size() && b.shuffled_indices.size() == b.batch_items.size(), "{} items with {} and {} indices", b.batch_items.size(), b.batch_indices.size(), b.shuffled_indices.size());
    if (dups) CHECK_(b.dup_cnts.size() == b.batch_items.size(), "{} items with {} counts", b.batch_items.size(), b.dup_cnts.size());
    for (size_t i = 0; i < b.batch_items.size(); ++i, ++at) {
      CHECK_(b.batch_indices[i] == at, "item {} has index {}", at, b.batch_indices[i]);
      size_t s = b.shuffled_indices[i];
      CHECK_(s < n, "row {} of {}", s, n);
      CHECK_(!seen[s]++, "row {} came back twice", s);
      CHECK_(b.batch_items[i] == items[s], "index {} says row {} but the item is another", at, s);
      if (dups) CHECK_(b.dup_cnts[i] == dup[s], "row {} came back with count {} instead of {}", s, b.dup_cnts[i], dup[s]);
    }
    if (b.batch_items.empty()) break;
  }
  CHECK_(at == n, "{} of {} rows came back", at, n);
  CHECK_(p.ReadNextShuffledBatch().batch_items.empty(), "rows after the end");
}
void Shuffled() {
  Begin();
  g_crash = false;
  Gen g(Param("wseed", 1, 1 << 30));
  int n = DrawN(0, 200), batch = Param("batch", 1, 60), kind = Param("kind", 0, 2);
  Tbl t = DrawTbl(g, n, 1 + g.Below(2 * n + 2), false);
  t.path = Dir() + "/in.csv";
  WriteFile(t.path, CsvText(t, g));
  vector<uint32_t> dup(n);
  if (kind == 1) for (auto& d : dup) d = g.P(0.4) ? g.Below(9) : 0;
  int stop = Param("stop", 0, 7) == 0 ? (int)g.Below(4) : -1;
  size_t inner = 1 + g.Below(80);
  uint64_t sleepy = Param("sleepy", 0, 1) ? g.Next() | 1 : 0;
  bool fail = kind == 1 && n && Param("inner_fail", 0, 3) == 0;
  long fail_at = fail ? (long)g.Below(n) : -1;
  string what = fmt::format("shuffled reader: kind {}, {} rows, batch {}", kind, n, batch);
  sim::SetSample(what);
  Arm();
  bool faults = g_faults;
  RunProc(what, [=] {
    if (kind == 0) {
      psi::SimpleShuffledBatchProvider p(t.path, t.keys, batch);
      CHECK_((int)p.batch_size() == batch, "batch_size {}", p.batch_size());
      CheckShuffled(p, t.K, dup, batch, true, stop);
    } else if (kind == 1) {
      auto q = std::make_shared<CountedProvider>(t.K, dup, inner, sleepy);
      q->fail_at = fail_at;
      psi::SimpleShuffledBatchProvider p(q, batch);
      CheckShuffled(p, t.K, dup, batch, true, stop);
    } else {
      auto q = std::make_shared<psi::ArrowCsvBatchProvider>(t.path, t.keys, inner);
      psi::SimpleShuffledBatchProvider p(q, batch);
      CheckShuffled(p, t.K, dup, batch, true, stop);
    }
  }, faults || fail);
}

// ---- readers of memory -----------------------------------------------------------
void Mem() {
  Begin();
  g_crash = false;
  NoFaults();
  Gen g(Param("wseed", 1, 1 << 30));
  int n = DrawN(0, 200), batch = Param("batch", 1, 60), api = Param("api", 0, 4);
  vector<string> items, labels;
  for (int i = 0; i < n; ++i) { items.push_back(RandData(g, g.Below(12))); labels.push_back("L" + std::to_string(i)); }
  sim::SetSample(fmt::format("memory reader: {} rows, batch {}, api {}", n, batch, api));
  sim::MarkNontrivial();
  if (api == 4 && !n) ++api;   // refuses an empty set
  RunProc(fmt::format("memory reader: {} rows, batch {}, api {}", n, batch, api), [=]() mutable {
    psi::MemoryBatchProvider p(items, batch, labels, api == 4);
    CHECK_(p.items() == items, "items() gives something else");
    if (n) CHECK_(p.labels() == labels, "labels() gives something else");
    if (api == 4) {
      CheckShuffled(p, items, {}, batch, false, -1);
      auto& s = p.shuffled_indices();
      vector<char> seen(n);
      for (auto x : s) CHECK_((int)x < n && !seen[x]++, "shuffled_indices is no permutation");
      CHECK_((int)s.size() == n, "shuffled_indices has {} of {}", s.size(), n);
      return;
    }
    if (g.Below(3) == 0) {
      auto a = p.ReadAll();
      CHECK_((int)a.size() == n, "ReadAll gives {} of {}", a.size(), n);
      for (int i = 0; i < n; ++i) CHECK_(a[i].buf == items[i], "ReadAll: item {} is another", i);
    }
    int at = 0;
    for (;;) {
      vector<string> k, l;
      size_t want = batch;
      int a = api == 3 ? g.Below(3) : api;
      if (a == 1 && !n) a = 0;
      if (a == 0) k = p.ReadNextBatch();
      else if (a == 1) { std::tie(k, l) = p.ReadNextLabeledBatch(); CHECK_(l.size() == k.size(), "{} labels with {} keys", l.size(), k.size()); }
      else { want = 1 + g.Below(30); for (auto& d : p.ReadNext(want)) k.push_back(d.buf); }
      CheckSize(k.size(), want, at, n);
      for (size_t i = 0; i < k.size(); ++i, ++at) {
        CHECK_(k[i] == items[at], "item {} is another", at);
        if (a == 1) CHECK_(l[i] == labels[at], "label {} is another", at);
      }
      if (k.empty()) break;
    }
    CHECK_(at == n && p.ReadNextBatch().empty(), "{} of {} rows came back, or rows after the end", at, n);
  }, false);
}

// ---- key infos -------------------------------------------------------------------
struct Grp { string key; uint32_t start, dup; };
void CheckInfo(const std::shared_ptr<psi::KeyInfo>& ki, const vector<Grp>& want, size_t n, size_t batch, int api, const char* what) {
  uint32_t dups = 0;
  for (auto& w : want) dups += w.dup != 0;
  CHECK_(ki->KeyCnt() == want.size() && ki->OriginCnt() == n && ki->DupKeyCnt() == dups, "{}: {} keys, {} rows, {} duplicated keys instead of {}, {}, {}", what, ki->KeyCnt(), ki->OriginCnt(), ki->DupKeyCnt(), want.size(), n, dups);
  auto p = ki->GetBatchProvider(batch);
  CHECK_(p->batch_size() == batch, "batch_size {}", p->batch_size());
  size_t at = 0;
  for (;;) {
    psi::KeysInfoProvider::BatchInfo b;
    std::unordered_map<uint32_t, uint32_t> d;
    if (api == 0) b.keys = p->ReadNextBatch();
    else if (api == 1) std::tie(b.keys, d) = p->ReadNextBatchWithDupCnt();
    else b = p->ReadBatchWithInfo();
    CheckSize(b.keys.size(), batch, at, want.size());
    for (auto& x : d) CHECK_(x.first < b.keys.size() && x.second, "{}: count {} for item {} of {}", what, x.second, x.first, b.keys.size());
    for (size_t i = 0; i < b.keys.size(); ++i, ++at) {
      auto& w = want[at];
      CHECK_(b.keys[i] == w.key, "{}: key {} is {} instead of {}", what, at, b.keys[i], w.key);
      if (api == 1) { auto it = d.find(i); CHECK_((it == d.end() ? 0 : it->second) == w.dup, "{}: key {} has another count", what, at); }
      if (api == 2) CHECK_(b.start_indexes[i] == w.start && b.dup_cnts[i] == w.dup, "{}: key {} starts at {} with count {} instead of {}, {}", what, at, b.start_indexes[i], b.dup_cnts[i], w.start, w.dup);
    }
    if (b.keys.empty()) break;
  }
  CHECK_(at == want.size() && p->ReadNextBatch().empty(), "{}: {} of {} keys came back, or keys after the end", what, at, want.size());
}
void Info() {
  Begin();
  g_crash = false;
  Gen g(Param("wseed", 1, 1 << 30));
  int n = DrawN(1, 200), batch = Param("batch", 1, 60), api = Param("api", 0, 2);
  bool uniq = Param("uniq", 0, 3) == 0, again = Param("again", 0, 1), apply = Param("apply", 0, 1);
  Tbl t = DrawTbl(g, n, uniq ? 100000 : 1 + g.Below(2 * n + 2), false);
  vector<size_t> o(n);
  std::iota(o.begin(), o.end(), 0);
  vector<vector<string>> kv;
  for (auto& r : t.rows) {
    vector<string> k;
    for (auto& c : t.keys) k.push_back(r[std::find(t.cols.begin(), t.cols.end(), c) - t.cols.begin()]);
    kv.push_back(k);
  }
  if (uniq) {   // make them so
    std::set<string> s;
    vector<vector<string>> rows; vector<string> K;
    for (int i = 0; i < n; ++i) if (s.insert(t.K[i]).second) { rows.push_back(t.rows[i]); K.push_back(t.K[i]); }
    t.rows = rows; t.K = K; n = rows.size();
    o.resize(n);
  } else {
    std::stable_sort(o.begin(), o.end(), [&](size_t a, size_t b) { return kv[a] < kv[b]; });
  }
  t.path = Dir() + "/in.csv";
  WriteFile(t.path, CsvOf(t.cols, t.rows));
  vector<Grp> want;
  for (int i = 0; i < n; ++i) {
    auto& k = t.K[o[i]];
    if (!uniq && !want.empty() && want.back().key == k) ++want.back().dup; else want.push_back({k, (uint32_t)i, 0});
  }
  vector<uint32_t> idx, cnt;
  for (size_t i = 0; i < want.size(); ++i) if (g.P(0.5)) { idx.push_back(i); cnt.push_back(g.P(0.3) ? g.Below(4) : 0); }
  string inter, except = Joined(t.cols, ',') + "\n";
  inter = except;
  size_t si = 0, pi = 0;
  {
    size_t j = 0;
    for (size_t i = 0; i < want.size(); ++i) {
      bool in = j < idx.size() && idx[j] == i;
      for (uint32_t r = 0; r <= want[i].dup; ++r) {
        string l = Joined(t.rows[o[want[i].start + r]], ',') + "\n";
        if (in) for (uint32_t c = 0; c <= cnt[j]; ++c) inter += l; else except += l;
      }
      if (in) { si += want[i].dup + 1; pi += cnt[j] + 1; ++j; }
    }
  }
  // a second table: the same keys, another key, or keys with the same concatenation
  int twin = Param("twin", 0, 2);
  vector<vector<string>> rows2 = t.rows;
  auto col = [&](const string& c) { return std::find(t.cols.begin(), t.cols.end(), c) - t.cols.begin(); };
  if (twin == 2 && !(uniq && t.keys.size() == 1 && n > 1)) twin = 1;
  if (twin == 2) {
    size_t c = col(t.keys[0]), i = g.Below(n - 1);
    rows2[i][c] += rows2[i + 1][c].substr(0, 1);
    rows2[i + 1][c].erase(0, 1);
    std::set<string> s;
    for (auto& r : rows2) if (r[c].empty() || !s.insert(r[c]).second) twin = 1;
    if (twin == 1) rows2 = t.rows;
  }
  if (twin == 1) rows2[g.Below(n)][col(t.keys[g.Below(t.keys.size())])] = "another";
  if (twin == 0) {
    if (!uniq) g.Shuffle(rows2);
    for (auto& r : rows2) for (size_t c = 0; c < r.size(); ++c) if (std::find(t.keys.begin(), t.keys.end(), t.cols[c]) == t.keys.end()) r[c] += "y";
  }
  // with duplicates a changed row may leave the set of keys as it is
  std::set<vector<string>> s1, s2;
  for (auto& r : t.rows) { vector<string> k; for (auto& c : t.keys) k.push_back(r[col(c)]); s1.insert(k); }
  for (auto& r : rows2) { vector<string> k; for (auto& c : t.keys) k.push_back(r[col(c)]); s2.insert(k); }
  bool same = s1 == s2;
  WriteFile(Dir() + "/in2.csv", CsvOf(t.cols, rows2));
  string dir = Dir();
  string what = fmt::format("key info: {} rows, {} keys, batch {}, unique {}, api {}", n, want.size(), batch, uniq, api);
  sim::SetSample(what);
  Arm();
  RunProc(what, [=] {
    std::shared_ptr<psi::KeyInfo> ki;
    std::shared_ptr<psi::SortedTable> st;
    if (uniq) {
      ki = psi::KeyInfo::Make(psi::UniqueKeyTable::Make(t.path, "csv", t.keys));
    } else {
      st = psi::SortedTable::Make(psi::Table::MakeFromCsv(t.path), dir + "/sorted.csv", t.keys);
      ki = psi::KeyInfo::Make(st, dir + "/info.csv");
    }
    CheckInfo(ki, want, n, batch, api, "made");
    std::shared_ptr<psi::KeyInfo> k2;
    if (uniq) k2 = psi::KeyInfo::Make(psi::UniqueKeyTable::Make(dir + "/in2.csv", "csv", t.keys));
    else k2 = psi::KeyInfo::Make(psi::SortedTable::Make(psi::Table::MakeFromCsv(dir + "/in2.csv"), dir + "/sorted2.csv", t.keys), dir + "/info2.csv");
    CHECK_((ki->KeysHash() == k2->KeysHash()) == same, "{}: the hashes of {} keys are {}", what, same ? "equal" : "different", same ? "different" : "equal");
    CHECK_(ki->SourceFileColumns() == t.cols, "columns of the source differ");
    if (again && !uniq) CheckInfo(psi::KeyInfo::Make(st, dir + "/info.csv"), want, n, batch, (api + 1) % 3, "made again");
    if (apply) {
      psi::MemoryIndexReader rd(idx, cnt);
      {
        psi::ResultDumper d(dir + "/inter.csv", dir + "/except.csv");
        auto s = ki->ApplyPeerDupCnt(rd, d);
        CHECK_(s.self_intersection_count == si && s.peer_intersection_count == pi && s.inter_unique_cnt == idx.size(), "counts {} differ from {}, {}, {}", s.ToString(), si, pi, idx.size());
        CHECK_((int)s.original_count == n, "original_count {} of {}", s.original_count, n);
        d.Flush();
      }
      CHECK_(ReadFile(dir + "/inter.csv") == inter, "the intersection part differs");
      CHECK_(ReadFile(dir + "/except.csv") == except, "the rest differs");
    }
  }, g_faults);
}
void Reader() {
  static void (*fn[])() = {Csv, Csv, Csv, Shuffled, Shuffled, Mem, Info, Info};
  fn[Param("what", 0, 7)]();
}
sim::Scenario s1("c16_reader", Reader);
}  // namespace
