// C24: Spiral PIR decodes the requested database block.  One server, several
// clients with keys of their own, a history of queries in every form the
// interface has, databases replaced, dumped and loaded again.
#include <fcntl.h>

#include <fstream>

#include "harness/single.h"
#include "psi/algorithm/pir_interface/pir_db.h"
#include "psi/algorithm/spiral/spiral_client.h"
#include "psi/algorithm/spiral/spiral_server.h"
#include "psi/algorithm/spiral/util.h"

namespace {
using namespace psi::spiral;
using Link = std::shared_ptr<yacl::link::Context>;
using Rows = vector<vector<uint8_t>>;
constexpr size_t kPt = 8192;   // bytes of one plaintext block of the default parameters

struct SpWorld {
  uint64_t seed = 1;
  size_t rows = 1, len = 1;
  int clients = 1, queries = 1, dump = 0, replaced = 0;
};
Rows Db(const SpWorld& w, int generation) {
  Gen g(w.seed + 1000003 * generation);
  Rows d(w.rows, vector<uint8_t>(w.len));
  for (auto& r : d) for (auto& b : r) b = g.Below(256);
  return d;
}
SpWorld DrawSp() {
  SpWorld w;
  Gen g(Param("wseed", 1, 1 << 30));
  w.seed = g.Next();
  // rows per block, a block per row, several blocks per row
  int shape = Param("shape", 0, 6);
  if (shape <= 1) { w.len = 1 + g.Below(40); w.rows = 1 + g.Below(3 * kPt / w.len); }
  else if (shape == 2) { w.len = 1 + g.Below(4096); w.rows = 1 + g.Below(4 * (kPt / w.len)); }
  else if (shape == 3) { w.len = kPt - g.Below(3); w.rows = 1 + g.Below(4); }
  else if (shape == 4) { w.len = kPt + 1 + g.Below(3); w.rows = 1 + g.Below(4); }
  else if (shape == 5) { w.len = kPt + 1 + g.Below(2 * kPt); w.rows = 1 + g.Below(4); }
  else { w.len = 200 + g.Below(600); size_t per = kPt / w.len; w.rows = 16 * per + 1 + g.Below(16 * per); }
  w.clients = Param("clients", 1, 2);
  w.queries = Param("queries", 1, shape == 6 ? 2 : 4);
  w.dump = Param("dump", 0, 2);          // 0 built in memory, 1 dumped and loaded, 2 loaded from a hash table's dump
  w.replaced = Param("replaced", 0, 3) == 0 ? 1 : 0;
  return w;
}
string DescribeSp(const SpWorld& w) {
  return fmt::format("spiral: {} rows of {} bytes, {} clients, {} queries each, dump {}, replaced {}", w.rows, w.len, w.clients, w.queries, w.dump, w.replaced);
}
Params ParamsFor(const SpWorld& w) {
  auto p = util::GetDefaultParam();
  p.UpdateByDatabaseInfo(DatabaseMetaInfo(w.rows, w.len));
  return p;
}
std::unique_ptr<SpiralServer> LoadFrom(const string& path) {
  int fd = ::open(path.c_str(), O_RDONLY);
  if (fd < 0) throw std::runtime_error("open");
  google::protobuf::io::FileInputStream in(fd);
  in.SetCloseOnDelete(true);
  return SpiralServer::Load(in);
}
// with `damage` the dump is cut short or changed before it is loaded
std::unique_ptr<SpiralServer> MakeServer(const SpWorld& w, const string& dir) {
  DatabaseMetaInfo info(w.rows, w.len);
  auto s = std::make_unique<SpiralServer>(ParamsFor(w), info);
  for (int gen = w.replaced ? 0 : 1; gen <= 1; ++gen) {
    psi::pir::RawDatabase raw(Db(w, gen));
    if (w.dump == 0) s->GenerateFromRawDataAndReorient(raw);
    else if (w.dump == 1) s->GenerateFromRawData(raw);
    else s->GenerateFromSimpleHashTable(raw);
  }
  CHECK_(s->DbSeted(), "the database does not count as set");
  if (!w.dump) return s;
  string path = dir + "/dump";
  {
    std::ofstream out(path, std::ios::binary);
    if (!out) throw std::runtime_error("cannot open the dump");
    s->Dump(out);
    out.close();
    if (!out) throw std::runtime_error("the dump failed");
  }
  return LoadFrom(path);
}
struct Query { string pk, q; size_t idx; };
void AskLocal(const SpWorld& w, const SpiralServer& s, int c, bool sleepy) {
  Gen g(w.seed + 31 * (c + 1));
  auto db = Db(w, 1);
  SpiralClient cl(ParamsFor(w), DatabaseMetaInfo(w.rows, w.len));
  PublicKeys pks; yacl::Buffer pkb; string pkstr;
  string last;
  size_t prev = 0;
  for (int k = 0; k < w.queries; ++k) {
    size_t idx = k && g.P(0.25) ? prev : g.P(0.2) ? w.rows - 1 : g.Below(w.rows);
    prev = idx;
    int form = g.Below(3);
    if (sleepy) std::this_thread::sleep_for(std::chrono::microseconds(g.Below(3000)));
    vector<uint8_t> got;
    string bytes;
    if (form == 0) {
      if (pks.v_packing_.empty()) pks = cl.GenPublicKeys();
      auto q = cl.GenQuery(idx);
      bytes = q.SerializeToStr();
      got = cl.DecodeResponse(s.ProcessQuery(q, pks), idx);
    } else if (form == 1) {
      if (!pkb.size()) pkb = cl.GeneratePksBuffer();
      auto q = cl.GenerateIndexQuery(idx);
      bytes = string(q.data<char>(), q.size());
      got = cl.DecodeIndexResponse(s.Response(q, pkb), idx);
    } else {
      if (pkstr.empty()) pkstr = cl.GeneratePksString();
      bytes = cl.GenerateIndexQueryStr(idx);
      got = cl.DecodeIndexResponse(s.Response(bytes, pkstr), idx);
    }
    CHECK_(bytes != last, "two queries are the same");
    last = bytes;
    CHECK_(got.size() == w.len, "query {} for {} of {}: {} bytes instead of {}", k, idx, w.rows, got.size(), w.len);
    CHECK_(got == db[idx], "query {} for {} of {} returned another block (form {})", k, idx, w.rows, form);
  }
}
void Local() {
  Begin();
  g_crash = false;
  SpWorld w = DrawSp();
  bool faults = w.dump && Param("faulty", 0, 2) == 0;
  g_faults = faults;
  // a dump that was cut short or lengthened
  int damage = w.dump && !faults && Param("damage", 0, 5) == 0 ? Param("damage_kind", 1, 2) : 0;
  bool sleepy = Param("sleepy", 0, 1);
  sim::SetSample(DescribeSp(w) + fmt::format(", faults {}, damage {}", faults, damage));
  sim::MarkNontrivial();
  Arm();
  string dir = Dir(), what = DescribeSp(w);
  double cut = Gen(w.seed + 5).Below(1000001) / 1e6;
  RunProc(what, [=] {
    auto s = MakeServer(w, dir);
    if (damage) {
      string path = dir + "/dump", b = ReadFile(path);
      if (damage == 1) b.resize((size_t)(b.size() * cut));
      else { Gen g(w.seed + 6); size_t n = 1 + g.Below(20); for (size_t i = 0; i < n; ++i) b.erase(g.Below(b.size()), 1); }
      WriteFile(path, b);
      try { s = LoadFrom(path); } catch (const std::exception&) { sim::NoPreempt np; sim::Probe("damaged_dump_refused"); return; }
      if (damage == 2) return;   // bytes lost within the data cannot all be noticed; it did not crash
      throw Bad{fmt::format("a dump cut to {} bytes was accepted", b.size())};
    }
    vector<std::function<void()>> th;
    vector<string> bad(w.clients);
    for (int c = 0; c < w.clients; ++c)
      th.push_back([&, c] {
        try { AskLocal(w, *s, c, sleepy); } catch (const Bad& b) { bad[c] = b.what; } catch (const std::exception& e) { bad[c] = string("threw ") + e.what(); }
      });
    RunThreads(th);
    for (auto& b : bad) if (!b.empty()) throw Bad{b};
  }, faults);
}
// ---- client and server processes -------------------------------------------
void Send(const Link& l, const void* p, size_t n, const char* tag) { l->SendAsync(l->NextRank(), yacl::ByteContainerView(p, n), tag); }
void Serve(const SpWorld& w, const SpiralServer& s, const Link& l) {
  auto pk = l->Recv(l->NextRank(), "pk");
  string pkstr(pk.data<char>(), pk.size());
  Gen g(w.seed + 9);
  for (;;) {
    auto q = l->Recv(l->NextRank(), "q");
    if (!q.size()) return;
    if (g.P(0.5)) { auto r = s.Response(q, pk); Send(l, r.data(), r.size(), "r"); }
    else { auto r = s.Response(q, pkstr); Send(l, r.data(), r.size(), "r"); }
  }
}
void Ask(const SpWorld& w, int c, const Link& l) {
  Gen g(w.seed + 31 * (c + 1));
  auto db = Db(w, 1);
  SpiralClient cl(ParamsFor(w), DatabaseMetaInfo(w.rows, w.len));
  auto pk = cl.GeneratePksBuffer();
  Send(l, pk.data(), pk.size(), "pk");
  // up to `deep` queries are under way at once
  size_t deep = 1 + g.Below(3);
  std::deque<size_t> open;
  auto take = [&] {
    auto r = l->Recv(l->NextRank(), "r");
    size_t idx = open.front();
    open.pop_front();
    CHECK_(cl.DecodeIndexResponse(r, idx) == db[idx], "the answer for {} of {} is another block", idx, w.rows);
  };
  for (int k = 0; k < w.queries; ++k) {
    size_t idx = g.Below(w.rows);
    auto q = cl.GenerateIndexQuery(idx);
    Send(l, q.data(), q.size(), "q");
    open.push_back(idx);
    if (open.size() >= deep) take();
  }
  while (!open.empty()) take();
  Send(l, "", 0, "q");
}
int NetBody(const std::function<void()>& fn) {
  try { fn(); } catch (const Bad& b) { sim::NoPreempt np; sim::SetProcMsg("BAD " + b.what); return 3; }
  catch (const std::exception& e) { sim::NoPreempt np; sim::SetProcMsg(string("THREW ") + e.what()); return 4; }
  return 0;
}
void Net() {
  SetupSchedule();
  bool faulty = Param("net_fault", 0, 2) == 0;
  SetupNet(!faulty);
  fs::create_directories(Dir());
  SpWorld w = DrawSp();
  NetPlan plan;
  if (faulty) plan = DrawNetPlan();
  string what = DescribeSp(w) + (faulty ? string("; ") + PlanName(plan.kind) : "");
  sim::SetSample(what);
  sim::MarkNontrivial();
  LinkOpt lo;
  if (faulty) { lo.recv_timeout_ms = plan.must_finish ? 600000 : 20000; lo.connect_retry_times = 10; }
  string dir = Dir();
  vector<int> ps;
  for (int i = 0; i < w.clients; ++i)
    ps.push_back(sim::Spawn(i ? 2 : 0, "client", [=] {
      return NetBody([&] {
        auto l = MakeLink("task" + std::to_string(i), 2, i ? 1 : 0, lo, i);
        l->ConnectToMesh();
        Ask(w, i, l);
      });
    }));
  bool noserver = faulty && plan.kind == 6;
  if (!noserver)
    ps.push_back(sim::Spawn(1, "server", [=] {
      return NetBody([&] {
        auto s = MakeServer(w, dir);
        string bad[2];
        vector<std::function<void()>> th;
        for (int i = 0; i < w.clients; ++i)
          th.push_back([&, i] {
            try {
              auto l = MakeLink("task" + std::to_string(i), 2, i ? 0 : 1, lo, i);
              l->ConnectToMesh();
              Serve(w, *s, l);
            } catch (const std::exception& e) { bad[i] = e.what(); }
          });
        RunThreads(th);
        for (auto& b : bad) if (!b.empty()) throw std::runtime_error(b);
      });
    }));
  if (faulty) RunNetPlan(plan, ps);
  if (!Wait(ps, 90000 * kSec, what.c_str())) return;
  for (size_t i = 0; i < ps.size(); ++i) {
    auto& pi = sim::Proc(ps[i]);
    if (pi.state == sim::P_EXITED && pi.code == 3) return sim::Violation("wrong-contents", what + ": " + (pi.msg + 4));
    if (pi.state == sim::P_EXITED && pi.code == 0) {
      if (noserver) return sim::Violation("wrong-contents", what + ": answers without a server");
      continue;
    }
    if (pi.state == sim::P_KILLED) continue;
    if (!(pi.state == sim::P_EXITED && pi.code == 4) && !DiedWithMessage(ps[i])) return sim::Violation("crash", what + fmt::format(": state {} code {} {}", pi.state, pi.code, pi.msg));
    if (!faulty || plan.must_finish) return sim::Violation("unexpected-error", what + ": " + pi.msg);
    sim::Probe("failed_loudly");
  }
}
sim::Scenario s1("c24_spiral", Local);
sim::Scenario s2("c24_net", Net);
}  // namespace
