// Offline/online PIR (C22): Piano, PPS (one and many queries) and SimplePIR.
// Every client and server is a process of its own; they talk over the
// simulated links, through the repository's own message functions.
#include <unistd.h>

#include <cmath>
#include <set>
#include <unordered_set>

#include "experiment/pir/piano/client.h"
#include "experiment/pir/piano/server.h"
#include "experiment/pir/simplepir/client.h"
#include "experiment/pir/simplepir/network_util.h"
#include "experiment/pir/simplepir/server.h"
#include "harness/faults.h"
// these headers have no guards of their own
#include "experiment/pir/pps/client.h"
#include "experiment/pir/pps/receiver.h"
#include "experiment/pir/pps/sender.h"
#include "experiment/pir/pps/server.h"

using namespace hx;
using std::string;
using std::vector;
namespace {
struct Bad { string what; };
#define CHECK_(c, ...) do { if (!(c)) throw Bad{fmt::format(__VA_ARGS__)}; } while (0)
constexpr double kNever = 1e-13;
// probability that a binomial variable is at least k
double Upper(int n, double p, int k) {
  if (k <= 0) return 1;
  if (p <= 0) return 0;
  if (p >= 1) return 1;
  double sum = 0;
  for (int i = k; i <= n; ++i) sum += std::exp(std::lgamma(n + 1.0) - std::lgamma(i + 1.0) - std::lgamma(n - i + 1.0) + i * std::log(p) + (n - i) * std::log1p(-p));
  return sum;
}
enum Scheme { S_PIANO = 0, S_ONE, S_MANY, S_SIMPLE };
const char* kName[] = {"piano", "pps one query", "pps many queries", "simplepir"};
struct PirWorld {
  int scheme = 0;
  uint64_t seed = 1;
  uint64_t n = 1;
  int queries = 1, pattern = 0;
  // piano
  int threads = 1, entry = 1, clients = 1, abandon = 0, order = 0;
  // pps
  uint64_t set = 2;
  // simplepir
  uint64_t q = 0, p = 0;
  int dim = 1, radius = 4;
  double sigma = 1;
};
vector<uint8_t> PianoDb(const PirWorld& w) {
  Gen g(w.seed + 77);
  vector<uint8_t> db(w.n * w.entry);
  for (auto& b : db) b = g.Below(256);
  return db;
}
yacl::dynamic_bitset<> PpsDb(const PirWorld& w) {
  Gen g(w.seed + 78);
  yacl::dynamic_bitset<> b;
  for (uint64_t i = 0; i < (w.n + 127) / 128; ++i) b.append(((uint128_t)g.Next() << 64) | g.Next());
  return b;
}
vector<vector<uint64_t>> SimpleDb(const PirWorld& w) {
  Gen g(w.seed + 79);
  size_t r = std::sqrt((double)w.n);
  vector<vector<uint64_t>> d(r, vector<uint64_t>(r));
  int hot = g.Below(4);  // values at the border of the plaintext space too
  for (auto& x : d) for (auto& v : x) v = hot == 0 ? w.p - 1 : hot == 1 ? 0 : g.Below(w.p);
  return d;
}
// the indices a client asks for
struct Asker {
  Gen g;
  uint64_t n;
  int pattern;
  uint64_t at = 0;
  vector<uint64_t> past;
  Asker(const PirWorld& w, int client) : g(w.seed + 1000 * (client + 1)), n(w.n), pattern(w.pattern), at(g.Below(w.n)) {}
  uint64_t Next() {
    uint64_t i;
    if (pattern == 0) i = g.Below(n);
    else if (pattern == 1) i = at++ % n;                        // one after the other
    else if (pattern == 2 && !past.empty() && g.P(0.5)) i = past[g.Below(past.size())];  // again
    else if (pattern == 3) i = (at + g.Below(std::min<uint64_t>(n, 8))) % n;             // close together
    else i = g.P(0.2) ? (g.P(0.5) ? 0 : n - 1) : g.Below(n);
    past.push_back(i);
    return i;
  }
};
void Draw(PirWorld* w, bool faults) {
  w->scheme = Param("scheme", 0, 3);
  w->seed = Param("wseed", 1, 1 << 30);
  w->pattern = Param("pattern", 0, 4);
  static const int qs[] = {3, 12, 40, 120};
  w->queries = Param("queries", 1, qs[Param("qclass", 0, faults ? 2 : 3)]);
  int cls = Param("nclass", 0, 3);
  if (w->scheme == S_PIANO) {
    static const int hi[] = {4, 30, 120, 300};
    w->n = Param("n", 1, hi[faults ? std::min(cls, 1) : cls]);
    w->entry = Param("entry", 1, 20);
    w->threads = Param("threads", 0, 4);
    w->clients = 1 + (Param("clients", 0, 3) == 3);
    static const int ab[] = {0, 0, 10, 50};
    w->abandon = ab[Param("abandon", 0, 3)];
    w->order = Param("chunk_order", 0, 1);
  } else if (w->scheme == S_SIMPLE) {
    static const int hi[] = {2, 6, 16, 32};
    uint64_t r = Param("rows", 1, hi[cls]);
    w->n = r * r;
    w->dim = Param("dimension", 1, Param("dimcls", 0, 1) ? 64 : 6);
    static const uint64_t ps[] = {2, 3, 16, 255, 991};
    w->p = ps[Param("plain", 0, 4)];
    w->radius = Param("radius", 1, 4);
    static const double sg[] = {0.5, 1, 3.2, 6.8};
    w->sigma = sg[Param("sigma", 0, 3)];
    // the largest possible noise has to stay below half a step
    uint64_t noise = (uint64_t)(w->radius * w->sigma) * r * (w->p - 1) + w->p + 2;
    uint64_t min_q = 2 * noise * w->p + w->p;
    uint64_t q = 1;
    while (q < min_q) q <<= 1;
    q <<= Param("slack", 0, 20);
    if (Param("q_shape", 0, 2) == 2) { Gen g(w->seed + 5); q = std::max(min_q, q - 1 - g.Below(q / 2)); }
    w->q = q;
  } else {
    static const int lo[] = {20, 40, 120, 300}, hi[] = {40, 120, 300, w->scheme == S_ONE ? 1500 : 500};
    w->n = Param("n", lo[cls], hi[cls]);
    uint64_t slo = 2, shi = 2;
    while (slo * slo < w->n / 2) ++slo;
    while ((shi + 1) * (shi + 1) <= 2 * w->n) ++shi;
    w->set = Param("set", slo, shi);
    if (w->scheme == S_ONE) {
      // the hint has m distinct shifts, which must exist and be found
      auto m = [&] { return (w->n + w->set - 1) / w->set * (uint64_t)std::ceil(std::log(w->n)); };
      while (m() * 10 > w->n * 8 && w->set < shi) ++w->set;
      if (m() * 10 > w->n * 8) { w->n = 120; w->set = 12; }
    }
    w->queries = std::min(w->queries, w->scheme == S_ONE ? 12 : 60);
  }
}
string Describe(const PirWorld& w) {
  string s = fmt::format("{}, {} entries, {} queries, pattern {}", kName[w.scheme], w.n, w.queries, w.pattern);
  if (w.scheme == S_PIANO) s += fmt::format(", {} bytes, {} threads, {} clients, {}% replies lost", w.entry, w.threads, w.clients, w.abandon);
  else if (w.scheme == S_SIMPLE) s += fmt::format(", q {}, p {}, dimension {}, noise {} x {}", w.q, w.p, w.dim, w.radius, w.sigma);
  else s += fmt::format(", set size {}", w.set);
  return s;
}
using Link = std::shared_ptr<yacl::link::Context>;
void Send(const Link& l, const yacl::Buffer& b) { l->SendAsync(l->NextRank(), b, "pir"); }
yacl::Buffer Recv(const Link& l) { return l->Recv(l->NextRank(), "pir"); }
void SendCmd(const Link& l, const char* c) { l->SendAsync(l->NextRank(), string(c), "cmd"); }
string RecvCmd(const Link& l) { return string(std::string_view(l->Recv(l->NextRank(), "cmd"))); }

// ---- piano: server node 0, clients nodes 1.. -------------------------------
void PianoServe(const PirWorld& w, pir::piano::QueryServiceServer* srv, const Link& link) {
  auto [chunk, sets] = pir::piano::GenChunkParams(w.n);
  vector<uint64_t> order;
  for (uint64_t i = 0; i < sets; ++i) order.push_back(w.order ? sets - 1 - i : i);
  for (auto i : order) Send(link, srv->GetDBChunk(i));
  while (RecvCmd(link) == "q") Send(link, srv->GenerateIndexReply(Recv(link)));
}
void PianoAsk(const PirWorld& w, int client, const Link& link) {
  auto db = PianoDb(w);
  pir::piano::QueryServiceClient c(w.n, w.threads, w.entry);
  auto [chunk, sets] = pir::piano::GenChunkParams(w.n);
  CHECK_(c.GetChunkNumber() == sets, "the client expects {} chunks, the server has {}", c.GetChunkNumber(), sets);
  for (uint64_t i = 0; i < sets; ++i) c.PreprocessDBChunk(Recv(link));
  Asker ask(w, client);
  Gen g(w.seed + 99 + client);
  int budget = std::min<uint64_t>(w.queries, c.GetTotalQueryNumber());
  int named = 0, judged = 0;
  std::set<vector<uint64_t>> seen;
  for (int k = 0; k < budget; ++k) {
    uint64_t idx = ask.Next();
    auto query = c.GenerateIndexQuery(idx);
    // what the server gets to see: one position out of every chunk, whatever is asked
    auto pos = pir::piano::DeserializeSetParityQuery(query);
    CHECK_(pos.size() == sets, "query {} for {}: names {} positions instead of {}", k, idx, pos.size(), sets);
    for (uint64_t i = 0; i < sets; ++i) CHECK_(pos[i] / chunk == i, "query {} for {}: position {} is not of chunk {}", k, idx, pos[i], i);
    bool lost = (int)g.Below(100) < w.abandon;
    if (!lost || g.P(0.5)) {
      SendCmd(link, "q");
      Send(link, query);
      auto reply = Recv(link);
      if (!lost) {
        ++judged;
        if (pos[idx / chunk] == idx) ++named;
        auto got = c.RecoverIndexReply(reply).GetData();
        vector<uint8_t> want(db.begin() + idx * w.entry, db.begin() + (idx + 1) * w.entry);
        CHECK_(got == want, "query {} for {} of {} returned another entry{}", k, idx, w.n, got == vector<uint8_t>(w.entry) ? " (zeros)" : "");
        if (sets >= 8 && !seen.insert(pos).second) throw Bad{"two queries are the same"};
      }
    }
    if (lost) { sim::NoPreempt np; sim::Probe("reply_lost"); }
  }
  SendCmd(link, "end");
  // the position asked for is replaced by a random one of its chunk
  CHECK_(Upper(judged, 1.0 / chunk, named) > kNever, "{} of {} queries name the entry that is asked for", named, judged);
}
// ---- pps: client node 0, hint server node 1, answering server node 2 --------
void PpsOffline(const PirWorld& w, const Link& link) {
  auto bits = PpsDb(w);
  pir::pps::PpsPirServer s(w.n, w.set);
  while (RecvCmd(link) == "q") {
    yacl::dynamic_bitset<> h;
    if (w.scheme == S_ONE) {
      pir::pps::PIRKey k;
      std::set<uint64_t> deltas;
      pir::pps::OfflineServerRecvFromClient(k, deltas, link);
      s.Hint(k, deltas, bits, h);
    } else {
      vector<pir::pps::PIRKeyUnion> ck;
      pir::pps::OfflineServerRecvFromClientM(ck, link);
      s.Hint(ck, bits, h);
    }
    pir::pps::OfflineServerSendToClient(h, link);
  }
}
void PpsOnline(const PirWorld& w, const Link& link) {
  auto bits = PpsDb(w);
  pir::pps::PpsPirServer s(w.n, w.set);
  while (RecvCmd(link) == "q") {
    if (w.scheme == S_ONE) {
      pir::pps::PIRPuncKey k;
      pir::pps::OnlineServerRecvFromClient(k, link);
      bool a = s.Answer(k, bits);
      pir::pps::OnlineServerSendToClient(a, link);
    } else {
      pir::pps::PIRPuncKey l, r;
      pir::pps::OnlineServerRecvFromClient(l, link);
      pir::pps::OnlineServerRecvFromClient(r, link);
      bool a = false, b = false;
      s.AnswerMulti(l, r, a, b, bits);
      pir::pps::OnlineServerSendToClient(a, link);
      pir::pps::OnlineServerSendToClient(b, link);
    }
  }
}
// does the set the answering server sums up hold the index?
bool Names(const PirWorld& w, const pir::pps::PIRPuncKey& k, uint64_t idx, size_t* size) {
  pir::pps::PPS p(w.n, w.set);
  std::set<uint64_t> s;
  p.Eval(k, s);
  *size = s.size();
  for (auto v : s) if ((v + k.delta_) % w.n == idx) return true;
  return false;
}
void PpsAsk(const PirWorld& w, const Link& off, const Link& on) {
  using namespace pir::pps;
  auto bits = PpsDb(w);
  PpsPirClient c(400, w.n, w.set);
  Asker ask(w, 0);
  PIRKey sk = 0;
  std::set<uint64_t> deltas;
  vector<PIRKeyUnion> ck;
  vector<std::unordered_set<uint64_t>> v;
  yacl::dynamic_bitset<> h;
  auto setup = [&] {
    SendCmd(off, "q");
    if (w.scheme == S_ONE) { deltas.clear(); c.Setup(sk, deltas); ClientSendToOfflineServer(sk, deltas, off); }
    else { ck.clear(); v.clear(); c.Setup(ck, v); ClientSendToOfflineServerM(ck, off); }
    ClientRecvFromOfflineServer(h, off);
    CHECK_(h.size() == (w.scheme == S_ONE ? deltas.size() : ck.size()), "{} hints for {} sets", h.size(), w.scheme == S_ONE ? deltas.size() : ck.size());
  };
  int asked = 0, named = 0;
  for (int k = 0; k < w.queries; ++k) {
    uint64_t idx = ask.Next();
    bool done = false;
    for (int tries = 0; tries < 60 && !done; ++tries) {
      // one hint serves one query of the first scheme, many of the second
      if (w.scheme == S_ONE || (k == 0 && tries == 0) || tries % 6 == 5) setup();
      PIRQueryParam par{};
      bool r = false;
      uint64_t st;
      size_t held = 0;
      SendCmd(on, "q");
      if (w.scheme == S_ONE) {
        PIRPuncKey k1;
        c.Query(idx, sk, deltas, par, k1);
        named += Names(w, k1, idx, &held);
        CHECK_(held == w.set - 1, "the punctured set holds {} of {} entries", held, w.set);
        ClientSendToOnlineServer(k1, on);
        bool a = false;
        ClientRecvFromOnlineServer(a, on);
        st = c.Reconstruct(par, h, a, r);
      } else {
        PIRPuncKey l, rr;
        c.Query(idx, ck, v, par, l, rr);
        size_t held2 = 0;
        bool nl = Names(w, l, idx, &held), nr = Names(w, rr, idx, &held2);
        named += nl || nr;
        CHECK_(held == w.set - 1 && held2 == w.set - 1, "the punctured sets hold {} and {} of {} entries", held, held2, w.set);
        ClientSendToOnlineServer(l, on);
        ClientSendToOnlineServer(rr, on);
        bool a = false, b = false;
        ClientRecvFromOnlineServer(a, on);
        ClientRecvFromOnlineServer(b, on);
        st = c.Reconstruct(par, h, a, b, r);
      }
      ++asked;
      if (st == PIR_ABORT) { sim::NoPreempt np; sim::Probe("query_aborted"); continue; }
      CHECK_(st == PIR_OK, "query {} for {}: status {}", k, idx, st);
      CHECK_(r == (bool)bits[idx], "query {} for {} of {} returned another bit", k, idx, w.n);
      done = true;
    }
    CHECK_(done, "query {} for {} is aborted every time", k, idx);
  }
  SendCmd(off, "end");
  SendCmd(on, "end");
  // the puncturing leaves the index in only with probability (s-1)/n
  double p = std::min(1.0, (w.scheme == S_ONE ? 1.0 : 2.0) * (w.set - 1) / w.n);
  CHECK_(Upper(asked, p, named) > kNever, "{} of {} queries name the entry that is asked for", named, asked);
}
// ---- simplepir: client node 0, server node 1 -------------------------------
void SimpleServe(const PirWorld& w, const Link& link) {
  pir::simple::SimplePirServer s(w.dim, w.q, w.n, w.p);
  auto db = SimpleDb(w);
  s.SetDatabase(db);
  s.GenerateLweMatrix();
  auto hint = s.GetHint();
  pir::simple::SendUint128(s.GetSeed(), link);
  pir::simple::SendVector(hint, link);
  while (RecvCmd(link) == "q") {
    vector<uint64_t> q;
    pir::simple::RecvVector(q, link);
    pir::simple::SendVector(s.Answer(q), link);
  }
  size_t r = db.size();
  for (size_t i = 0; i < w.n; ++i) CHECK_(s.GetValue(i) == db[i / r][i % r], "the server's entry {} is another one", i);
}
void SimpleAsk(const PirWorld& w, const Link& link) {
  auto db = SimpleDb(w);
  pir::simple::SimplePirClient c(w.dim, w.q, w.n, w.p, w.radius, w.sigma);
  uint128_t seed = 0;
  vector<uint64_t> hint;
  pir::simple::RecvUint128(seed, link);
  pir::simple::RecvVector(hint, link);
  c.Setup(seed, hint);
  Asker ask(w, 0);
  std::set<vector<uint64_t>> seen;
  for (int k = 0; k < w.queries; ++k) {
    uint64_t idx = ask.Next();
    auto q = c.Query(idx);
    CHECK_(q.size() == db.size(), "the query has {} elements instead of {}", q.size(), db.size());
    for (auto x : q) CHECK_(x < w.q, "the query holds {}, which is no residue", x);
    // the secret and the noise are fresh
    bool again = !seen.insert(q).second;
    CHECK_(!again || w.dim * std::log2((double)w.q) < 60 || db.size() * std::log2((double)w.q) < 60, "two queries are the same");
    SendCmd(link, "q");
    pir::simple::SendVector(q, link);
    vector<uint64_t> a;
    pir::simple::RecvVector(a, link);
    auto got = c.Recover(a);
    auto want = db[idx / db.size()][idx % db.size()];
    CHECK_(got == want, "query {} for {} of {} returned {} instead of {}", k, idx, w.n, got, want);
  }
  SendCmd(link, "end");
}

int Body(const std::function<void()>& fn) {
  try { fn(); } catch (const Bad& b) { sim::NoPreempt np; sim::SetProcMsg("BAD " + b.what); return 3; }
  catch (const std::exception& e) { sim::NoPreempt np; sim::SetProcMsg(string("THREW ") + e.what()); return 4; }
  return 0;
}
// processes; the clients come first
vector<int> SpawnPir(const PirWorld& w, const LinkOpt& lo, int* clients, int skip = -1) {
  vector<int> ps;
  *clients = 0;
  auto spawn = [&](int node, const char* name, std::function<void()> fn) {
    if (node == skip) return;
    ps.push_back(sim::Spawn(node, name, [fn] { return Body(fn); }));
  };
  if (w.scheme == S_PIANO) {
    // each client has a link of its own: nodes 0,1 and 1,2 (the server is node 1)
    for (int i = 0; i < w.clients; ++i)
      spawn(i ? 2 : 0, "client", [=] {
        auto l = MakeLink("task" + std::to_string(i), 2, i ? 1 : 0, lo, i);
        l->ConnectToMesh();
        PianoAsk(w, i, l);
      });
    *clients = ps.size();
    spawn(1, "server", [=] {
      auto db = PianoDb(w);
      pir::piano::QueryServiceServer srv(db, w.n, w.entry);
      string bad[2];
      vector<std::function<void()>> th;
      for (int i = 0; i < w.clients; ++i)
        th.push_back([&, i] {
          try {
            auto l = MakeLink("task" + std::to_string(i), 2, i ? 0 : 1, lo, i);
            l->ConnectToMesh();
            PianoServe(w, &srv, l);
          } catch (const std::exception& e) { bad[i] = e.what(); }
        });
      RunThreads(th);
      for (auto& b : bad) if (!b.empty()) throw std::runtime_error(b);
    });
  } else if (w.scheme == S_SIMPLE) {
    spawn(0, "client", [=] { auto l = MakeLink("task", 2, 0, lo); l->ConnectToMesh(); SimpleAsk(w, l); });
    *clients = ps.size();
    spawn(1, "server", [=] { auto l = MakeLink("task", 2, 1, lo); l->ConnectToMesh(); SimpleServe(w, l); });
  } else {
    // the client is node 1: nodes 0,1 are the offline link, 1,2 the online link
    spawn(1, "client", [=] {
      auto a = MakeLink("off", 2, 1, lo, 0), b = MakeLink("on", 2, 0, lo, 1);
      a->ConnectToMesh();
      b->ConnectToMesh();
      PpsAsk(w, a, b);
    });
    *clients = ps.size();
    spawn(0, "offline", [=] { auto l = MakeLink("off", 2, 0, lo, 0); l->ConnectToMesh(); PpsOffline(w, l); });
    spawn(2, "online", [=] { auto l = MakeLink("on", 2, 1, lo, 1); l->ConnectToMesh(); PpsOnline(w, l); });
  }
  return ps;
}
// false: judged already
bool JudgePir(const vector<int>& ps, bool all_must, bool none_may, int clients, const string& what) {
  for (size_t i = 0; i < ps.size(); ++i) {
    auto& pi = sim::Proc(ps[i]);
    if (pi.state == sim::P_EXITED && pi.code == 3) { sim::Violation("wrong-answer", what + string(pi.msg + 4)); return false; }
    if (pi.state == sim::P_EXITED && pi.code == 0) {
      if (none_may && (int)i < clients) { sim::Violation("wrong-answer", what + "answers without a server"); return false; }
      continue;
    }
    if (pi.state == sim::P_KILLED) continue;
    bool err = (pi.state == sim::P_EXITED && pi.code == 4) || DiedWithMessage(ps[i]);
    if (!err) { sim::Violation("crash", what + fmt::format("state {} code {} {}", pi.state, pi.code, pi.msg)); return false; }
    if (all_must) { sim::Violation("unexpected-error", what + pi.msg); return false; }
    sim::Probe("failed_loudly");
  }
  return true;
}
void Plain() {
  SetupSchedule();
  SetupNet();
  SetupClockSkew();
  PirWorld w;
  Draw(&w, false);
  sim::SetSample(Describe(w));
  sim::MarkNontrivial();
  LinkOpt lo;
  int nc;
  auto ps = SpawnPir(w, lo, &nc);
  if (!Wait(ps, 40000 * kSec, "pir")) return;
  JudgePir(ps, true, false, nc, "");
}
void Net() {
  SetupSchedule(false);
  SetupNet(false);
  PirWorld w;
  Draw(&w, true);
  NetPlan plan = DrawNetPlan();
  sim::SetSample(Describe(w) + "; " + PlanName(plan.kind));
  sim::MarkNontrivial();
  LinkOpt lo;
  lo.recv_timeout_ms = plan.must_finish ? 600000 : 20000;
  lo.connect_retry_times = 10;
  int nc;
  auto ps = SpawnPir(w, lo, &nc, plan.kind == 6 ? 1 : -1);
  RunNetPlan(plan, ps);
  if (!Wait(ps, (plan.kind == 5 ? 90000 : 30000) * kSec, PlanName(plan.kind))) return;
  JudgePir(ps, plan.must_finish, plan.kind == 6, plan.kind == 6 ? (int)ps.size() : nc, string(PlanName(plan.kind)) + ": ");
}
sim::Scenario s1("c22_pir", Plain);
sim::Scenario s2("c22_net", Net);
}  // namespace
