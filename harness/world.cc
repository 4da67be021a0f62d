#include "harness/world.h"

#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <nlohmann/json.hpp>

#include "psi/apps/psi_launcher/launch.h"
#include "spdlog/spdlog.h"

namespace hx {
void SetupSizes() {
  static const char* const names[] = {"table_batch", "ecdh_batch", "oprf_batch", "index_cache", "rr22_chunk", "kkrt_batch", "dp_batch", "provider_batch", "legacy_bucket", "ub_csv_batch"};
  static const size_t vals[] = {0, 1, 2, 3, 5, 8, 16, 40};
  if (Param("sz_mode", 0, 2) == 0) return;  // as shipped
  char b[40];
  bool any = false;
  for (auto* n : names) {
    snprintf(b, sizeof b, "sz_%s", n);
    size_t v = vals[Param(b, 0, 7)];
    sim::SetSize(n, v);
    any |= v && v <= 8;
  }
  if (Param("sz_rr22_bin", 0, 3) == 3) sim::SetSize("rr22_bin", 32);
  if (any) sim::Probe("small_batches");
}
static bool g_sizes_armed = (g_setup_sizes = SetupSizes, true);
using std::string;
using std::vector;
string Clip(const string& s, size_t n) { return s.size() <= n ? s : s.substr(0, n) + "..."; }

vector<string> Tab::Key(size_t r) const {
  vector<string> k;
  for (auto& c : keys) k.push_back(rows[r][std::find(cols.begin(), cols.end(), c) - cols.begin()]);
  return k;
}
string Tab::KeyStr(size_t r) const {
  string s;
  for (auto& k : Key(r)) { if (!s.empty()) s += '\x1f'; s += k; }
  return s;
}
size_t Tab::KeyCount() const {
  std::set<string> s;
  for (size_t i = 0; i < rows.size(); ++i) s.insert(KeyStr(i));
  return s.size();
}
static string Join(const vector<string>& v) {
  string s;
  for (size_t i = 0; i < v.size(); ++i) { if (i) s += ','; s += v[i]; }
  return s;
}
string Tab::Csv() const {
  auto line = [](vector<string> v) {
    for (auto& x : v) {
      if (x.find_first_of(",\"") == string::npos) continue;
      string q = "\"";
      for (char c : x) { if (c == '"') q += c; q += c; }
      x = q + "\"";
    }
    return Join(v) + "\n";
  };
  string s = line(cols);
  for (auto& r : rows) s += line(r);
  return s;
}

TabShape DrawShape(int maxrows, bool allow_dup) {
  TabShape s;
  // sizes: mostly small, some very unequal
  int cls = Param("size_cls", 0, 5);
  int hi = cls <= 1 ? std::min(maxrows, 6) : cls <= 3 ? std::min(maxrows, 40) : maxrows;
  s.n0 = Param("rows0", 1, hi);
  s.n1 = Param("rows1", 1, cls == 5 ? std::max(1, hi / 8) : hi);
  s.overlap_pct = Param("overlap", 0, 4) * 25;
  s.dup = allow_dup ? Param("dup", 0, 3) : 0;
  s.keycols = Param("keycols", 1, 2);
  s.keys_first = Param("keys_first", 0, 1);
  s.style = Param("keystyle", 0, 3);
  return s;
}

static string Val(const TabShape& s, int64_t v) {
  char b[64];
  switch (s.style) {
    case 0: snprintf(b, sizeof b, "%ld", (long)v); break;
    case 1: snprintf(b, sizeof b, "%c%c%ld", v % 2 ? 'a' : 'A', (int)('a' + v % 26), (long)(v / 3)); break;
    case 2: return "id-" + string(v % 40, 'x') + std::to_string(v);
    default: snprintf(b, sizeof b, "%04ld.user_%ld", (long)(v * 7919 % 10000), (long)v); break;
  }
  return b;
}

void MakeTables(const TabShape& s, Gen& g, Tab* a, Tab* b) {
  // distinct keys: common + own
  int keys0 = s.dup & 1 ? std::max(1, (int)(s.n0 / (1 + g.Below(3)))) : s.n0;
  int keys1 = s.dup & 2 ? std::max(1, (int)(s.n1 / (1 + g.Below(3)))) : s.n1;
  int common = (std::min(keys0, keys1) * s.overlap_pct + 99) / 100;
  int total = keys0 + keys1 - common;
  vector<vector<string>> uni;
  vector<int64_t> ids;
  for (int i = 0; i < total; ++i) ids.push_back(i);
  g.Shuffle(ids);
  int side = 1;
  while (s.keycols == 2 && side * side < total) ++side;
  for (int i = 0; i < total; ++i) {
    vector<string> k;
    if (s.keycols == 1) k = {Val(s, ids[i] + 5)};
    else k = {Val(s, ids[i] / side), Val(s, ids[i] % side + 3)};
    uni.push_back(k);
  }
  auto fill = [&](Tab* t, int off, int nkeys, int n, const char* pre, bool dup) {
    int npay = g.Below(3);
    vector<string> kc, pc;
    for (int i = 0; i < s.keycols; ++i) kc.push_back(string(pre) + "k" + std::to_string(i));
    for (int i = 0; i < npay; ++i) pc.push_back(string(pre) + "v" + std::to_string(i));
    t->keys = kc;
    if (s.keys_first) { t->cols = kc; t->cols.insert(t->cols.end(), pc.begin(), pc.end()); }
    else {
      t->cols = pc; t->cols.insert(t->cols.end(), kc.rbegin(), kc.rend());
    }
    vector<int> pick;
    for (int i = 0; i < nkeys; ++i) pick.push_back(off + i);
    while ((int)pick.size() < n) pick.push_back(off + g.Below(g.P(0.3) ? 1 : nkeys));
    if ((int)pick.size() > n) pick.resize(n);
    g.Shuffle(pick);
    int serial = 0;
    for (int id : pick) {
      std::map<string, string> m;
      for (int i = 0; i < s.keycols; ++i) m[kc[i]] = uni[id][i];
      ++serial;
      for (int i = 0; i < npay; ++i) m[pc[i]] = (i ? "w" : "p") + std::to_string(g.Below(1000)) + "_" + std::to_string(serial);
      vector<string> row;
      for (auto& c : t->cols) row.push_back(m[c]);
      t->rows.push_back(row);
    }
    (void)dup;
  };
  // side 0 owns [0,keys0), side 1 owns [keys0-common, total)
  fill(a, 0, keys0, s.n0, "a", s.dup & 1);
  fill(b, keys0 - common, keys1, s.n1, "b", s.dup & 2);
}

void Dress(Tab* t, int content, int side) {
  static const char* const odd[] = {"\xc3\xa9", "a b ", "-", "+", "0x", "1e", "#", "'", ";", "|", "$HOME", "%s", "\\", "NULL", "nan", "~", "=", "*", "`", "\xe4\xb8\xad"};
  std::set<string> key(t->keys.begin(), t->keys.end());
  auto h = [](const string& s) { uint64_t x = 7; for (unsigned char c : s) x = x * 131 + c; return x ^ (x >> 7); };
  for (auto& r : t->rows) {
    uint64_t rh = h(r[std::find(t->cols.begin(), t->cols.end(), t->keys[0]) - t->cols.begin()]);
    for (size_t c = 0; c < r.size(); ++c) {
      string& v = r[c];
      bool k = key.count(t->cols[c]);
      if (content == 1 && k) v = h(v) % 3 == 0 ? v + odd[h(v) / 3 % 20] : odd[h(v) / 3 % 20] + ("_" + v);
      else if (content == 2 && !k) v = h(v) % 3 == 0 ? v + ", \"x\", y" : h(v) % 3 == 1 ? "," + v : v;
      else if (content == 3 && k) v = h(v) % 3 == 0 ? v + ",b" : h(v) % 3 == 1 ? "a \"" + v + "\"" : v;
      else if (content == 4 && k && rh % 2) {
        if (t->cols[c] == t->keys[0] && side == 0) v += ",m";
        else if (t->cols[c] != t->keys[0] && side == 1) v = "m," + v;
      }
    }
  }
}
string DrawCutText(Gen& g) {
  // ascending characters, so that the pieces of every cut are in order
  string s;
  double p = 0.1 + 0.1 * g.Below(8);
  for (int c = '0'; c <= 'z'; ++c) if (isalnum(c) && g.P(p)) s += (char)c;
  return s.empty() ? "5" : s;
}
vector<string> CutText(const string& text, int most, Gen& g) {
  int n = 1 + g.Below(std::min<int>(most, text.size()));
  std::set<size_t> cut;
  while ((int)cut.size() < n - 1) cut.insert(1 + g.Below(text.size() - 1));
  vector<string> out;
  size_t at = 0;
  for (auto c : cut) { out.push_back(text.substr(at, c - at)); at = c; }
  out.push_back(text.substr(at));
  return out;
}
void ReplaceKeys(Tab* t, const vector<string>& keys, Gen& g) {
  size_t k = std::find(t->cols.begin(), t->cols.end(), t->keys[0]) - t->cols.begin();
  vector<string> model(t->cols.size(), "v");
  t->rows.clear();
  for (size_t i = 0; i < keys.size(); ++i) {
    for (size_t c = 0; c < model.size(); ++c) if (c != k) model[c] = "p" + std::to_string(g.Below(1000)) + "_" + std::to_string(i);
    model[k] = keys[i];
    t->rows.push_back(model);
  }
}
vector<vector<string>> ParseCsv(const string& t, bool* ok) {
  vector<vector<string>> out;
  *ok = t.empty() || t.back() == '\n';
  for (auto& l : SplitLines(t)) {
    vector<string> f(1);
    bool q = false;
    for (size_t i = 0; i < l.size(); ++i) {
      char c = l[i];
      if (c == '"' && q && i + 1 < l.size() && l[i + 1] == '"') { f.back() += c; ++i; }
      else if (c == '"') q = !q;
      else if (c == ',' && !q) f.emplace_back();
      else f.back() += c;
    }
    if (q) *ok = false;
    out.push_back(f);
  }
  return out;
}

void PlaceParty(Party* p, int node, const string& sub) {
  p->node = node;
  p->dir = string(sim::ScratchDir()) + "/n" + std::to_string(node) + sub;
  string base = string(sim::ScratchDir()) + "/n" + std::to_string(node);
  syscall(SYS_mkdirat, AT_FDCWD, base.c_str(), 0755);
  syscall(SYS_mkdirat, AT_FDCWD, p->dir.c_str(), 0755);
  p->tmp = p->dir + "/tmp";
  syscall(SYS_mkdirat, AT_FDCWD, p->tmp.c_str(), 0755);
  string ind = p->dir + "/in", od = p->dir + "/out", wd = p->dir + "/cwd";
  syscall(SYS_mkdirat, AT_FDCWD, ind.c_str(), 0755);
  syscall(SYS_mkdirat, AT_FDCWD, od.c_str(), 0755);
  syscall(SYS_mkdirat, AT_FDCWD, wd.c_str(), 0755);
  p->in = ind + "/input.csv";
  p->out = od + "/output.csv";
  p->rep = p->dir + "/report.json";
  p->rec = p->dir + "/rec";
  if (!p->tab.cols.empty()) WriteFile(p->in, p->tab.Csv());
  auto& c = p->cfg;
  c.mutable_input_config()->set_type(psi::v2::IO_TYPE_FILE_CSV);
  c.mutable_input_config()->set_path(p->in);
  c.mutable_output_config()->set_type(psi::v2::IO_TYPE_FILE_CSV);
  c.mutable_output_config()->set_path(p->out);
  c.clear_keys();
  for (auto& k : p->tab.keys) c.add_keys(k);
  c.mutable_debug_options()->set_logging_level("off");
  c.mutable_debug_options()->set_trace_path(p->dir + "/psi.trace");
}

std::shared_ptr<yacl::link::Context> MakeLink(const string& id, int world, int rank, const LinkOpt& o, int node0) {
  yacl::link::ContextDesc d;
  d.id = id;
  for (int i = 0; i < world; ++i) d.parties.push_back({"p" + std::to_string(i), "n" + std::to_string(node0 + i)});
  d.recv_timeout_ms = o.recv_timeout_ms;
  d.connect_retry_times = o.connect_retry_times;
  d.connect_retry_interval_ms = o.connect_retry_ms;
  d.throttle_window_size = sim::K().throttle;
  return yacl::link::FactoryBrpc().CreateContext(d, rank);
}

int PartyMain(const Party& p, const std::function<psi::PsiResultReport()>& fn) {
  spdlog::set_level(spdlog::level::off);
  setenv("TMPDIR", p.tmp.c_str(), 1);
  if (syscall(SYS_chdir, (p.dir + "/cwd").c_str()) != 0) return 99;
  // what a task logs is not looked at
  static int null_fd = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY);
  syscall(SYS_dup2, null_fd, 1);
  struct AllocOn { AllocOn() { sim_alloc_hook_on = sim::K().alloc_budget != 0; } ~AllocOn() { sim_alloc_hook_on = 0; } };
  try {
    psi::PsiResultReport r = [&] { AllocOn on; return fn(); }();
    nlohmann::json j;
    j["o"] = r.original_count(); j["i"] = r.intersection_count();
    j["ok"] = r.original_key_count(); j["ik"] = r.intersection_key_count();
    WriteFile(p.rep, j.dump());
    return 0;
  } catch (const std::exception& e) {
    sim::SetProcMsg(e.what());
    return 2;
  } catch (...) {
    sim::SetProcMsg("unknown exception");
    return 2;
  }
}
static void ApiIo(const Party& p, const psi::v2::IoConfig& in, const psi::v2::IoConfig& out, const google::protobuf::RepeatedPtrField<string>& keys, bool unique, bool align_off,
                  const string& null_rep, psi::api::InputParams* ip, psi::api::OutputParams* op) {
  ip->type = psi::api::SourceType::SOURCE_TYPE_FILE_CSV;
  ip->path = in.path();
  ip->selected_keys.assign(keys.begin(), keys.end());
  ip->keys_unique = unique;
  op->type = psi::api::SourceType::SOURCE_TYPE_FILE_CSV;
  op->path = out.path();
  op->disable_alignment = align_off;
  op->csv_null_rep = null_rep.empty() ? "NULL" : null_rep;
}
static psi::PsiResultReport FromApi(const psi::api::PsiExecuteReport& a) {
  psi::PsiResultReport r;
  r.set_original_count(a.original_count);
  r.set_intersection_count(a.intersection_count);
  r.set_original_key_count(a.original_unique_count);
  r.set_intersection_key_count(a.intersection_unique_count);
  return r;
}
psi::PsiResultReport RunTask(const Party& p, const std::shared_ptr<yacl::link::Context>& link) {
  if (!p.api) return psi::RunPsi(p.cfg, link);
  const auto& c = p.cfg;
  const auto& pc = c.protocol_config();
  psi::api::PsiExecuteConfig a;
  uint32_t recv = (pc.role() == psi::v2::ROLE_RECEIVER) == (p.rank == 0) ? 0 : 1;
  a.protocol_conf.protocol = pc.protocol() == 1   ? psi::api::PsiProtocol::PROTOCOL_ECDH
                             : pc.protocol() == 2 ? psi::api::PsiProtocol::PROTOCOL_KKRT
                                                  : psi::api::PsiProtocol::PROTOCOL_RR22;
  a.protocol_conf.receiver_rank = recv;
  a.protocol_conf.broadcast_result = pc.broadcast_result();
  a.protocol_conf.ecdh_params.curve = (psi::api::EllipticCurveType)pc.ecdh_config().curve();
  a.protocol_conf.ecdh_params.batch_size = pc.ecdh_config().batch_size();
  if (pc.protocol() == 2) a.protocol_conf.bucket_size = pc.kkrt_config().bucket_size();
  if (pc.protocol() == 3) a.protocol_conf.bucket_size = pc.rr22_config().bucket_size();
  a.protocol_conf.rr22_params.low_comm_mode = pc.rr22_config().low_comm_mode();
  ApiIo(p, c.input_config(), c.output_config(), c.keys(), c.input_attr().keys_unique(), c.disable_alignment(), c.output_attr().csv_null_rep(), &a.input_params, &a.output_params);
  a.checkpoint_conf.enable = c.recovery_config().enabled();
  a.checkpoint_conf.path = c.recovery_config().folder();
  a.join_conf.type = (psi::api::ResultJoinType)c.advanced_join_type();
  a.join_conf.left_side_rank = c.left_side() == psi::v2::ROLE_RECEIVER || c.left_side() == psi::v2::ROLE_UNSPECIFIED ? recv : 1 - recv;
  return FromApi(psi::api::PsiExecute(a, link));
}
psi::PsiResultReport RunUbTaskOf(const Party& p, const std::shared_ptr<yacl::link::Context>& link) {
  if (!p.api || !link) return psi::RunUbPsi(p.ub, link);
  const auto& u = p.ub;
  psi::api::ub::UbPsiExecuteConfig a;
  static const std::map<int, psi::api::ub::UbPsiExecuteConfig::Mode> modes = {
      {psi::v2::UbPsiConfig::MODE_OFFLINE_GEN_CACHE, psi::api::ub::UbPsiExecuteConfig::Mode::MODE_OFFLINE_GEN_CACHE},
      {psi::v2::UbPsiConfig::MODE_OFFLINE_TRANSFER_CACHE, psi::api::ub::UbPsiExecuteConfig::Mode::MODE_OFFLINE_TRANSFER_CACHE},
      {psi::v2::UbPsiConfig::MODE_OFFLINE, psi::api::ub::UbPsiExecuteConfig::Mode::MODE_OFFLINE},
      {psi::v2::UbPsiConfig::MODE_ONLINE, psi::api::ub::UbPsiExecuteConfig::Mode::MODE_ONLINE},
      {psi::v2::UbPsiConfig::MODE_FULL, psi::api::ub::UbPsiExecuteConfig::Mode::MODE_FULL}};
  a.mode = modes.at(u.mode());
  bool srv = u.role() == psi::v2::ROLE_SERVER;
  a.role = srv ? psi::api::ub::UbPsiRole::ROLE_SERVER : psi::api::ub::UbPsiRole::ROLE_CLIENT;
  a.server_receive_result = u.server_get_result();
  a.client_receive_result = u.client_get_result();
  a.cache_path = u.cache_path();
  a.server_params.secret_key_path = u.server_secret_key_path();
  ApiIo(p, u.input_config(), u.output_config(), u.keys(), u.input_attr().keys_unique(), u.disable_alignment(), u.output_attr().csv_null_rep(), &a.input_params, &a.output_params);
  a.join_conf.type = (psi::api::ResultJoinType)u.advanced_join_type();
  uint32_t srv_rank = srv ? p.rank : 1 - p.rank;
  a.join_conf.left_side_rank = u.left_side() == psi::v2::ROLE_SERVER ? srv_rank : 1 - srv_rank;
  return FromApi(psi::api::UbPsiExecute(a, link));
}
int SpawnPsi(const Party& p, const string& id, const LinkOpt& o, int world) {
  return sim::Spawn(p.node, p.cfg.protocol_config().role() == psi::v2::ROLE_RECEIVER ? "receiver" : "sender", [=] {
    return PartyMain(p, [&] { return RunTask(p, MakeLink(id, world, p.rank, o)); });
  });
}
int SpawnUb(const Party& p, const string& id, const LinkOpt& o) {
  return sim::Spawn(p.node, p.ub.role() == psi::v2::ROLE_SERVER ? "server" : "client", [=] {
    return PartyMain(p, [&] { return RunUbTaskOf(p, MakeLink(id, 2, p.rank, o)); });
  });
}
Outcome GetOutcome(const Party& p, int proc) {
  Outcome o;
  const auto& i = sim::Proc(proc);
  o.started = true;
  o.state = i.state;
  o.ok = i.state == sim::P_EXITED && i.code == 0;
  o.err = i.msg;
  if (o.ok) {
    auto j = nlohmann::json::parse(ReadFile(p.rep), nullptr, false);
    if (!j.is_discarded() && j.is_object()) {
      o.original_count = j["o"]; o.intersection_count = j["i"];
      o.original_key_count = j["ok"]; o.intersection_key_count = j["ik"];
    }
  }
  return o;
}

static std::map<string, int> KeyHist(const Tab& t) {
  std::map<string, int> m;
  for (size_t i = 0; i < t.rows.size(); ++i) m[t.KeyStr(i)]++;
  return m;
}
vector<vector<string>> ExpectedRows(const Tab& self, const Tab& peer, const Expect& e) {
  auto pk = KeyHist(peer), sk = KeyHist(self);
  vector<vector<string>> out;
  bool inter = e.type != 5;
  bool own_except = e.type == 4 || e.type == 5 || (e.type == 2 && e.self_left) || (e.type == 3 && !e.self_left);
  bool peer_except = e.type == 4 || e.type == 5 || (e.type == 2 && !e.self_left) || (e.type == 3 && e.self_left);
  for (size_t i = 0; i < self.rows.size(); ++i) {
    auto it = pk.find(self.KeyStr(i));
    if (it != pk.end()) { if (inter) for (int k = 0; k < it->second; ++k) out.push_back(self.rows[i]); }
    else if (own_except) out.push_back(self.rows[i]);
  }
  if (peer_except && e.broadcast)
    for (size_t i = 0; i < peer.rows.size(); ++i)
      if (!sk.count(peer.KeyStr(i))) out.push_back(vector<string>(self.cols.size(), e.null_rep));
  return out;
}
Counts ExpectedCounts(const Tab& self, const Tab& peer) {
  auto pk = KeyHist(peer), sk = KeyHist(self);
  Counts c{};
  c.orig = self.rows.size(); c.keys = sk.size();
  for (auto& k : sk) if (pk.count(k.first)) { c.inter += k.second; c.inter_keys++; }
  return c;
}
string CheckOutput(const Party& self, const Tab& peer, const Expect& e) {
  if (!FileExists(self.out)) return "no output file";
  bool ok;
  auto got = ParseCsv(ReadFile(self.out), &ok);
  if (!ok) return "output file is torn: " + Clip(ReadFile(self.out), 200);
  if (got.empty()) return "output file is empty";
  if (got[0] != self.tab.cols) return "wrong header " + Join(got[0]);
  got.erase(got.begin());
  auto want = ExpectedRows(self.tab, peer, e);
  auto g2 = got;
  std::sort(g2.begin(), g2.end());
  std::sort(want.begin(), want.end());
  if (g2 == want) return "";
  vector<vector<string>> miss, extra;
  std::set_difference(want.begin(), want.end(), g2.begin(), g2.end(), std::back_inserter(miss));
  std::set_difference(g2.begin(), g2.end(), want.begin(), want.end(), std::back_inserter(extra));
  string s = std::to_string(got.size()) + " rows, expected " + std::to_string(want.size()) + "; missing " + std::to_string(miss.size());
  if (!miss.empty()) s += " (e.g. " + Join(miss[0]) + ")";
  s += ", extra " + std::to_string(extra.size());
  if (!extra.empty()) s += " (e.g. " + Join(extra[0]) + ")";
  return s;
}
string CheckAligned(const Party& a, const Party& b, const string& null_rep) {
  bool ok;
  auto x = ParseCsv(ReadFile(a.out), &ok), y = ParseCsv(ReadFile(b.out), &ok);
  if (x.size() != y.size()) return "different number of lines: " + std::to_string(x.size()) + " and " + std::to_string(y.size());
  auto key = [&](const Party& p, const vector<string>& r) {
    bool ph = true;
    for (auto& v : r) ph = ph && v == null_rep;
    if (ph) return string("\x01null");
    string s;
    for (auto& c : p.tab.keys) {
      size_t i = std::find(p.tab.cols.begin(), p.tab.cols.end(), c) - p.tab.cols.begin();
      if (!s.empty()) s += '|';
      s += i < r.size() ? r[i] : string("?");
    }
    return s;
  };
  for (size_t i = 1; i < x.size(); ++i) {
    string k = key(a, x[i]), l = key(b, y[i]);
    if (k == l && k[0] != '\x01') continue;
    if ((k[0] == '\x01') != (l[0] == '\x01')) continue;  // unmatched row opposite a placeholder
    return "line " + std::to_string(i) + ": key " + k + " opposite key " + l;
  }
  return "";
}
string CheckCounts(const Outcome& o, const Tab& self, const Tab& peer, bool entitled) {
  auto c = ExpectedCounts(self, peer);
  char b[300];
  int64_t wi = entitled ? c.inter : -1, wk = entitled ? c.inter_keys : 0;
  if (o.original_count != c.orig || o.original_key_count != c.keys || o.intersection_count != wi || o.intersection_key_count != wk) {
    snprintf(b, sizeof b, "report says original %ld (keys %ld) intersection %ld (keys %ld), expected %ld (%ld) %ld (%ld)", (long)o.original_count,
             (long)o.original_key_count, (long)o.intersection_count, (long)o.intersection_key_count, (long)c.orig, (long)c.keys, (long)wi, (long)wk);
    return b;
  }
  return "";
}
string CheckNoOutput(const Party& p) { return FileExists(p.out) ? "an output file exists: " + Clip(ReadFile(p.out), 120) : ""; }
string JudgeThreshold(const Party p[2], const bool ent[2], const Outcome o[2], uint32_t threshold, bool align) {
  auto a = KeyHist(p[0].tab), b = KeyHist(p[1].tab);
  std::set<string> inter;
  for (auto& k : a) if (b.count(k.first)) inter.insert(k.first);
  size_t want = std::min<size_t>(threshold, inter.size());
  std::set<string> s[2];
  for (int r = 0; r < 2; ++r) {
    string who = p[r].rank ? "rank 1: " : "rank 0: ";
    if (!o[r].ok) continue;
    if (!ent[r]) {
      string x = CheckNoOutput(p[r]);
      if (!x.empty()) return who + x;
      if (FileExists(p[r].dir + "/count.csv")) return who + "a count file exists";
      if (o[r].intersection_count > 0) return who + "reports an intersection count it may not know";
      continue;
    }
    if (!FileExists(p[r].out)) return who + "no output file";
    bool ok;
    auto got = ParseCsv(ReadFile(p[r].out), &ok);
    if (!ok || got.empty() || got[0] != p[r].tab.cols) return who + "output file is torn or has another header";
    Tab t = p[r].tab;
    t.rows.assign(got.begin() + 1, got.end());
    for (size_t i = 0; i < t.rows.size(); ++i) {
      if (t.rows[i].size() != t.cols.size()) return who + "a row with a wrong number of columns";
      string k = t.KeyStr(i);
      if (!inter.count(k)) return who + "a row outside the intersection: " + Join(t.rows[i]);
      s[r].insert(k);
    }
    if (s[r].size() != want) return who + fmt::format("{} keys revealed; threshold {}, intersection {}", s[r].size(), threshold, inter.size());
    Tab peer = p[1 - r].tab;
    for (auto& row : peer.rows) {
      Tab one = peer; one.rows = {row};
      if (!s[r].count(one.KeyStr(0))) row[std::find(peer.cols.begin(), peer.cols.end(), peer.keys[0]) - peer.cols.begin()] = "\x02";
    }
    Expect e;
    string x = CheckOutput(p[r], peer, e);
    if (x.empty()) x = CheckCounts(o[r], p[r].tab, peer, true);
    if (!x.empty()) return who + x;
    string c = ReadFile(p[r].dir + "/count.csv"), wc = fmt::format("real_count,final_count\n{},{}\n", inter.size(), want);
    if (c != wc) return who + "count file says " + Clip(c, 80) + " instead of " + wc;
  }
  if (ent[0] && ent[1] && o[0].ok && o[1].ok) {
    if (s[0] != s[1]) return "the parties got different parts of the intersection";
    if (align) { string x = CheckAligned(p[0], p[1], "NULL"); if (!x.empty()) return "outputs not aligned: " + x; }
  }
  return "";
}
}  // namespace hx
