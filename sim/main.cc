// Run driver: explores seeds, replays and minimises recorded runs.
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <string.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <iostream>
#include <map>
#include <nlohmann/json.hpp>
#include <regex>
#include <set>
#include <unordered_set>

#include "sim.h"

using nlohmann::json;
using namespace sim;

static double Now() {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static const char* VerdictName(int v) {
  static const char* n[] = {"ok", "violation", "inconclusive", "harness"};
  return v >= 0 && v < 4 ? n[v] : "?";
}
static std::string Hex(uint64_t v) { char b[32]; snprintf(b, sizeof b, "%016lx", (unsigned long)v); return b; }

static json SpecJson(const RunSpec& s, const RunResult& r) {
  json j;
  j["scenario"] = s.scenario;
  j["seed"] = s.seed;
  j["params"] = json::object();
  for (auto& p : r.params) j["params"][p.first] = p.second;
  json d = json::array();
  for (auto& x : r.decisions) d.push_back({kKindNames[x.kind], x.index, x.value});
  j["decisions"] = d;
  j["expect"] = {{"verdict", VerdictName(r.verdict)}, {"tag", r.tag}, {"detail", r.detail},
                 {"trace_hash", Hex(r.trace_hash)}, {"sim_seconds", r.sim_ns * 1e-9}};
  return j;
}
static RunSpec SpecFrom(const json& j) {
  RunSpec s;
  s.scenario = j["scenario"];
  s.seed = j["seed"];
  s.replay = true;
  for (auto it = j["params"].begin(); it != j["params"].end(); ++it) s.params.push_back({it.key(), it.value()});
  for (auto& d : j["decisions"]) {
    Decision x{};
    std::string k = d[0];
    for (uint32_t i = 0; i < K_KINDS; ++i) if (k == kKindNames[i]) x.kind = i;
    x.index = d[1]; x.value = d[2];
    s.decisions.push_back(x);
  }
  return s;
}

struct Known {
  std::string id, scenario, tag, detail;
  std::map<std::string, std::pair<int64_t, int64_t>> params;
  std::regex re;
};
static std::vector<Known> g_known;
static void LoadKnown(const std::string& f) {
  std::ifstream in(f);
  if (!in) return;
  json j = json::parse(in);
  for (auto& e : j["findings"]) {
    Known k;
    k.id = e["id"]; k.tag = e.value("tag", ""); k.scenario = e.value("scenario", ""); k.detail = e.value("detail", "");
    k.re = std::regex(k.detail.empty() ? ".*" : k.detail);
    if (e.contains("params"))
      for (auto it = e["params"].begin(); it != e["params"].end(); ++it)
        k.params[it.key()] = {it.value()[0].get<int64_t>(), it.value()[1].get<int64_t>()};
    g_known.push_back(k);
  }
}
static std::string MatchKnown(const std::string& scenario, const RunResult& r) {
  for (auto& k : g_known) {
    if (!k.scenario.empty() && k.scenario != scenario) continue;
    if (!k.tag.empty() && k.tag != r.tag) continue;
    bool ok = true;
    for (auto& p : k.params) {
      bool found = false;
      for (auto& q : r.params) if (q.first == p.first) { found = q.second >= p.second.first && q.second <= p.second.second; }
      if (!found) ok = false;
    }
    if (!ok) continue;
    if (!std::regex_search(r.detail, k.re)) continue;
    return k.id;
  }
  return "";
}

struct Args {
  std::map<std::string, std::string> kv;
  std::vector<std::string> pos;
  bool verbose = false;
  std::vector<std::pair<std::string, int64_t>> params;
  std::string get(const std::string& k, const std::string& d = "") { auto it = kv.find(k); return it == kv.end() ? d : it->second; }
};

static uint64_t Mix64(uint64_t z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

static void Quiet() {
  int fd = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR);
  dup2(fd, 1);
  if (!getenv("SIM_STDERR")) dup2(fd, 2);
}

static int WorkerMain(Args& a, int w, int W, const std::vector<std::pair<std::string, double>>& scen) {
  Quiet();
  WorkerInit();
  uint64_t base = strtoull(a.get("seed", "1").c_str(), nullptr, 10);
  double T = atof(a.get("time", "10").c_str());
  long maxruns = atol(a.get("runs", "1000000000").c_str());
  long stop_after = atol(a.get("stop", "3").c_str());
  double wall = atof(a.get("wall", "60").c_str());
  long check_every = atol(a.get("check-every", "40").c_str());
  std::string out = a.get("out");
  double total = 0;
  for (auto& s : scen) total += s.second;
  json J;
  std::map<std::string, json> per;
  std::map<std::string, uint64_t> probes, known_hits;
  std::map<std::string, json> known_sample;
  uint64_t stats[S_COUNT] = {};
  std::unordered_set<uint64_t> sched, trace;
  std::unordered_set<uint64_t> nontriv_trace;
  long runs = 0, ok = 0, viol = 0, inconc = 0, harness = 0, nontriv = 0, rep = 0, repbad = 0, unknown = 0;
  double simsec = 0; uint64_t steps = 0, ndec = 0;
  json violations = json::array(), samples = json::array(), incs = json::array(), bad = json::array();
  std::map<std::string, int> per_tag, per_inc;
  double t0 = Now();
  std::string stopf = out + "/stop";
  for (long i = w; i < maxruns; i += W) {
    if (Now() - t0 > T) break;
    if (unknown >= stop_after || access(stopf.c_str(), F_OK) == 0) break;
    uint64_t seed = Mix64(base * 0x2545F4914F6CDD1Dull + i) >> 1;
    // scenario by golden-ratio sequence, so that any prefix is balanced
    double u = (i * 0.6180339887498949 + (base % 97) * 0.13);
    u = (u - (long)u) * total;
    size_t k = 0;
    while (k + 1 < scen.size() && u >= scen[k].second) { u -= scen[k].second; ++k; }
    RunSpec s;
    s.scenario = scen[k].first; s.seed = seed; s.params = a.params;
    RunResult r = RunOnce(s, wall);
    ++runs;
    json& ps = per[s.scenario];
    if (ps.is_null()) ps = {{"runs", 0}, {"ok", 0}, {"violation", 0}, {"inconclusive", 0}, {"harness", 0}, {"nontrivial", 0}, {"wall", 0.0}, {"sim_seconds", 0.0}};
    ps["runs"] = ps["runs"].get<long>() + 1;
    ps[VerdictName(r.verdict)] = ps[VerdictName(r.verdict)].get<long>() + 1;
    ps["wall"] = ps["wall"].get<double>() + r.wall;
    ps["sim_seconds"] = ps["sim_seconds"].get<double>() + r.sim_ns * 1e-9;
    if (r.nontrivial) { ps["nontrivial"] = ps["nontrivial"].get<long>() + 1; nontriv++; nontriv_trace.insert(r.sched_hash ^ std::hash<std::string>()(s.scenario)); }
    for (int x = 0; x < S_COUNT; ++x) stats[x] += r.stats[x];
    for (auto& p : r.probes) probes[p.first] += p.second;
    simsec += r.sim_ns * 1e-9; steps += r.steps; ndec += r.decisions.size();
    sched.insert(r.sched_hash); trace.insert(r.trace_hash);
    if (samples.size() < 2 && r.nontrivial && r.verdict == V_OK)
      samples.push_back({{"scenario", s.scenario}, {"seed", seed}, {"what", r.sample}, {"decisions", r.decisions.size()}, {"trace_hash", Hex(r.trace_hash)}});
    if (r.verdict == V_OK) ++ok;
    else if (r.verdict == V_INCONCLUSIVE) {
      ++inconc;
      if (per_inc[r.tag + r.detail.substr(0, 30)]++ < 2) incs.push_back({{"scenario", s.scenario}, {"seed", seed}, {"tag", r.tag}, {"detail", r.detail}});
    } else if (r.verdict == V_HARNESS) {
      ++harness;
      if (bad.size() < 10) bad.push_back({{"scenario", s.scenario}, {"seed", seed}, {"detail", r.detail}, {"tag", r.tag}});
    } else {
      std::string id = MatchKnown(s.scenario, r);
      if (!id.empty()) {
        known_hits[id]++;
        if (!known_sample.count(id)) known_sample[id] = SpecJson(s, r);
      } else {
        ++viol; ++unknown;
        if (per_tag[s.scenario + r.tag]++ < 3) violations.push_back(SpecJson(s, r));
        if (unknown >= stop_after) { int fd = (int)syscall(SYS_openat, AT_FDCWD, stopf.c_str(), O_CREAT | O_WRONLY, 0600); syscall(SYS_close, fd); }
      }
    }
    // determinism: replay the recorded decisions and compare the whole trace
    if (runs % check_every == 0 && r.verdict <= V_VIOLATION) {
      RunSpec q = s;
      q.replay = true; q.params = r.params; q.decisions = r.decisions;
      RunResult r2 = RunOnce(q, wall);
      ++rep;
      if (r2.trace_hash != r.trace_hash || r2.verdict != r.verdict) {
        ++repbad;
        if (bad.size() < 10) bad.push_back({{"scenario", s.scenario}, {"seed", seed}, {"detail", "replay diverged: " + r2.detail}, {"tag", "nondeterminism"}});
      }
    }
  }
  J["runs"] = runs; J["ok"] = ok; J["violations_n"] = viol; J["inconclusive"] = inconc; J["harness"] = harness; J["nontrivial"] = nontriv;
  J["distinct_nontrivial"] = nontriv_trace.size();
  J["replay_checks"] = rep; J["replay_mismatch"] = repbad; J["sim_seconds"] = simsec; J["steps"] = steps; J["decisions"] = ndec;
  J["wall"] = Now() - t0;
  json st; for (int x = 0; x < S_COUNT; ++x) st[kStatNames[x]] = stats[x];
  J["stats"] = st; J["probes"] = probes; J["per_scenario"] = per; J["violations"] = violations; J["samples"] = samples;
  J["inconclusive_list"] = incs; J["bad"] = bad; J["known_hits"] = known_hits; J["known_samples"] = known_sample;
  J["distinct_schedules"] = sched.size(); J["distinct_traces"] = trace.size();
  { std::ofstream f(out + "/w" + std::to_string(w) + ".json"); f << J.dump(1); }
  { std::ofstream f(out + "/w" + std::to_string(w) + ".hash", std::ios::binary);
    for (uint64_t h : nontriv_trace) f.write(reinterpret_cast<const char*>(&h), 8); }
  { std::ofstream f(out + "/w" + std::to_string(w) + ".sched", std::ios::binary);
    for (uint64_t h : sched) f.write(reinterpret_cast<const char*>(&h), 8); }
  WorkerCleanup();
  return 0;
}

static pid_t g_kids[64];
static int g_nkids = 0;
static void OnTerm(int) {
  for (int i = 0; i < g_nkids; ++i) kill(g_kids[i], SIGTERM);
  _exit(143);
}

static int Explore(Args& a) {
  LoadKnown(a.get("known"));
  std::vector<std::pair<std::string, double>> scen;
  std::string s = a.get("scenarios");
  size_t p = 0;
  while (p < s.size()) {
    size_t e = s.find(',', p);
    if (e == std::string::npos) e = s.size();
    std::string t = s.substr(p, e - p);
    size_t c = t.find(':');
    scen.push_back({t.substr(0, c), c == std::string::npos ? 1.0 : atof(t.c_str() + c + 1)});
    p = e + 1;
  }
  int W = atoi(a.get("workers", "8").c_str());
  mkdir(a.get("out").c_str(), 0700);
  signal(SIGTERM, OnTerm); signal(SIGINT, OnTerm);
  for (int w = 0; w < W; ++w) {
    pid_t pid = fork();
    if (pid == 0) { signal(SIGTERM, SIG_DFL); signal(SIGINT, SIG_DFL); int rc = WorkerMain(a, w, W, scen); _exit(rc); }
    g_kids[g_nkids++] = pid;
  }
  int rc = 0;
  for (int i = 0; i < g_nkids; ++i) { int st; waitpid(g_kids[i], &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { rc = 3; fprintf(stderr, "worker %d status %x\n", i, st); } }
  return rc;
}

static json ResultJson(const RunResult& r) {
  json j;
  j["verdict"] = VerdictName(r.verdict); j["tag"] = r.tag; j["detail"] = r.detail;
  j["trace_hash"] = Hex(r.trace_hash); j["sched_hash"] = Hex(r.sched_hash); j["sim_seconds"] = r.sim_ns * 1e-9; j["steps"] = r.steps;
  j["decisions"] = r.decisions.size(); j["wall"] = r.wall; j["nontrivial"] = r.nontrivial; j["sample"] = r.sample;
  for (auto& p : r.params) j["params"][p.first] = p.second;
  for (int x = 0; x < S_COUNT; ++x) if (r.stats[x]) j["stats"][kStatNames[x]] = r.stats[x];
  for (auto& p : r.probes) j["probes"][p.first] = p.second;
  return j;
}

static int One(Args& a) {
  WorkerInit();
  RunSpec s;
  s.scenario = a.get("scenario"); s.seed = strtoull(a.get("seed", "1").c_str(), nullptr, 10); s.params = a.params; s.verbose = a.verbose;
  RunResult r = RunOnce(s, atof(a.get("wall", "120").c_str()));
  std::cout << ResultJson(r).dump(1) << std::endl;
  if (!a.get("save").empty()) { std::ofstream f(a.get("save")); f << SpecJson(s, r).dump(1); }
  WorkerCleanup();
  return r.verdict == V_OK ? 0 : r.verdict;
}

static int Replay(Args& a) {
  std::ifstream in(a.pos.at(0));
  json j = json::parse(in);
  WorkerInit();
  RunSpec s = SpecFrom(j);
  s.verbose = a.verbose;
  RunResult r = RunOnce(s, atof(a.get("wall", "120").c_str()));
  json o = ResultJson(r);
  LoadKnown(a.get("known"));
  o["known"] = r.verdict == V_VIOLATION ? MatchKnown(s.scenario, r) : "";
  o["matches_expect"] = j.contains("expect") && o["verdict"] == j["expect"]["verdict"] && o["tag"] == j["expect"]["tag"] && o["trace_hash"] == j["expect"]["trace_hash"];
  std::cout << o.dump(1) << std::endl;
  WorkerCleanup();
  return r.verdict == V_OK ? 0 : r.verdict;
}

static int Minimise(Args& a) {
  std::ifstream in(a.pos.at(0));
  json j = json::parse(in);
  LoadKnown(a.get("known"));
  Quiet();
  WorkerInit();
  RunSpec best = SpecFrom(j);
  std::string tag = j["expect"]["tag"];
  double deadline = Now() + atof(a.get("time", "60").c_str());
  double wall = atof(a.get("wall", "60").c_str());
  RunResult last;
  auto fails = [&](RunSpec& s) {
    RunResult r = RunOnce(s, wall);
    if (r.verdict != V_VIOLATION || r.tag != tag || !MatchKnown(s.scenario, r).empty()) return false;
    s.params = r.params;
    s.decisions = r.decisions;
    last = r;
    return true;
  };
  if (!fails(best)) { WorkerCleanup(); return 4; }
  RunResult good = last;
  auto try_spec = [&](RunSpec c) {
    if (Now() > deadline) return false;
    if (!fails(c)) return false;
    best = c; good = last;
    return true;
  };
  bool progress = true;
  while (progress && Now() < deadline) {
    progress = false;
    // whole kinds
    for (uint32_t k = 0; k < K_KINDS; ++k) {
      RunSpec c = best;
      c.decisions.clear();
      for (auto& d : best.decisions) if (d.kind != k) c.decisions.push_back(d);
      if (c.decisions.size() < best.decisions.size() && try_spec(c)) progress = true;
    }
    // chunks
    for (size_t chunk = std::max<size_t>(1, best.decisions.size() / 2); chunk >= 1 && Now() < deadline; chunk /= 2) {
      for (size_t i = 0; i < best.decisions.size() && Now() < deadline;) {
        RunSpec c = best;
        size_t e = std::min(i + chunk, c.decisions.size());
        c.decisions.erase(c.decisions.begin() + i, c.decisions.begin() + e);
        if (try_spec(c)) progress = true; else i += chunk;
      }
      if (chunk == 1) break;
    }
    for (size_t p = 0; p < best.params.size() && Now() < deadline; ++p) {
      int64_t v = best.params[p].second;
      for (int64_t nv : {(int64_t)0, (int64_t)1, v / 2, v - 1}) {
        if (nv == v || std::llabs(nv) > std::llabs(v)) continue;
        RunSpec c = best;
        if (p >= c.params.size()) break;
        std::string nm = c.params[p].first;
        c.params[p].second = nv;
        if (!fails(c)) continue;
        int64_t got = v;
        for (auto& q : c.params) if (q.first == nm) got = q.second;
        if (got == v) continue;
        best = c; good = last; progress = true;
        break;
      }
    }
  }
  // normalise: the recorded decisions of the final run are the file
  RunSpec s = best;
  json o = SpecJson(s, good);
  for (auto it = j.begin(); it != j.end(); ++it) if (!o.contains(it.key())) o[it.key()] = it.value();
  std::ofstream f(a.pos.at(1));
  f << o.dump(1) << "\n";
  WorkerCleanup();
  return 0;
}

int main(int argc, char** argv) {
  int per = personality(0xffffffff);
  if (!(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_ASLR_TRIED")) {
    personality(per | ADDR_NO_RANDOMIZE);
    setenv("SIM_ASLR_TRIED", "1", 1);
    execv("/proc/self/exe", argv);
  }
  Args a;
  if (argc < 2) return 64;
  std::string mode = argv[1];
  for (int i = 2; i < argc; ++i) {
    std::string s = argv[i];
    if (s == "-v") a.verbose = true;
    else if (s == "--param") {
      std::string p = argv[++i];
      size_t e = p.find('=');
      a.params.push_back({p.substr(0, e), atoll(p.c_str() + e + 1)});
    } else if (s.rfind("--", 0) == 0) a.kv[s.substr(2)] = argv[++i];
    else a.pos.push_back(s);
  }
  if (mode == "explore") return Explore(a);
  if (mode == "one") return One(a);
  if (mode == "replay") return Replay(a);
  if (mode == "minimise") return Minimise(a);
  return 64;
}
