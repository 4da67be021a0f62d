// Two-party (and n-party) worlds around the real entry points: tables, party
// processes, links, reports, and the relational reference model.
#pragma once
#include "harness/common.h"
#include "psi/proto/psi.pb.h"
#include "psi/proto/psi_v2.pb.h"
#include "yacl/link/context.h"

namespace hx {
struct Tab {
  std::vector<std::string> cols;
  std::vector<std::vector<std::string>> rows;
  std::vector<std::string> keys;  // selected key columns, in join order
  std::vector<std::string> Key(size_t row) const;
  std::string KeyStr(size_t row) const;  // joined with \x1f
  std::string Csv() const;
  size_t KeyCount() const;
};
// how the two tables overlap and repeat keys
struct TabShape {
  int n0 = 10, n1 = 10;     // rows
  int universe = 30;        // distinct key values per column
  int dup = 0;              // 0: unique keys on side 0; bit0 dup side 0, bit1 dup side 1
  int keycols = 1;
  int overlap_pct = 50;
  bool keys_first = true;   // payload columns after the keys
  int style = 0;            // 0 digits, 1 mixed case letters, 2 long strings
  bool unsorted = true;
};
TabShape DrawShape(int maxrows, bool allow_dup = true);
void MakeTables(const TabShape& s, Gen& g, Tab* a, Tab* b);
// draws more rows of a third party etc.
// keeps tables but writes their cells with characters that need care; 1: odd
// characters in keys, 2: commas and quotes in payload columns, 3: in key
// columns, 4: in two key columns so that joined keys read the same
void Dress(Tab* t, int content, int side);
// a text cut into pieces: two different lists of keys with the same concatenation
std::string DrawCutText(Gen& g);
std::vector<std::string> CutText(const std::string& text, int most, Gen& g);
// replaces the keys of a table (one key column) by these, one row each
void ReplaceKeys(Tab* t, const std::vector<std::string>& keys, Gen& g);
std::vector<std::vector<std::string>> ParseCsv(const std::string& text, bool* ok);

struct Party {
  int node = 0;
  int rank = 0;
  Tab tab;
  psi::v2::PsiConfig cfg;
  psi::v2::UbPsiConfig ub;
  std::string dir, in, out, rep, tmp, rec;
  bool api = false;         // through the psi::api facade
};
// directories n<node>/{tmp}, input written; config paths filled
void PlaceParty(Party* p, int node, const std::string& sub = "");
struct LinkOpt { uint64_t recv_timeout_ms = 600000; uint32_t connect_retry_times = 60; uint32_t connect_retry_ms = 1000; };
std::shared_ptr<yacl::link::Context> MakeLink(const std::string& id, int world, int rank, const LinkOpt& o = {}, int node0 = 0);

struct Outcome {
  bool started = false;
  int state = 0;            // P_*
  bool ok = false;          // returned success
  std::string err;
  int64_t original_count = -9, intersection_count = -9, original_key_count = -9, intersection_key_count = -9;
};
// body of a party process; runs fn, stores the report, returns exit code
int PartyMain(const Party& p, const std::function<psi::PsiResultReport()>& fn);
int SpawnPsi(const Party& p, const std::string& link_id, const LinkOpt& o = {}, int world = 2);
int SpawnUb(const Party& p, const std::string& link_id, const LinkOpt& o = {});
// the task itself, through RunPsi/RunUbPsi or their api facade
psi::PsiResultReport RunTask(const Party& p, const std::shared_ptr<yacl::link::Context>& link);
psi::PsiResultReport RunUbTaskOf(const Party& p, const std::shared_ptr<yacl::link::Context>& link);
Outcome GetOutcome(const Party& p, int proc);

// ---- reference model -------------------------------------------------------
struct Expect {
  int type = 1;             // AdvancedJoinType (1 inner .. 5 difference)
  bool self_left = true;
  bool broadcast = true;    // both get it
  std::string null_rep = "NULL";
};
// expected multiset of output rows of side `self` (placeholder rows included)
std::vector<std::vector<std::string>> ExpectedRows(const Tab& self, const Tab& peer, const Expect& e);
struct Counts { int64_t orig, keys, inter, inter_keys; };
Counts ExpectedCounts(const Tab& self, const Tab& peer);
// compares an output file with the model; "" when right, else what is wrong
std::string CheckOutput(const Party& self, const Tab& peer, const Expect& e);
// both outputs: line k carries the same key, or a placeholder opposite
std::string CheckAligned(const Party& a, const Party& b, const std::string& null_rep);
// counts of a report
std::string CheckCounts(const Outcome& o, const Tab& self, const Tab& peer, bool entitled);
std::string CheckNoOutput(const Party& p);
// outcome of a task with an intersection threshold (inner join); "" when right
std::string JudgeThreshold(const Party p[2], const bool ent[2], const Outcome o[2], uint32_t threshold, bool align);
std::string Clip(const std::string& s, size_t n = 300);
}  // namespace hx

namespace hx {
struct World2 {
  Party p[2];               // index = rank
  Expect e;                 // of the party p[0]; left flips for p[1]
  bool broadcast = true;
  int recv_rank = 0;
  int protocol = 1;
  uint32_t threshold = 0;   // of a threshold task
  Expect For(int rank) const { Expect x = e; if (rank == 1) x.self_left = !x.self_left; return x; }
  bool Entitled(int rank) const { return broadcast || rank == recv_rank; }
};
struct Opt2 {
  int maxrows = 60;
  bool joins = false;       // draw a join type
  bool dup = true;
  bool unique_attr = true;  // may declare keys_unique when true
  bool small = false;       // keep crypto cheap
  int broadcast = -1;       // -1 draw
  bool recovery = false;
  bool threshold = false;   // may be a threshold task (ECDH, inner join)
  int curve_cls = -1;
  int content = 0;          // see Dress
};
// draws tables and configuration of a two-party task
// draws the guarded size constants of the code under test
void SetupSizes();
void BuildPsi2(World2* w, int protocol, const Opt2& o);
// complete judgement of a run whose parties both succeeded; "" if right
std::string JudgeSuccess(const World2& w, const Outcome o[2]);
std::string Describe(const World2& w);
}  // namespace hx
