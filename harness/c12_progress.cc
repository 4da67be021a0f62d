// C12: concurrent use of psi::Progress.
// A job tree of depth <= 2 is driven by worker threads while reader threads
// poll the root.  Every Get is bracketed: updates completed before it started
// are a lower bound, updates begun before it returned an upper bound.
#include "harness/common.h"
#include "psi/utils/progress.h"

using namespace hx;
using psi::Progress;

namespace {
struct Node {
  std::vector<size_t> weights;           // declared (composite)
  std::vector<std::shared_ptr<Node>> sub;  // in declaration order
  bool composite = false;
  // leaf bounds
  size_t issued = 0, completed = 0;
  bool added = false;   // visible in the tree: add started
};
// upper / lower bound of the percentage the node may report
size_t Bound(const Node& n, bool upper) {
  sim::NoPreempt np;
  if (!n.composite) return upper ? n.issued : n.completed;
  size_t tw = 0, t = 0;
  for (auto w : n.weights) tw += w;
  for (size_t i = 0; i < n.sub.size() && i < n.weights.size(); ++i)
    t += n.weights[i] * Bound(*n.sub[i], upper);
  return t / (tw == 0 ? 1 : tw);
}
struct Ctx {
  std::shared_ptr<Progress> root;
  Node model;
  size_t last_max = 0;   // highest percentage any finished Get returned
  bool all_done = false;
  std::shared_ptr<Progress> watch;  // the job a watcher follows
  int reads = 0, partial = 0;
};

void CheckedGet(Ctx& c, const char* who) {
  size_t lo, lo_done;
  bool done_before;
  bool said_done = c.root->IsDone();
  {
    sim::NoPreempt np;
    lo_done = Bound(c.model, false);
    lo = std::max(lo_done, c.last_max);
    done_before = c.all_done;
  }
  auto d = c.root->Get();
  sim::NoPreempt np;
  size_t hi = Bound(c.model, true);
  char b[256];
  auto fail = [&](const char* tag) {
    snprintf(b, sizeof b, "%s: Get()=%zu%% (total %zu finished %zu running %zu), justified range [%zu,%zu]", who,
             d.percentage, d.total, d.finished, d.running, lo, hi);
    sim::Violation(tag, b);
  };
  if (d.percentage > 100) fail("percentage-out-of-range");
  else if (d.percentage > hi) fail("percentage-not-justified");
  else if (d.percentage < lo_done) fail("update-lost");
  else if (d.percentage < lo) fail("percentage-went-back");
  if (d.finished + d.running > d.total) fail("counts-inconsistent");
  if (said_done && d.percentage != 100) fail("done-but-below-100");
  if (done_before && (d.percentage != 100 || d.finished != d.total || d.running != 0)) fail("not-100-when-done");
  c.last_max = std::max(c.last_max, d.percentage);
  c.reads++;
  if (d.percentage > 0 && d.percentage < 100) c.partial++;
}

// One worker drives one leaf with non-decreasing values.
void DriveLeaf(const std::shared_ptr<Progress>& p, Node& n, Gen g, int updates, bool finish) {
  size_t v = 0;
  for (int i = 0; i < updates; ++i) {
    v = std::min<size_t>(130, v + g.Below(60));
    size_t eff = std::min<size_t>(v, 100);
    n.issued = std::max(n.issued, eff);
    p->Update(v);
    n.completed = std::max(n.completed, eff);
    if (g.P(0.2)) sim::Yield("worker");
  }
  if (finish) {
    n.issued = 100;
    p->Done();
    n.completed = 100;
    if (!p->IsDone()) sim::Violation("done-not-visible", "IsDone() false after Done()");
  }
}

void Body() {
  Gen g(Param("wseed", 1, 1 << 30));
  Ctx c;
  c.root = std::make_shared<Progress>(Param("desc", 0, 1) ? "task" : "");
  int subs = Param("subs", 1, 5);
  int shape = Param("shape", 0, 4);  // 0 parallel adds, 1 serial next, 2 nested, 3 root Done() races, 4 shared leaf
  int readers = Param("readers", 1, 3);
  int nreads = Param("reads", 1, 12);
  int updates = Param("updates", 0, 6);
  bool use_weights = Param("use_weights", 0, 1);
  c.model.composite = true;
  for (int i = 0; i < subs; ++i) c.model.weights.push_back(use_weights ? g.Below(8) : 1);
  if (use_weights) { size_t t = 0; for (auto w : c.model.weights) t += w; if (t == 0) c.model.weights[0] = 1; }
  auto mode = Param("mode", 0, 1) ? Progress::Mode::kParallel : Progress::Mode::kSerial;
  if (use_weights) c.root->SetWeights(c.model.weights, mode);
  else c.root->SetSubJobCount(subs, mode);
  sim::MarkNontrivial();

  std::vector<std::function<void()>> th;
  for (int r = 0; r < readers; ++r)
    th.push_back([&c, r, nreads] { for (int i = 0; i < nreads; ++i) CheckedGet(c, r ? "reader" : "reader0"); });

  std::vector<std::shared_ptr<Progress>> leaves(subs);
  auto add = [&](int i) {
    auto n = std::make_shared<Node>();
    return n;
  };
  if (shape == 1) {
    // a single driver walks through the phases; Next marks the previous done
    th.push_back([&, g]() mutable {
      for (int i = 0; i < subs; ++i) {
        auto n = add(i);
        if (!c.model.sub.empty()) c.model.sub.back()->issued = 100;
        { sim::NoPreempt np; c.model.sub.push_back(n); }
        auto p = c.root->NextSubProgress("phase " + std::to_string(i));
        { sim::NoPreempt np; c.watch = p; }
        if (i > 0) c.model.sub[i - 1]->completed = 100;
        DriveLeaf(p, *n, Gen(g.Next()), updates, i == subs - 1 || g.P(0.5));
      }
      c.all_done = true;
    });
  } else if (shape == 0 || shape == 3 || shape == 4) {
    // workers add their own leaf concurrently; weights all equal so that the
    // order in which they arrive does not matter to the model
    if (use_weights) { for (auto& w : c.model.weights) w = 3; c.root->SetWeights(c.model.weights, mode); }
    auto left = std::make_shared<int>(subs);
    bool early_done = shape == 3;
    auto reg = std::make_shared<int>(0);
    for (int i = 0; i < subs; ++i) {
      auto gs = g.Next();
      th.push_back([&, gs, left, reg, i, early_done] {
        auto n = std::make_shared<Node>();
        { sim::NoPreempt np; c.model.sub.push_back(n); }
        auto p = c.root->AddSubProgress(i % 2 ? "job" : "");
        { sim::NoPreempt np; c.watch = p; }
        { sim::NoPreempt np; ++*reg; }
        if (shape == 4 && subs > 0) {
          // two threads of the job report on the same leaf
          auto q = p; auto m = n;
          std::thread t2([q, m, gs, updates] { DriveLeaf(q, *m, Gen(gs + 1), updates, false); });
          DriveLeaf(p, *n, Gen(gs), updates, false);
          t2.join();
          DriveLeaf(p, *n, Gen(gs), 0, true);
        } else {
          DriveLeaf(p, *n, Gen(gs), updates, !early_done);
        }
        { sim::NoPreempt np; if (--*left == 0 && !early_done) c.all_done = true; }
      });
    }
    if (early_done) {
      // somebody declares the whole task finished while late updates arrive
      th.push_back([&, reg] {
        while (*reg < subs) sim::SleepNs(1000);
        for (auto& n : c.model.sub) n->issued = 100;
        c.root->Done();
        for (auto& n : c.model.sub) n->completed = 100;
        c.all_done = true;
        if (!c.root->IsDone()) sim::Violation("done-not-visible", "root IsDone() false after Done()");
      });
    }
  } else {
    // nested: each sub job is itself a composite with parallel leaves
    if (use_weights) { for (auto& w : c.model.weights) w = 2; c.root->SetWeights(c.model.weights, mode); }
    auto left = std::make_shared<int>(subs);
    for (int i = 0; i < subs; ++i) {
      auto gs = g.Next();
      int inner = 1 + g.Below(3);
      th.push_back([&, gs, left, inner, i] {
        auto n = std::make_shared<Node>();
        n->composite = true;
        n->weights.assign(inner, 1);
        { sim::NoPreempt np; c.model.sub.push_back(n); }
        auto p = c.root->AddSubProgress("group");
        p->SetSubJobCount(inner, i % 2 ? Progress::Mode::kParallel : Progress::Mode::kSerial);
        std::vector<std::function<void()>> in;
        for (int k = 0; k < inner; ++k)
          in.push_back([&, k, p, n] {
            auto leaf = std::make_shared<Node>();
            { sim::NoPreempt np; n->sub.push_back(leaf); }
            auto q = p->AddSubProgress();
            DriveLeaf(q, *leaf, Gen(gs + k), updates, true);
          });
        RunThreads(in);
        if (i % 2) p->Done();
        { sim::NoPreempt np; if (--*left == 0) c.all_done = true; }
      });
    }
  }
  // a watcher follows single jobs: once a job says done, it reports 100%
  th.push_back([&] {
    size_t last = 0;
    std::shared_ptr<Progress> cur;
    for (int i = 0; i < 12; ++i) {
      { sim::NoPreempt np; if (c.watch && cur != c.watch) { cur = c.watch; last = 0; } }
      if (!cur) { sim::Yield("watch"); continue; }
      bool done = cur->IsDone();
      auto d = cur->Get();
      char b[128];
      snprintf(b, sizeof b, "job: IsDone()=%d then %zu%% (earlier %zu%%)", done, d.percentage, last);
      if (done && d.percentage != 100) sim::Violation("done-but-below-100", b);
      if (d.percentage < last) sim::Violation("percentage-went-back", b);
      if (d.percentage > 100) sim::Violation("percentage-out-of-range", b);
      last = d.percentage;
    }
  });
  RunThreads(th);
  if (sim::HasVerdict()) return;
  c.all_done = true;
  CheckedGet(c, "final");
  if (c.partial) sim::Probe("progress_partial_read");
  char b[160];
  snprintf(b, sizeof b, "shape %d, %d sub jobs, %d readers, %d reads, %d of them partial", shape, subs, readers, c.reads, c.partial);
  sim::SetSample(b);
}

void C12() {
  auto& k = sim::K();
  static const double ps[] = {0.05, 0.2, 0.5};
  k.p_sched = ps[Param("k_sched", 0, 2)];
  static const uint64_t mm[] = {4000, 400, 60, 12};
  k.mem_mean = mm[Param("k_mem", 0, 3)];
  k.p_spur = Param("k_spur", 0, 2) == 2 ? 0.05 : 0;
  sim::RearmKnobs();
  int p = sim::Spawn(0, "task", [] { Body(); return 0; });
  ExpectAllExit({p}, 600ull * 1000000000ull, "progress");
}
sim::Scenario s1("c12_progress", C12);

// Sub jobs beyond the declared ones must not corrupt the report.
void C12Extra() {
  auto& k = sim::K();
  k.p_sched = 0.3;
  k.mem_mean = 200;
  sim::RearmKnobs();
  int p = sim::Spawn(0, "task", [] {
    Gen g(Param("wseed", 1, 1 << 30));
    auto root = std::make_shared<Progress>();
    int declared = Param("declared", 0, 3);
    int subs = Param("subs", 0, 6);
    auto mode = Param("mode", 0, 1) ? Progress::Mode::kParallel : Progress::Mode::kSerial;
    if (Param("weights", 0, 1)) root->SetWeights(std::vector<size_t>(declared, 3), mode);
    else root->SetSubJobCount(declared, mode);
    bool over = false;
    sim::MarkNontrivial();
    auto reader = [&] {
      for (int i = 0; i < 4; ++i) {
        auto d = root->Get();
        if (d.percentage > 100) sim::Violation("percentage-out-of-range", "percentage " + std::to_string(d.percentage) + " with " + std::to_string(declared) + " declared sub jobs");
        if (d.finished + d.running > d.total) sim::Violation("counts-inconsistent", "finished " + std::to_string(d.finished) + " running " + std::to_string(d.running) + " total " + std::to_string(d.total) + " declared " + std::to_string(declared));
      }
    };
    RunThreads({reader, [&] {
      for (int i = 0; i < subs; ++i) {
        auto q = g.P(0.5) ? root->NextSubProgress("x") : root->AddSubProgress("y");
        q->Update(g.Below(100));
        if (i >= declared) over = true;
        if (g.P(0.5)) q->Done();
      }
      root->Done();
    }});
    reader();
    if (over) sim::Probe("more_sub_jobs_than_declared");
    return 0;
  });
  ExpectAllExit({p}, 600ull * 1000000000ull, "progress-extra");
}
sim::Scenario s2("c12_extra", C12Extra);
}  // namespace
