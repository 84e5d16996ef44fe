// Workers that are used: C27. Time passes only while every thread waits, so the
// simulated times of starts and ends are exact.
#include "common_util.h"
#include <algorithm>
#include <k52/common/random.h>
#include <k52/parallel/worker_pool_factory.h>
#include <k52/parallel/i_task.h>
#include <k52/parallel/i_task_result.h>
#include <k52/optimization/random_search.h>
#include <k52/optimization/genetic_algorithm.h>
#include <k52/optimization/linear_mutator.h>
#include <k52/optimization/discrete_objective_function.h>
#include <k52/optimization/params/double_parameters_array.h>
#include <k52/optimization/params/continuous_parameters_array.h>

using namespace k52::parallel;
using namespace k52::optimization;
namespace {
const uint64_t MS = 1000000ull;
enum { MAXJ = 4096 };
struct Job { uint64_t from, to; int thread; };
struct Log { int n, first; Job j[MAXJ]; } L;
#define NT __attribute__((no_sanitize("thread"), noinline))
NT void note(uint64_t from, uint64_t to, int thread) { if (L.n < MAXJ) { Job& j = L.j[L.n++]; j.from = from; j.to = to; j.thread = thread; } }
NT void perform(uint64_t ms) { uint64_t a = sim_now_ns(); sim_sleep_ns(ms * MS); note(a, sim_now_ns(), sim_self()); }
// a batch handed over at t0 and given back at t1 to `cpus` workers
void check_busy(uint64_t t0, uint64_t t1, int count, int cpus, const char* what) {
  int n = L.n - L.first; const Job* j = L.j + L.first; L.first = L.n;
  if (count >= 0 && n != count) sim_violation("task-count", "%s: %d tasks were performed instead of %d", what, n, count);
  if (!n) return;
  uint64_t last_start = t0, last_end = t0, busy = 0;
  for (int i = 0; i < n; i++) { last_start = std::max(last_start, j[i].from); last_end = std::max(last_end, j[i].to); }
  for (int i = 0; i < n; i++) if (j[i].from < last_start) busy += std::min(j[i].to, last_start) - j[i].from;
  // until the last task was started every worker had work, but for the moment it takes to notice
  uint64_t all = (uint64_t)cpus * (last_start - t0), slack = (uint64_t)(n + cpus) * 20 * MS;
  if (busy + slack < all)
    sim_violation("idle-workers", "%s: %d tasks for %d workers: the last one was started after %.3f s, until then the workers were busy for only %.3f of %.3f s",
                  what, n, cpus, (last_start - t0) * 1e-9, busy * 1e-9, all * 1e-9);
  if (t1 > last_end + 50 * MS) sim_violation("late-return", "%s: the last task ended at %.3f s but the call returned at %.3f s", what, (last_end - t0) * 1e-9, (t1 - t0) * 1e-9);
  for (int i = 0; i < n; i++) { // and never more at once than there are workers
    int at = 0; for (int k = 0; k < n; k++) if (j[k].from <= j[i].from && j[i].from < j[k].to) at++;
    if (at > cpus) sim_violation("too-many-at-once", "%s: %d tasks at once on %d processors", what, at, cpus);
  }
  sim_probe("batches_measured", 1); if (n > cpus) sim_probe("batches_larger_than_pool", 1);
  sim_state(H(H(n, cpus), last_start > t0));
}
struct PTask : ITask {
  PTask() : ms(0), fail(0) {}
  ITaskResult* Perform() const { perform(ms); if (fail) fail_with(fail - 1, "failure"); return new ITaskResult(); }
  uint64_t ms; int fail;
};
uint64_t duration(uint64_t h, int shape) { return shape == 0 ? 1000 : shape == 1 ? 300 + h % 3000 : h % 7 == 0 ? 300 + h % 40000 : 300 + h % 500; }
int g_shape, g_cpus; uint64_t g_salt, g_t0; int g_pop; bool g_cache;
uint64_t key(const std::vector<double>& v) { uint64_t h = g_salt; for (size_t i = 0; i < v.size(); i++) h = HD(h, v[i]); return h; }
struct DF : DiscreteObjectiveFunction {
  DF() {} DF(const DF&) : DiscreteObjectiveFunction() {}
  double operator()(const IDiscreteParameters* const p) const {
    uint64_t h = key(dynamic_cast<const DoubleParametersArray*>(p)->get_values());
    perform(duration(h, g_shape)); return (double)(h % 1000);
  }
  DF* Clone() const { return new DF(); }
};
struct CF : ContinuousObjectiveFunction {
  CF() : takes_time(true) {} CF(const CF& o) : ContinuousObjectiveFunction(), takes_time(o.takes_time) {}
  bool takes_time;
  double operator()(const std::vector<double>& v) const { uint64_t h = key(v); if (takes_time) perform(duration(h, g_shape)); return (double)(h % 1000); }
  CF* Clone() const { return new CF(*this); }
};
struct Inner : ContinuousOptimizer {
  Inner* Clone() const { return new Inner(); }
  std::string get_name() const { return "inner"; }
  std::vector<double> FindOptimalParameters(const std::vector<double>& v) { perform(duration(key(v) + 1, g_shape)); return v; }
};
void on_generation(GenerationStatistics) {
  uint64_t t = sim_now_ns();
  check_busy(g_t0, t, g_cache ? -1 : g_pop, g_cpus, "evaluation of a generation");
  g_t0 = t;
}
}
extern "C" void scenario_pool_parallel() {
  sim_no_stalls();
  g_cpus = 2 + (int)sim_draw(7);
  sim_set_cpus(g_cpus);
  static const double sp[] = {0, 0, 3, 20}; sim_spurious_wakeups(sp[sim_draw(4)]);
  g_shape = (int)sim_draw(3); g_salt = sim_draw(1 << 20);
  switch (sim_draw(4)) {
    default: {
      IWorkerPool::shared_ptr pool = WorkerPoolFactory::CreateBestWorkerPool();
      int batches = 1 + (int)sim_draw(4);
      bool failing = sim_chance(20);
      for (int b = 0; b < batches; b++) {
        if (sim_chance(30)) sim_sleep_ns(sim_draw(200000) * MS); // idle before the batch
        std::vector<PTask> ts(sim_chance(30) ? (size_t)g_cpus : sim_draw(5 * g_cpus));
        std::vector<const ITask*> v;
        for (size_t i = 0; i < ts.size(); i++) { ts[i].ms = duration(sim_draw(1 << 20), g_shape); if (failing && sim_chance(30)) ts[i].fail = 1 + (int)sim_draw(kFailKinds); v.push_back(&ts[i]); }
        uint64_t t0 = sim_now_ns();
        try { pool->DoTasks(v); } catch (...) { sim_probe("failing_batches", 1); }
        check_busy(t0, sim_now_ns(), (int)ts.size(), g_cpus, "batch");
      }
      break;
    }
    case 1: {
      g_pop = 2 * (1 + (int)sim_draw(12)); g_cache = sim_chance(30);
      k52::common::Random::Instance(); sim_rand_mode(RAND_UNIFORM, sim_draw(1 << 20));
      GeneticAlgorithm::shared_ptr ga = GeneticAlgorithm::Create(g_pop, (int)sim_draw(3), 1 + (int)sim_draw(5), IMutator::shared_ptr(new LinearMutator(0.3, 0.1)), g_cache ? 10 : 0, 1e9, "");
      ga->OnNextGenerationReadyConnect(&on_generation);
      for (int k = 0; k < 2; k++) { DoubleParametersArray p(0, 1, 0.01, 2); g_t0 = sim_now_ns(); ga->Optimize(DF(), &p, true); }
      sim_probe("genetic_optimisations", 1);
      break;
    }
    case 2: {
      k52::common::Random::Instance(); sim_rand_mode(RAND_UNIFORM, sim_draw(1 << 20));
      int n = 1 + (int)sim_draw(24); bool inner = sim_chance(50); Inner in; CF f; f.takes_time = !inner;
      RandomSearch rs((size_t)n, -1, 1, inner ? &in : NULL);
      for (int k = 0; k < 2; k++) {
        ContinuousParametersArray p(std::vector<double>(2, 0.)); uint64_t t0 = sim_now_ns();
        rs.Optimize(f, &p, sim_chance(50));
        check_busy(t0, sim_now_ns(), n, g_cpus, inner ? "random search with an optimiser" : "random search");
      }
      sim_probe("random_searches", 1);
      break;
    }
  }
  if (sim_live_threads() != 1) sim_violation("threads-left", "%d worker threads remain", sim_live_threads() - 1);
}
