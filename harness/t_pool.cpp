// Worker pools under simulated schedules and faults: C01 - C05.
#include "common_util.h"
#include <cstdio>
#include <boost/thread.hpp>
#include <boost/bind/bind.hpp>
#include <stdexcept>
#include <exception>
#include <boost/thread.hpp>
#include <k52/parallel/worker_pool_factory.h>
#include <k52/parallel/i_task.h>
#include <k52/parallel/i_task_result.h>

using k52::parallel::ITask;
using k52::parallel::ITaskResult;
using k52::parallel::IWorkerPool;
using k52::parallel::WorkerPoolFactory;

namespace {

struct Result : ITaskResult {
  explicit Result(uint64_t v) : owner(0), value(v) { for (int i = 0; i < 4; i++) payload.push_back(v + i); }
  bool intact() const { if (payload.size() != 4) return false; for (int i = 0; i < 4; i++) if (payload[i] != value + i) return false; return true; }
  ~Result() { if (owner && sim_self() + 1 != owner) sim_violation("result-kept", "a result of a batch was still held by another thread after the call had returned"); }
  int owner; // thread that may destroy it, plus 1; 0: any
  uint64_t value;
  std::vector<uint64_t> payload;
};

// What a task does: deterministic work, possibly yielding, sleeping, allocating
// or failing.  All marks are its own, so there is no race in the harness.
struct Task : ITask {
  Task() : id(0), work(0), sleep_us(0), fail(0), returns_null(false), starts(0), ends(0) {}
  virtual ITaskResult* Perform() const {
    starts++;
    uint64_t acc = id * 1000003ull;
    for (int i = 0; i < work; i++) { acc = H(acc, i); if (i % 3 == 1) sim_yield(); }
    if (sleep_us) sim_sleep_ns((uint64_t)sleep_us * 1000);
    if (fail) { char m[40]; snprintf(m, sizeof m, "failure of task %llu", (unsigned long long)id); fail_with(fail - 1, m); }
    ends++;
    if (returns_null) return NULL;
    return new Result(expected());
  }
  uint64_t expected() const { return H(id, (uint64_t)work); }
  uint64_t id; int work; int sleep_us; int fail; bool returns_null;
  mutable int starts, ends;
};

struct Swarm { int cpus; bool sleeps; double spurious; };
Swarm environment(int mincpu) {
  Swarm s;
  s.cpus = mincpu + (int)sim_draw(7); if (sim_chance(3)) s.cpus += (int)sim_draw(28);
  s.sleeps = sim_chance(40);
  static const double sp[] = {0, 0, 2, 15, 40};
  s.spurious = sp[sim_draw(5)];
  sim_set_cpus(s.cpus);
  sim_spurious_wakeups(s.spurious);
  return s;
}
void fill(std::vector<Task>& ts, bool sleeps, uint64_t salt) {
  for (size_t i = 0; i < ts.size(); i++) {
    ts[i].id = salt * 1000 + i + 1;
    if (ts.size() > 100 && i % 50) continue; // big batches: mostly trivial tasks
    ts[i].work = sim_chance(50) ? (int)sim_draw(12) : 0;
    if (sleeps && sim_chance(30)) ts[i].sleep_us = 1 + (int)sim_draw(5000);
  }
}
size_t batch_size(int cpus) {
  if ((sim_draw(150) == 149)) return ((size_t)64 << sim_draw(7)) + (size_t)sim_draw(70);
  switch (sim_draw(6)) {
    case 0: return 1;
    case 1: return sim_draw(3);
    case 2: return cpus;
    case 3: return cpus + 1;
    case 4: return sim_draw(2 * cpus + 3);
    default: return sim_draw(24);
  }
}
void check_batch(const std::vector<Task>& ts, const std::vector<ITaskResult::shared_ptr>& rs, const char* who) {
  if (rs.size() != ts.size()) sim_violation("result-count", "%s: %zu tasks gave %zu results", who, ts.size(), rs.size());
  for (size_t i = 0; i < ts.size(); i++) {
    if (ts[i].starts != 1 || ts[i].ends != 1)
      sim_violation(ts[i].starts == 0 ? "task-lost" : "task-repeated", "%s: task %zu of %zu was started %d and finished %d times", who, i, ts.size(), ts[i].starts, ts[i].ends);
    if (ts[i].returns_null) { if (rs[i].get()) sim_violation("wrong-result", "%s: slot %zu should be empty", who, i); continue; }
    const Result* r = dynamic_cast<const Result*>(rs[i].get());
    if (!r) sim_violation("result-missing", "%s: slot %zu of %zu is empty although the call returned", who, i, ts.size());
    if (r->value != ts[i].expected()) sim_violation("wrong-result", "%s: slot %zu of %zu holds the result of another task", who, i, ts.size());
    if (!r->intact()) sim_violation("result-incomplete", "%s: result %zu of %zu is not completely visible", who, i, ts.size());
    sim_hash(r->value);
  }
}
std::vector<const ITask*> ptrs(const std::vector<Task>& ts) {
  std::vector<const ITask*> p;
  for (size_t i = 0; i < ts.size(); i++) p.push_back(&ts[i]);
  return p;
}
void end_clean(uint64_t heap0) {
  (void)heap0;
  if (sim_live_threads() != 1) sim_violation("threads-left", "%d worker threads still alive after the pool was destroyed", sim_live_threads() - 1);
}
// One task object at several places of a batch: performed once for each of them.
#define NT __attribute__((no_sanitize("thread"), noinline))
int shared_count[16];
NT void count_shared(int k) { shared_count[k]++; }
NT int shared_done(int k) { return shared_count[k]; }
NT void shared_reset() { memset(shared_count, 0, sizeof shared_count); }
struct Shared : ITask {
  Shared() : k(0), work(0), fail(0) {}
  ITaskResult* Perform() const { for (int i = 0; i < work; i++) sim_yield(); count_shared(k); if (fail) fail_with(fail - 1, "shared"); return new Result(H(k, work)); }
  int k, work, fail;
};
void repeated_tasks(IWorkerPool& pool, int cpus, bool failing, bool all, const char* who) {
  Shared s[16]; int kinds = 1 + (int)sim_draw(sim_chance(50) ? 2 : 8); int occ[16] = {0}, fails = 0;
  for (int i = 0; i < kinds; i++) { s[i].k = i; s[i].work = (int)sim_draw(4); if (failing && sim_chance(30)) s[i].fail = 1 + (int)sim_draw(kFailKinds); }
  std::vector<const ITask*> v; std::vector<int> at;
  for (int n = (int)sim_draw(3 * cpus + 4); n > 0; n--) { int k = (int)sim_draw(kinds); v.push_back(&s[k]); at.push_back(k); occ[k]++; fails += s[k].fail > 0; }
  shared_reset();
  std::vector<ITaskResult::shared_ptr> rs; bool threw = false;
  try { rs = pool.DoTasks(v); } catch (...) { threw = true; }
  if (threw != (fails > 0)) sim_violation(threw ? "spurious-failure" : "failure-not-reported", "%s: %d of %zu places of the batch held a failing task and the call %s", who, fails, v.size(), threw ? "failed" : "succeeded");
  if (all || !threw) for (int k = 0; k < kinds; k++) if (shared_done(k) != occ[k]) sim_violation(shared_done(k) < occ[k] ? "task-lost" : "task-repeated", "%s: a task that is %d times in a batch of %zu was performed %d times", who, occ[k], v.size(), shared_done(k));
  sim_probe("batches_with_repeated_tasks", 1);
  if (threw) return;
  if (rs.size() != v.size()) sim_violation("result-count", "%s: %zu tasks gave %zu results", who, v.size(), rs.size());
  for (size_t i = 0; i < rs.size(); i++) {
    const Result* r = dynamic_cast<const Result*>(rs[i].get());
    if (!r || !r->intact() || r->value != H(at[i], s[at[i]].work)) sim_violation("wrong-result", "%s: slot %zu of %zu (a task given several times) does not hold its result", who, i, rs.size());
    for (size_t j = 0; j < i; j++) if (rs[j].get() == rs[i].get()) sim_violation("wrong-result", "%s: slots %zu and %zu hold one result, their tasks produced two", who, j, i);
  }
}
IWorkerPool::shared_ptr make_pool() {
  return WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kThreadWorkerPool);
}
} // namespace

// ---- C01: every batch, every schedule: exactly once, results by position ----
extern "C" void scenario_pool_exactly_once() {
  Swarm s = environment(2);
  int pools = 1 + (sim_chance(25) ? 1 : 0);
  for (int p = 0; p < pools; p++) {
    IWorkerPool::shared_ptr pool = make_pool();
    if (!pool->IsValid()) sim_violation("pool-invalid", "a thread pool on %d processors says it is not valid", s.cpus);
    int batches = 1 + (int)sim_draw(4); if (sim_chance(2)) batches += (int)sim_draw(40);
    std::vector<ITaskResult::shared_ptr> kept;
    uint64_t kept_value = 0;
    for (int b = 0; b < batches; b++) {
      std::vector<Task> ts(batch_size(s.cpus));
      fill(ts, s.sleeps, p * 10 + b + 1);
      if (sim_chance(10)) for (size_t i = 0; i < ts.size(); i++) ts[i].returns_null = sim_chance(30);
      std::vector<const ITask*> v = ptrs(ts);
      std::vector<ITaskResult::shared_ptr> rs = pool->DoTasks(v);
      check_batch(ts, rs, "thread pool");
      sim_probe("batches", 1); sim_probe("tasks", ts.size());
      if (ts.empty()) sim_probe("empty_batches", 1);
      if (ts.size() > (size_t)s.cpus) sim_probe("batches_larger_than_pool", 1);
      sim_state(H(H(s.cpus, ts.size()), b));
      // results of an earlier batch stay what they were
      if (!kept.empty() && kept[0]) {
        const Result* r = dynamic_cast<const Result*>(kept[0].get());
        if (!r || r->value != kept_value || !r->intact()) sim_violation("old-result-changed", "a result of an earlier batch changed");
      }
      if (!rs.empty() && rs[0]) { kept.assign(1, rs[0]); kept_value = ts[0].expected(); }
      if (sim_chance(8)) repeated_tasks(*pool, s.cpus, false, true, "thread pool");
      // tasks die here, right after the call returned
    }
    pool.reset();
    end_clean(0);
  }
}

// ---- C01: a long history, or a very large batch: nothing wraps around or runs out ----
extern "C" void scenario_pool_long_history() {
  sim_set_cpus(2 + (int)sim_draw(3));
  IWorkerPool::shared_ptr pool = make_pool();
  bool huge = sim_draw(40) == 39;
  int batches = huge ? 2 : 250 + (int)sim_draw(350);
  for (int b = 0; b < batches; b++) {
    size_t n = huge ? (b ? 3 : (sim_chance(50) ? 32700 : 65500) + (size_t)sim_draw(200)) : 1 + (size_t)sim_draw(3);
    std::vector<Task> ts(n);
    for (size_t i = 0; i < n; i++) ts[i].id = (uint64_t)b * 100000 + i + 1;
    check_batch(ts, pool->DoTasks(ptrs(ts)), "thread pool after a long history");
  }
  sim_probe(huge ? "huge_batches" : "long_histories", 1);
  sim_state(H(batches, huge));
  pool.reset();
  end_clean(0);
}
// ---- C02: failing tasks ----------------------------------------------------
extern "C" void scenario_pool_failures() {
  Swarm s = environment(2);
  IWorkerPool::shared_ptr pool = make_pool();
  int batches = 1 + (int)sim_draw(3); bool lengthy = sim_draw(200) == 199;
  if (lengthy) batches = 250 + (int)sim_draw(100);
  for (int b = 0; b < batches; b++) {
    std::vector<Task> ts(lengthy ? 1 + sim_draw(3) : sim_chance(5) ? 1 + batch_size(s.cpus) : 1 + sim_draw(12));
    fill(ts, s.sleeps, b + 1);
    int failing = 0;
    bool all = sim_chance(15);
    for (size_t i = 0; i < ts.size(); i++)
      if (all || sim_chance(30)) { ts[i].fail = 1 + (int)sim_draw(kFailKinds); failing++; }
    std::vector<const ITask*> v = ptrs(ts);
    bool threw = false;
    std::vector<ITaskResult::shared_ptr> rs;
    int tag = -1; std::string msg; // what was thrown
    try { rs = pool->DoTasks(v); }
    catch (...) { threw = true; tag = failure_kind(&msg); }
    sim_probe("failing_tasks", failing); sim_probe("batches", 1);
    if (failing) sim_probe("batches_with_failure", 1);
    if (!failing && threw) sim_violation("spurious-failure", "no task failed but the batch call reported a failure (kind %d)", tag);
    if (failing && !threw) sim_violation("failure-not-reported", "%d of %zu tasks failed but the batch call returned normally", failing, ts.size());
    if (failing) { // one that a task of this batch raised, unless one of them has a type that need not survive the way between threads
      bool some = false, any = false;
      for (size_t i = 0; i < ts.size(); i++) if (ts[i].fail) {
        int k = ts[i].fail - 1; char m[40]; snprintf(m, sizeof m, "failure of task %llu", (unsigned long long)ts[i].id);
        if (!transportable(k)) any = true;
        else if (k == tag && (!has_message(k) || msg == m)) some = true;
      }
      if (!some && !any) sim_violation("wrong-failure", "the reported failure (kind %d, '%s') is not one that a task of this batch raised", tag, msg.c_str());
    }
    for (size_t i = 0; i < ts.size(); i++) {
      if (ts[i].starts != 1)
        sim_violation(ts[i].starts == 0 ? "task-lost" : "task-repeated", "task %zu (of %zu, %d failing) was started %d times", i, ts.size(), failing, ts[i].starts);
      if (ts[i].ends != (ts[i].fail ? 0 : 1)) sim_violation("task-unfinished", "task %zu had not finished when the call returned", i);
    }
    if (!failing) check_batch(ts, rs, "thread pool");
    if (!lengthy && sim_chance(10)) repeated_tasks(*pool, s.cpus, true, true, "thread pool");
    sim_state(H(H(failing, ts.size()), tag));
  }
  // the pool stays usable
  std::vector<Task> ts(s.cpus + 2);
  fill(ts, s.sleeps, 77);
  check_batch(ts, pool->DoTasks(ptrs(ts)), "pool after failures");
  pool.reset();
  end_clean(0);
}

// ---- C03: life cycle --------------------------------------------------------
namespace {
void end_elsewhere(IWorkerPool::shared_ptr* pool, int cpus) {
  if (cpus >= 2) { std::vector<Task> ts(3); fill(ts, false, 9); check_batch(ts, (*pool)->DoTasks(ptrs(ts)), "thread pool used by another thread"); }
  pool->reset();
}
}
extern "C" void scenario_pool_lifecycle() {
  Swarm s = environment(1);
  bool tf = sim_chance(60);
  int rounds = 1 + (int)sim_draw(3);
  for (int r = 0; r < rounds; r++) {
    IWorkerPool::shared_ptr pool;
    bool failed = false;
    if (tf) { static const double p[] = {3, 15, 40, 100}; sim_thread_create_faults(p[sim_draw(4)]); sim_faults_enable(1); }
    try { pool = make_pool(); } catch (const std::exception&) { failed = true; }
    sim_faults_enable(0); sim_thread_create_faults(0);
    if (failed) {
      sim_probe("creation_failures", 1);
      if (!tf) sim_violation("creation-failed", "the pool could not be created although every thread started");
      if (sim_live_threads() != 1) sim_violation("threads-left", "%d workers left running after the pool failed to start", sim_live_threads() - 1);
      sim_state(1);
      continue;
    }
    bool used = false;
    int batches = (int)sim_draw(3);
    if (s.cpus < 2) {
      if (pool->IsValid()) sim_violation("pool-valid", "a pool with one worker says it is valid");
      std::vector<Task> ts(2);
      fill(ts, false, 1);
      bool refused = false;
      try { pool->DoTasks(ptrs(ts)); } catch (const std::exception&) { refused = true; }
      if (!refused) sim_violation("not-refused", "a pool without enough workers accepted a batch");
      if (ts[0].starts || ts[1].starts) sim_violation("refused-but-run", "a refused batch was run all the same");
      sim_probe("refused_batches", 1);
    } else {
      for (int b = 0; b < batches; b++) {
        std::vector<Task> ts(batch_size(s.cpus));
        fill(ts, s.sleeps, b + 1);
        check_batch(ts, pool->DoTasks(ptrs(ts)), "thread pool");
        used = true;
      }
    }
    for (int k = (int)sim_draw(4); k > 0; k--) sim_yield();
    switch (sim_draw(4)) { // how it ends
      case 0: // left by an exception
        try { IWorkerPool::shared_ptr last; last.swap(pool); throw std::runtime_error("the caller's own failure"); } catch (const std::runtime_error&) {}
        sim_probe("destroyed_by_exception", 1); break;
      case 1: { // by another thread than its maker, after a last batch there
        boost::thread other(boost::bind(&end_elsewhere, &pool, s.cpus)); other.join();
        sim_probe("destroyed_by_another_thread", 1); break;
      }
      default: pool.reset();
    }
    sim_probe(used ? "destroyed_after_use" : "destroyed_unused", 1);
    if (sim_live_threads() != 1) sim_violation("threads-left", "%d workers still alive after the pool was destroyed", sim_live_threads() - 1);
    sim_state(H(used, s.cpus));
  }
}

// ---- C23: memory runs out ----------------------------------------------------
extern "C" void scenario_pool_memory() {
  Swarm s = environment(2);
  static const double pm[] = {0, 1, 5, 30}, pw[] = {0, 3, 20, 40};
  IWorkerPool::shared_ptr pool;
  for (int k = 0; k < 6 && !pool; k++) { // creation either succeeds or leaves nothing
    sim_alloc_faults(k < 5 ? pm[sim_draw(4)] : 0, 0);
    bool failed = false, bad = false;
    try { pool = make_pool(); } catch (const std::bad_alloc&) { failed = bad = true; } catch (...) { failed = true; }
    sim_alloc_faults(-1, -1);
    if (!failed) break;
    pool.reset();
    sim_probe("creation_failures", 1);
    if (!sim_alloc_failures()) sim_violation("creation-failed", "the pool could not be created although there was memory");
    if (sim_live_threads() != 1) sim_violation("threads-left", "%d workers left running after the pool could not be created", sim_live_threads() - 1);
  }
  if (!pool) sim_violation("creation-failed", "the pool could not be created although there was memory");
  int batches = 1 + (int)sim_draw(4);
  for (int b = 0; b <= batches; b++) {
    std::vector<Task> ts(b == batches ? s.cpus + 2 : batch_size(s.cpus));
    fill(ts, s.sleeps, b + 1);
    if (ts.size() > 400) ts.resize(400);
    int failing = 0;
    if (b < batches && sim_chance(20)) for (size_t i = 0; i < ts.size(); i++) if (sim_chance(30)) { ts[i].fail = 1 + (int)sim_draw(kFailKinds); failing++; }
    std::vector<const ITask*> v = ptrs(ts);
    std::vector<ITaskResult::shared_ptr> rs;
    bool threw = false; int tag = -1; std::string msg; bool bad = false;
    double m = pm[sim_draw(4)], w = pw[sim_draw(4)];
    uint64_t f0 = sim_alloc_failures();
    if (b < batches) sim_alloc_faults(m, w); // the last batch runs with memory
    try { rs = pool->DoTasks(v); }
    catch (const std::bad_alloc&) { sim_alloc_faults(-1, -1); threw = bad = true; }
    catch (...) { sim_alloc_faults(-1, -1); threw = true; tag = failure_kind(&msg); }
    sim_alloc_faults(-1, -1);
    uint64_t lack = sim_alloc_failures() - f0;
    sim_probe(lack ? "batches_short_of_memory" : "batches_with_memory", 1);
    if (lack && !threw) sim_probe("batches_that_managed", 1);
    if (!lack && !failing && threw) sim_violation("spurious-failure", "there was memory and no task failed but the batch call failed (kind %d)", tag);
    if (failing && !threw) sim_violation("failure-not-reported", "%d of %zu tasks failed but the batch call returned normally", failing, ts.size());
    if (threw && !bad && !failing && !lack_of_memory(tag)) // at worst no memory to hand the failure over
      sim_violation("wrong-failure", "memory ran out and the call failed with something else (kind %d, '%s')", tag, msg.c_str());
    std::vector<int> st(ts.size()), en(ts.size());
    for (size_t i = 0; i < ts.size(); i++) {
      st[i] = ts[i].starts; en[i] = ts[i].ends;
      if (st[i] > 1) sim_violation("task-repeated", "task %zu of %zu was started %d times", i, ts.size(), st[i]);
      if (!threw && st[i] != 1) sim_violation("task-lost", "task %zu of %zu was not performed although the call succeeded", i, ts.size());
    }
    if (!threw) check_batch(ts, rs, "thread pool short of memory");
    for (int k = (int)sim_draw(3); k > 0; k--) sim_yield();
    if (threw) sim_sleep_ns(20000000); // whatever still runs would do so now
    for (size_t i = 0; i < ts.size(); i++) if (ts[i].starts != st[i] || ts[i].ends != en[i]) sim_violation("touched-after-return", "task %zu was performed after the failed call had returned", i);
    sim_state(H(H(lack, ts.size()), threw));
  }
  pool.reset();
  end_clean(0);
}

// ---- C04: isolation between callers: several pools driven at once -----------
namespace {
struct Driver {
  int cpus; bool sleeps; int batches; uint64_t salt;
  std::vector<std::vector<Task> > plan;
  void operator()() {
    IWorkerPool::shared_ptr pool = make_pool();
    for (size_t b = 0; b < plan.size(); b++) {
      std::vector<Task>* ts = new std::vector<Task>(plan[b]);
      std::vector<ITaskResult::shared_ptr> rs = pool->DoTasks(ptrs(*ts));
      check_batch(*ts, rs, "thread pool (several at once)");
      for (size_t i = 0; i < rs.size(); i++) if (rs[i]) static_cast<Result*>(rs[i].get())->owner = sim_self() + 1; // now they are the caller's alone
      // destroyed at once: nothing may touch tasks or results any more
      delete ts;
      rs.clear();
      sim_probe("batches", 1);
    }
  }
};
}
extern "C" void scenario_pool_isolation() {
  Swarm s = environment(2);
  if (s.cpus > 4) { s.cpus = 4; sim_set_cpus(4); }
  int drivers = 1 + (int)sim_draw(3);
  std::vector<Driver> d(drivers);
  for (int i = 0; i < drivers; i++) {
    d[i].cpus = s.cpus; d[i].sleeps = s.sleeps; d[i].salt = i + 1;
    int nb = 1 + (int)sim_draw(3);
    for (int b = 0; b < nb; b++) {
      std::vector<Task> ts(batch_size(s.cpus));
      fill(ts, s.sleeps, i * 100 + b + 1);
      d[i].plan.push_back(ts);
    }
  }
  sim_probe(drivers > 1 ? "runs_with_several_pools" : "runs_with_one_pool", 1);
  if (drivers == 1) { d[0](); }
  else {
    boost::thread_group g;
    for (int i = 0; i < drivers; i++) g.create_thread(boost::ref(d[i]));
    g.join_all();
  }
  end_clean(0);
}

// ---- C05: the factory and the agreement of pool kinds ----------------------
extern "C" void scenario_pool_factory() {
  Swarm s = environment(1);
  // selection
  IWorkerPool::shared_ptr best = WorkerPoolFactory::CreateBestWorkerPool();
  if (!best || !best->IsValid()) sim_violation("best-invalid", "the best pool on %d processors is not valid", s.cpus);
  int live = sim_live_threads();
  if (s.cpus >= 2 && live != 1 + s.cpus) sim_violation("best-not-parallel", "on %d processors the best pool runs %d workers", s.cpus, live - 1);
  if (s.cpus < 2 && live != 1) sim_violation("best-leaks", "on one processor %d worker threads are left running", live - 1);
  if (!WorkerPoolFactory::CanCreateWorkerPool(WorkerPoolFactory::kSequentialWorkerPool)) sim_violation("factory", "sequential pool said to be unavailable");
  if (!WorkerPoolFactory::CanCreateWorkerPool(WorkerPoolFactory::kThreadWorkerPool)) sim_violation("factory", "thread pool said to be unavailable");
  bool mpi_ok = WorkerPoolFactory::CanCreateWorkerPool(WorkerPoolFactory::kMpiWorkerPool);
  if (mpi_ok) sim_violation("factory", "a distributed pool said to be available in a build without it");
  bool thrown = false;
  try { WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kMpiWorkerPool); } catch (const std::exception&) { thrown = true; }
  if (!thrown) sim_violation("factory", "an unavailable pool kind was created");
  IWorkerPool::shared_ptr seq = WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kSequentialWorkerPool);
  if (!seq->IsValid()) sim_violation("sequential-invalid", "the sequential pool says it is not valid");
  // agreement over a history of batches; counts are conserved
  int counted = 0;
  int batches = 1 + (int)sim_draw(4);
  for (int b = 0; b < batches; b++) {
    std::vector<Task> ts(batch_size(s.cpus));
    fill(ts, s.sleeps, b + 1);
    bool failing = sim_chance(15);
    if (failing && !ts.empty()) ts[sim_draw(ts.size())].fail = 1 + (int)sim_draw(kFailKinds);
    else failing = false;
    std::vector<Task> t2(ts);
    std::vector<ITaskResult::shared_ptr> r1, r2;
    bool e1 = false, e2 = false;
    try { r1 = best->DoTasks(ptrs(ts)); } catch (...) { e1 = true; }
    try { r2 = seq->DoTasks(ptrs(t2)); } catch (...) { e2 = true; }
    if (e1 != e2) sim_violation("pools-disagree", "with %s failing task the best pool %s and the sequential pool %s", failing ? "a" : "no", e1 ? "fails" : "succeeds", e2 ? "fails" : "succeeds");
    if (failing && !e2) sim_violation("failure-not-reported", "a failing task was not reported by the sequential pool");
    if (!failing && e2) sim_violation("spurious-failure", "no task failed but the sequential pool reported a failure");
    for (size_t i = 0; i < t2.size(); i++) counted += t2[i].ends;
    if (sim_chance(15)) { repeated_tasks(*best, s.cpus, false, true, "best pool"); IWorkerPool::shared_ptr q = WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kSequentialWorkerPool); repeated_tasks(*q, s.cpus, true, false, "sequential pool"); }
    if (e1) { sim_probe("failing_batches", 1); continue; }
    check_batch(ts, r1, "best pool");
    check_batch(t2, r2, "sequential pool");
    for (size_t i = 0; i < r1.size(); i++) {
      const Result* a = dynamic_cast<const Result*>(r1[i].get());
      const Result* c = dynamic_cast<const Result*>(r2[i].get());
      if (!a || !c || a->value != c->value) sim_violation("pools-disagree", "result %zu differs between pool kinds", i);
    }
    sim_probe("batches", 1);
  }
  std::vector<k52::parallel::WorkerStatistics> st = seq->GetStatistics();
  int sum = 0;
  for (size_t i = 0; i < st.size(); i++) sum += st[i].get_counted();
  if (sum != counted) sim_violation("statistics", "the sequential pool did %d tasks but reports %d", counted, sum);
  sim_state(H(s.cpus, counted));
  best.reset();
  seq.reset();
  end_clean(0);
}
