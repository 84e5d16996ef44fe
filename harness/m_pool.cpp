// The distributed (MPI) worker pool on the simulated transport: C06, C07, C09, C20.
#include "common_util.h"
#include <stdexcept>
#include <boost/mpi.hpp>
#include <boost/bind.hpp>
#include <boost/serialization/vector.hpp>
#include <k52/parallel/worker_pool_factory.h>
#include <k52/parallel/worker_statistics.h>
#include <k52/parallel/mpi/i_mpi_task.h>
#include <k52/parallel/mpi/i_mpi_task_result.h>
#include <k52/parallel/mpi/async_call_chain.h>
#include <k52/parallel/mpi/constants.h>
#include <k52/parallel/mpi/identifyable_objects_manager.h>

using namespace k52::parallel;
using namespace k52::parallel::mpi;

namespace {
const int TAG = constants::kCommonTag;
enum { MAX_TASKS = 1200, MAX_BATCH = 400 };
struct TaskPlan { int cls; uint64_t id; int fields; int payload; int work_us; int steps; int same; }; // same: the task object at that place of the plan (its own number unless repeated)
// Shared by the driver and every rank (simulated ranks share no other memory).
struct Plan {
  int ranks, batches, first[MAX_BATCH + 1]; int gap_us[MAX_BATCH + 1], refuse[MAX_BATCH + 1];
  TaskPlan t[MAX_TASKS];
  int starts[MAX_TASKS], ends[MAX_TASKS], by[MAX_TASKS];
  uint64_t start_ns[MAX_TASKS], end_ns[MAX_TASKS];
  int done_by_rank[32];
  int check_stats, expect_invalid, mode;
  uint64_t max_delay_ns; int reg_second;
  int server_finished; uint64_t finished_ns;
  int active;
};
Plan* P() { return (Plan*)sim_shared(); }

uint64_t value_of(const TaskPlan& t) {
  uint64_t h = H(t.id, t.cls);
  for (int i = 0; i < t.fields; i++) h = H(h, t.id * 31 + i);
  for (int i = 0; i < t.payload; i++) h = H(h, t.id + i * 7);
  return h;
}

// Result received over several messages. A step of its call chain may ask for a
// message, receive one at once as the library's own results do, or do neither.
enum { MAX_STEPS = 8 };
int step_kind(uint64_t id, int steps, int s) { // 0 number asked for, 1 list asked for, 2 number received at once, 3 nothing
  if (steps <= 3) return s;
  int k = (int)(H(id * 16 + s, 5) % 4);
  return s == (id & 1 ? 0 : steps - 1) ? k % 3 : k; // at least one message
}
uint64_t step_number(uint64_t e, int s) { return s ? H(e, s) : e; }
size_t step_length(int payload, int s) { return (size_t)(payload + s) % 5; }
struct MResult : IMpiTaskResult {
  MResult() : id(0), steps(1), comm(0), src(-1), at(0) { memset(number, 0, sizeof number); }
  uint64_t id; int steps; boost::mpi::communicator* comm; int src; int at;
  uint64_t number[MAX_STEPS]; std::vector<uint64_t> list[MAX_STEPS];
  AsyncCallChain::shared_ptr ReceiveAsync(boost::mpi::communicator* c, int s) {
    comm = c; src = s;
    AsyncCallChain::shared_ptr ch = AsyncCallChain::CreateAsyncCallChain(boost::bind(&MResult::step, this, 0));
    for (int i = 1; i < steps; i++) ch->Add(boost::bind(&MResult::step, this, i));
    return ch;
  }
  boost::optional<boost::mpi::request> step(int s) {
    if (s != at) sim_violation("call-chain", "step %d of %d of a result's call chain is made, %d was next", s, steps, at);
    at++;
    switch (step_kind(id, steps, s)) {
      case 0: return comm->irecv(src, TAG, number[s]);
      case 1: return comm->irecv(src, TAG, list[s]);
      case 2: comm->recv(src, TAG, number[s]); break;
    }
    return boost::optional<boost::mpi::request>();
  }
  void Send(boost::mpi::communicator* c) {
    for (int s = 0; s < steps; s++) switch (step_kind(id, steps, s)) {
      case 1: c->send(constants::kServerRank, TAG, list[s]); break;
      case 3: break;
      default: c->send(constants::kServerRank, TAG, number[s]);
    }
  }
};

// names of classes may be long and differ at their end only
#define L50 PerformedByAnyRankOfTheSimulatedJobOnSomeMachine_
#define MCAT_(a, b) a##b
#define MCAT(a, b) MCAT_(a, b)
#define MTask MCAT(MCAT(MCAT(MTask, L50), MCAT(L50, L50)), MCAT(L50, MCAT(L50, L50)))
template <int CLS> struct MTask : IMpiTask {
  MTask() : idx(-1), local(true) { memset(&t, 0, sizeof t); t.steps = 1; }
  int idx; TaskPlan t; bool local;
  std::vector<uint64_t> payload, fields;
  void fill() {
    for (int i = 0; i < t.fields; i++) fields.push_back(t.id * 31 + i);
    for (int i = 0; i < t.payload; i++) payload.push_back(t.id + i * 7);
  }
  IMpiTaskResult* Perform() const {
    Plan* p = P();
    if (idx < 0 || idx >= MAX_TASKS || idx >= p->first[p->batches])
      sim_violation("task-garbled", "rank %d performs a task with number %d", sim_mpi_rank(), idx);
    p->starts[idx]++; p->start_ns[idx] = sim_now_ns(); p->by[idx] = sim_mpi_rank();
    if (t.work_us) sim_sleep_ns((uint64_t)t.work_us * 1000);
    uint64_t h = H(t.id, CLS);
    for (size_t i = 0; i < fields.size(); i++) h = H(h, fields[i]);
    for (size_t i = 0; i < payload.size(); i++) h = H(h, payload[i]);
    MResult* r = new MResult();
    r->id = t.id; r->steps = t.steps;
    for (int k = 0; k < t.steps; k++) { r->number[k] = step_number(h, k); r->list[k].assign(step_length(t.payload, k), h + 2 + k); }
    p->ends[idx]++; p->end_ns[idx] = sim_now_ns(); p->done_by_rank[sim_mpi_rank()]++;
    return r;
  }
  IMpiTaskResult::shared_ptr CreateEmptyResult() const {
    MResult* r = new MResult(); r->id = t.id; r->steps = t.steps; return IMpiTaskResult::shared_ptr(r);
  }
  IMpiTask* Clone() const { MTask* c = new MTask(); c->idx = idx; c->t = t; c->local = local; c->payload = payload; c->fields = fields; return c; }
  void Send(boost::mpi::communicator* c, int target) const {
    c->send(target, TAG, idx);
    c->send(target, TAG, t.id);
    c->send(target, TAG, t.work_us);
    c->send(target, TAG, t.steps);
    c->send(target, TAG, t.payload);
    if (CLS != 1) { // the second class carries nothing more
      for (size_t i = 0; i < fields.size(); i++) c->send(target, TAG, fields[i]);
      c->send(target, TAG, std::string("end of fields"));
      c->send(target, TAG, payload);
    }
  }
  void Receive(boost::mpi::communicator* c, int source) {
    c->recv(source, TAG, idx); c->recv(source, TAG, t.id); c->recv(source, TAG, t.work_us);
    c->recv(source, TAG, t.steps); c->recv(source, TAG, t.payload);
    if (!fields.empty() || !payload.empty()) sim_violation("task-garbled", "rank %d receives a task into an object used before", sim_mpi_rank());
    if (CLS != 1) {
      int nf = idx >= 0 && idx < MAX_TASKS ? P()->t[idx].fields : 0;
      for (int i = 0; i < nf; i++) { uint64_t v; c->recv(source, TAG, v); fields.push_back(v); }
      std::string s; c->recv(source, TAG, s);
      if (s != "end of fields") sim_violation("task-garbled", "rank %d received a garbled task", sim_mpi_rank());
      c->recv(source, TAG, payload);
    }
  }
};
typedef MTask<0> TaskA; typedef MTask<1> TaskB; typedef MTask<2> TaskC;

struct Undistributable : ITask { ITaskResult* Perform() const { sim_violation("refused-but-run", "a task that can not be distributed was performed"); } };

IMpiTask* make_task(int i) {
  Plan* p = P();
  switch (p->t[i].cls) {
    case 0: { TaskA* t = new TaskA(); t->idx = i; t->t = p->t[i]; t->fill(); return t; }
    case 1: { TaskB* t = new TaskB(); t->idx = i; t->t = p->t[i]; return t; }
    default: { TaskC* t = new TaskC(); t->idx = i; t->t = p->t[i]; t->fill(); return t; }
  }
}

// generous: all work one after the other, and for every message a full back-off
uint64_t batch_deadline(int b) {
  Plan* p = P();
  uint64_t ns = 0, messages = 0;
  for (int i = p->first[b]; i < p->first[b + 1]; i++) { ns += (uint64_t)p->t[i].work_us * 1000; messages += p->t[i].steps + p->t[i].fields + 8; }
  return ns + messages * (1200000000ull + 4 * p->max_delay_ns) + 60000000000ull;
}
void check_statistics(IWorkerPool& pool, int ranks, int upto) {
  std::vector<WorkerStatistics> st = pool.GetStatistics();
  int total = 0; int seen[32] = {0};
  for (size_t i = 0; i < st.size(); i++) {
    int id = st[i].get_id();
    if (id < 1 || id >= ranks) sim_violation("statistics", "statistics name worker %d of a job with %d ranks", id, ranks);
    if (seen[id]++) sim_violation("statistics", "worker %d appears twice in the statistics", id);
    if (st[i].get_counted() != P()->done_by_rank[id]) sim_violation("statistics", "worker %d did %d tasks but %d are counted", id, P()->done_by_rank[id], st[i].get_counted());
    if (st[i].get_errors() != 0) sim_violation("statistics", "worker %d is said to have had %d errors", id, st[i].get_errors());
    total += st[i].get_counted();
  }
  for (int r = 1; r < ranks; r++) if (P()->done_by_rank[r] && !seen[r]) sim_violation("statistics", "worker %d did %d tasks and is not in the statistics", r, P()->done_by_rank[r]);
  if (total != upto) sim_violation("statistics", "%d tasks were done but %d are counted", upto, total);
  sim_probe("statistics_checked", 1);
}
} // namespace

extern "C" void mpi_entry_pool(int rank) {
  Plan* p = P();
  IdentifyableObjectsManager::Instance().RegisterObject(TaskA());
  IdentifyableObjectsManager::Instance().RegisterObject(TaskB());
  IdentifyableObjectsManager::Instance().RegisterObject(TaskC());
  if (!WorkerPoolFactory::CanCreateWorkerPool(WorkerPoolFactory::kMpiWorkerPool)) sim_violation("factory", "the distributed pool is said to be unavailable");
  IWorkerPool::shared_ptr pool = p->mode & 1 ? WorkerPoolFactory::CreateBestWorkerPool() : WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kMpiWorkerPool);
  if (rank != 0) sim_violation("worker-returned", "creating the pool returned on worker rank %d", rank);
  if (WorkerPoolFactory::CanCreateWorkerPool(WorkerPoolFactory::kMpiWorkerPool)) sim_violation("factory", "a second distributed pool is said to be possible");
  if (p->mode & 2) {
    bool refused = false;
    try { WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kMpiWorkerPool); } catch (const std::exception&) { refused = true; }
    if (!refused) sim_violation("factory", "a second distributed pool was created");
  }
  if (p->ranks >= 2 && !pool->IsValid()) sim_violation("pool-invalid", "a pool of %d ranks says it is not valid", p->ranks);
  if (p->ranks < 2 && !(p->mode & 1)) {
    if (pool->IsValid()) sim_violation("pool-valid", "a pool without workers says it is valid");
    TaskA t; std::vector<const ITask*> v(1, &t);
    bool refused = false;
    try { pool->DoTasks(v); } catch (const std::exception&) { refused = true; }
    if (!refused) sim_violation("not-refused", "a pool without workers accepted a batch");
    sim_probe("refused_batches", 1);
    p->server_finished = 1;
    return;
  }
  for (int b = 0; b < p->batches; b++) {
    if (p->gap_us[b]) sim_sleep_ns((uint64_t)p->gap_us[b] * 1000);
    std::vector<boost::shared_ptr<IMpiTask> > own;
    std::vector<const ITask*> v;
    for (int i = p->first[b]; i < p->first[b + 1]; i++) { if (p->t[i].same == i) own.push_back(boost::shared_ptr<IMpiTask>(make_task(i))); else own.push_back(own[p->t[i].same - p->first[b]]); v.push_back(own.back().get()); }
    uint64_t t0 = sim_now_ns();
    sim_deadline(batch_deadline(b));
    if (p->refuse[b] && p->ranks >= 2) { // refused as a whole: nothing of it is performed, and the same batch without it is not disturbed
      Undistributable u; std::vector<const ITask*> w(v);
      w.insert(w.begin() + (p->refuse[b] - 1) % (w.size() + 1), &u);
      bool refused = false;
      try { pool->DoTasks(w); } catch (const std::exception&) { refused = true; }
      if (!refused) sim_violation("not-refused", "a batch with a task that can not be distributed was accepted");
      if (p->refuse[b] & 1) sim_sleep_ns(50000000);
      sim_probe("batches_with_undistributable_task", 1);
    }
    std::vector<ITaskResult::shared_ptr> rs = pool->DoTasks(v);
    sim_deadline(0);
    uint64_t t1 = sim_now_ns();
    own.clear();
    if (rs.size() != v.size()) sim_violation("result-count", "%zu tasks gave %zu results", v.size(), rs.size());
    for (size_t k = 0; k < rs.size(); k++) {
      int i = p->t[p->first[b] + (int)k].same, want = 0;
      for (int j = p->first[b]; j < p->first[b + 1]; j++) want += p->t[j].same == i;
      if (p->starts[i] != want || p->ends[i] != want)
        sim_violation(p->starts[i] < want ? "task-lost" : "task-repeated", "task %zu of %zu (%d times in the batch) was started %d and finished %d times", k, rs.size(), want, p->starts[i], p->ends[i]);
      if (p->ranks >= 2 && p->by[i] == 0) sim_violation("task-on-server", "task %zu was performed by the server", k);
      const MResult* r = dynamic_cast<const MResult*>(rs[k].get());
      if (!r) sim_violation("result-missing", "slot %zu of %zu is empty", k, rs.size());
      uint64_t e = value_of(p->t[i]);
      if (p->t[i].cls == 1) e = H(p->t[i].id, 1);
      if (r->at != r->steps) sim_violation("result-incomplete", "only %d of %d steps of the call chain of result %zu of %zu were made", r->at, r->steps, k, rs.size());
      for (int q = 0; q < r->steps; q++) {
        int kind = step_kind(r->id, r->steps, q); size_t len = step_length(p->t[i].payload, q);
        if (kind == 1 ? r->list[q] != std::vector<uint64_t>(len, e + 2 + q) : kind != 3 && r->number[q] != step_number(e, q))
          sim_violation("wrong-result", "slot %zu of %zu: part %d of %d is not what its task produced", k, rs.size(), q + 1, r->steps);
      }
      sim_hash(e);
    }
    sim_probe("batches", 1); sim_probe("tasks", rs.size());
    if (rs.empty()) sim_probe("empty_batches", 1);
    if ((int)rs.size() >= p->ranks) sim_probe("batches_larger_than_pool", 1);
    sim_state(H(H(p->ranks, rs.size()), b));
    if (p->check_stats) check_statistics(*pool, p->ranks, p->first[b + 1]);
    (void)t0; (void)t1;
  }
  p->server_finished = 1; p->finished_ns = sim_now_ns();
  if (p->gap_us[p->batches]) sim_sleep_ns((uint64_t)p->gap_us[p->batches] * 1000);
  if (p->mode & 4) { // left by an exception
    try { IWorkerPool::shared_ptr last; last.swap(pool); throw std::runtime_error("the server's own failure"); } catch (const std::runtime_error&) {}
    sim_probe("pools_left_by_exception", 1);
  }
  pool.reset();
}

namespace {
void draw_plan(int maxranks, bool long_tasks) {
  Plan* p = P();
  memset(p, 0, sizeof *p);
  p->ranks = 2 + (int)sim_draw(maxranks - 1);
  p->batches = 1 + (int)sim_draw(4);
  bool lengthy = !long_tasks && sim_draw(100) == 99; // a long history of small batches
  if (lengthy) p->batches = 250 + (int)sim_draw(120);
  int n = 0;
  for (int b = 0; b < p->batches; b++) {
    p->first[b] = n;
    int k;
    switch (sim_draw(6)) {
      case 0: k = 1; break;
      case 1: k = (int)sim_draw(2); break;
      case 2: k = p->ranks - 1; break;
      case 3: k = p->ranks; break;
      case 4: k = (int)sim_draw(3 * p->ranks + 1); break;
      default: k = (int)sim_draw(16);
    }
    if (sim_chance(1)) k = (int)sim_draw(300) + (sim_chance(30) ? 257 : 0);
    if (lengthy) k = (int)sim_draw(4);
    bool repeats = !long_tasks && sim_chance(10); // some tasks are at several places of the batch
    int wk = lengthy ? 0 : (int)sim_draw(3);
    for (int i = 0; i < k && n < MAX_TASKS; i++, n++) {
      TaskPlan& t = p->t[n];
      t.cls = (int)sim_draw(3); t.id = 1000 + n;
      t.fields = t.cls == 1 ? 0 : (int)sim_draw(4); t.payload = (int)sim_draw(6); if ((sim_draw(200) == 199)) t.payload = (int)sim_draw(3000);
      t.steps = 1 + (int)sim_draw(3); if (!long_tasks && sim_chance(15)) t.steps = 4 + (int)sim_draw(MAX_STEPS - 3);
      t.work_us = wk == 0 ? 0 : wk == 1 ? (int)sim_draw(3000) : (sim_chance(30) ? (int)sim_draw(long_tasks ? 40000000 : 200000) : (int)sim_draw(10000));
      t.same = n;
      if (repeats && i && sim_chance(40)) t = p->t[p->t[p->first[b] + (int)sim_draw(i)].same];
    }
    if (repeats) sim_probe("batches_with_repeated_tasks", 1);
    if (!long_tasks && sim_chance(lengthy ? 1 : 8)) p->refuse[b] = 1 + (int)sim_draw(k + 1);
    if (!lengthy && sim_chance(20)) p->gap_us[b] = (int)sim_draw(100000);
  }
  p->first[p->batches] = n;
  if (sim_chance(20)) p->gap_us[p->batches] = (int)sim_draw(100000);
  p->mode = (int)sim_draw(8);
}
void network() {
  static const double slow[] = {0, 5, 30, 80};
  static const double rdv[] = {0, 10, 50, 100};
  static const uint64_t dl[] = {100000, 3000000, 20000000, 150000000ull};
  uint64_t d = dl[sim_draw(4)];
  P()->max_delay_ns = d;
  double s = slow[sim_draw(4)];
  sim_mpi_config(P()->ranks, s, d, rdv[sim_draw(4)]);
  sim_faults_enable(1);
}
}

// ---- C06: exactly once and by position over any message timing --------------
extern "C" void scenario_mpi_exactly_once() {
  draw_plan(sim_mpi_images(), false);
  network();
  sim_mpi_run("mpi_entry_pool", P()->ranks);
  if (!P()->server_finished) sim_violation("server-unfinished", "the server ended before its batches were done");
}
// ---- C07: shutdown ----------------------------------------------------------
extern "C" void scenario_mpi_shutdown() {
  draw_plan(sim_mpi_images(), false);
  Plan* p = P();
  if (sim_chance(40)) { p->batches = 0; p->first[0] = 0; } // never used
  if (sim_chance(10)) { p->ranks = 1; p->batches = 0; p->mode &= 6; }
  network();
  sim_mpi_run("mpi_entry_pool", p->ranks);
  if (!p->server_finished) sim_violation("server-unfinished", "the server ended before its batches were done");
  for (int r = 1; r < p->ranks; r++)
    if (sim_mpi_exit_code(r) != 0) sim_violation("worker-exit", "worker %d ended with code %d", r, sim_mpi_exit_code(r));
  if (sim_mpi_exit_code(0) != -1) sim_violation("server-exit", "destroying the pool ended the server process with code %d", sim_mpi_exit_code(0));
  if (sim_mpi_undelivered()) sim_violation("mpi-undelivered", "%llu messages were never received", (unsigned long long)sim_mpi_undelivered());
  if (sim_live_threads() != 1) sim_violation("ranks-left", "%d ranks are still running", sim_live_threads() - 1);
  sim_probe("ranks_ended", p->ranks);
}
// ---- C09: statistics --------------------------------------------------------
extern "C" void scenario_mpi_statistics() {
  draw_plan(sim_mpi_images(), false);
  P()->check_stats = 1;
  network();
  sim_mpi_run("mpi_entry_pool", P()->ranks);
}
// ---- C20: completion is noticed soon, an idle worker is used soon ------------
extern "C" void mpi_entry_latency(int rank) {
  Plan* p = P();
  IdentifyableObjectsManager::Instance().RegisterObject(TaskA());
  IdentifyableObjectsManager::Instance().RegisterObject(TaskB());
  IdentifyableObjectsManager::Instance().RegisterObject(TaskC());
  IWorkerPool::shared_ptr pool = WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kMpiWorkerPool);
  const uint64_t MS = 1000000ull;
  for (int b = 0; b < p->batches; b++) {
    if (p->gap_us[b]) sim_sleep_ns((uint64_t)p->gap_us[b] * 1000);
    std::vector<boost::shared_ptr<IMpiTask> > own;
    std::vector<const ITask*> v;
    uint64_t steps = 0; uint64_t longest = 0;
    for (int i = p->first[b]; i < p->first[b + 1]; i++) {
      own.push_back(boost::shared_ptr<IMpiTask>(make_task(i))); v.push_back(own.back().get());
      steps += p->t[i].steps;
    }
    uint64_t t0 = sim_now_ns();
    sim_deadline(batch_deadline(b));
    pool->DoTasks(v);
    sim_deadline(0);
    uint64_t t1 = sim_now_ns();
    uint64_t last = t0;
    for (int i = p->first[b]; i < p->first[b + 1]; i++) if (p->end_ns[i] > last) last = p->end_ns[i];
    // the call returns within 1.1 s per outstanding message of the last results
    uint64_t out = 0;
    for (int i = p->first[b]; i < p->first[b + 1]; i++) if (p->end_ns[i] + 30000 * MS >= last) out += p->t[i].steps + 1;
    uint64_t bound = (out + 1) * 1100 * MS;
    if (t1 > last + bound)
      sim_violation("late-return", "the last task ended at %.3f s, the call returned %.3f s later (bound %.1f s)", (last - t0) * 1e-9, (t1 - last) * 1e-9, bound * 1e-9);
    // a task handed out starts soon: first tasks of the batch go to idle workers
    for (size_t k = 0; k < v.size() && (int)k < p->ranks - 1; k++) {
      int i = p->first[b] + (int)k;
      if (p->start_ns[i] > t0 + 100 * MS) sim_violation("late-start", "task %zu of %zu had an idle worker but started after %.3f s", k, v.size(), (p->start_ns[i] - t0) * 1e-9);
    }
    // while tasks wait, a worker that delivered its result is given the next one
    uint64_t maxgap = 0;
    for (int i = p->first[b] + p->ranks - 1; i < p->first[b + 1]; i++) {
      uint64_t prev = t0; int found = 0;
      for (int j = p->first[b]; j < p->first[b + 1]; j++)
        if (j != i && p->by[j] == p->by[i] && p->end_ns[j] <= p->start_ns[i] && p->end_ns[j] >= prev) { prev = p->end_ns[j]; found = 1; }
      if (found && p->start_ns[i] - prev > maxgap) maxgap = p->start_ns[i] - prev;
    }
    uint64_t gapbound = ((uint64_t)(p->ranks - 1) * 4 + 1) * 1100 * MS;
    if (maxgap > gapbound) sim_violation("worker-starved", "a free worker waited %.3f s for the next task of its batch (bound %.1f s)", maxgap * 1e-9, gapbound * 1e-9);
    sim_probe("latency_batches", 1);
    (void)longest; (void)steps;
    sim_state(H(v.size(), p->ranks));
  }
  p->server_finished = 1;
  pool.reset();
}
extern "C" void scenario_mpi_latency() {
  sim_no_stalls();
  draw_plan(4, true);
  if (P()->batches > 2) P()->batches = 2;
  Plan* p = P();
  p->active = 1;
  for (int b = 0; b < 2; b++) if (sim_chance(15)) p->gap_us[b] = (int)sim_draw(120000000); // idle for long before the batch
  static const double rdv[] = {0, 10, 50, 100};
  sim_mpi_config(p->ranks, 30, 2000000, rdv[sim_draw(4)]); // at most 2 ms per message
  sim_faults_enable(1);
  sim_mpi_run("mpi_entry_latency", p->ranks);
}

// ---- C28: repeating the same batches leaves nothing behind, on any rank ----------
extern "C" void mpi_entry_pool_left(int) {
  Plan* p = P();
  IdentifyableObjectsManager::Instance().RegisterObject(TaskA());
  IdentifyableObjectsManager::Instance().RegisterObject(TaskB());
  IdentifyableObjectsManager::Instance().RegisterObject(TaskC());
  IWorkerPool::shared_ptr pool = WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kMpiWorkerPool);
  struct Once {
    Plan* p; IWorkerPool* pool;
    uint64_t operator()() {
      for (int b = 0; b < p->batches; b++) {
        std::vector<boost::shared_ptr<IMpiTask> > own; std::vector<const ITask*> v; Undistributable u;
        for (int i = p->first[b]; i < p->first[b + 1]; i++) { own.push_back(boost::shared_ptr<IMpiTask>(make_task(i))); v.push_back(own.back().get()); }
        if (p->refuse[b]) v.insert(v.begin() + (p->refuse[b] - 1) % (v.size() + 1), &u);
        sim_deadline(batch_deadline(b));
        try { pool->DoTasks(v); } catch (const std::exception&) { if (!p->refuse[b]) throw; sim_probe("refused_batches", 1); }
        sim_deadline(0);
        if (p->mode & 1) pool->GetStatistics();
        if (p->mode & 2) { try { WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kMpiWorkerPool); } catch (const std::exception&) {} }
      }
      sim_sleep_ns(2000000000ull + 2 * p->max_delay_ns); // every rank comes to rest
      return sim_heap_live();
    }
  } once = {p, pool.get()};
  uint64_t lost = heap_growth(once);
  if (lost) sim_violation("memory-lost", "distributed pool of %d ranks: the same batches again and again left %llu bytes behind", p->ranks, (unsigned long long)lost);
  sim_probe("histories_repeated", 1);
  p->server_finished = 1;
  pool.reset();
}
extern "C" void scenario_mpi_pool_left() {
  draw_plan(4, false);
  Plan* p = P();
  if (p->batches > 3) p->batches = 3;
  for (int b = 0; b < p->batches; b++) {
    if (p->first[b + 1] - p->first[b] > 10) p->first[b + 1] = p->first[b] + 10;
    if (sim_chance(30)) p->refuse[b] = 1 + (int)sim_draw(4);
  }
  for (int i = 0; i < p->first[p->batches]; i++) p->t[i].same = i; 
  network();
  sim_mpi_run("mpi_entry_pool_left", p->ranks);
  if (!p->server_finished) sim_violation("server-unfinished", "the server ended before its batches were done");
  sim_state(H(p->ranks, p->batches));
}
