// Optimisations on the distributed pool, and what they send: C08.
#include "common_util.h"
#include <stdexcept>
#include <boost/mpi.hpp>
#include <boost/bind.hpp>
#include <k52/common/random.h>
#include <k52/parallel/worker_pool_factory.h>
#include <k52/parallel/mpi/constants.h>
#include <k52/parallel/mpi/identifyable_objects_manager.h>
#include <k52/optimization/random_search.h>
#include <k52/optimization/genetic_algorithm.h>
#include <k52/optimization/discrete_objective_function.h>
#include <k52/optimization/flip_bit_mutator.h>
#include <k52/optimization/linear_mutator.h>
#include <k52/optimization/bounded_nelder_mead.h>
#include <k52/optimization/hooke_jeeves_method.h>
#include <k52/optimization/hleborodov_rosenbrock_method.h>
#include <k52/optimization/steepest_descent_method.h>
#include <k52/optimization/conjugate_gradient_method.h>
#include <k52/optimization/params/composite_discrete_parameters.h>
#include <k52/optimization/params/int_parameter.h>
#include <k52/optimization/params/double_parameter.h>
#include <k52/optimization/params/double_parameters_array.h>
#include <k52/optimization/params/continuous_parameters_array.h>

using namespace k52::optimization;
using namespace k52::parallel;
using k52::parallel::mpi::IdentifyableObjectsManager;
using k52::common::Random;
typedef std::vector<double> Vec;

namespace {
// Shared by the driver and every rank: from it each rank makes the same objects.
struct Plan { int ranks, items, rounds, kind, slow; uint64_t seed; int server_finished; long evals[32]; };
Plan* P() { return (Plan*)sim_shared(); }
struct Gen { uint64_t s; explicit Gen(uint64_t x) : s(x * 2654435761u + 99) {} uint64_t below(uint64_t n) { s = H(s, 31); return s % n; } double real(double lo, double hi) { return lo + (hi - lo) * (double)below(1000001) / 1e6; } };
bool same(const Vec& a, const Vec& b) { return a.size() == b.size() && (a.empty() || !memcmp(&a[0], &b[0], 8 * a.size())); }
uint64_t key_of(const Vec& v) { uint64_t h = 7; for (size_t i = 0; i < v.size(); i++) h = HD(h, v[i]); return h; }
void align_random(uint64_t seed) {
  Random& r = Random::Instance();
  sim_rand_mode(RAND_UNIFORM, seed);
  uint64_t c = sim_rand_calls();
  for (int i = 0; i < 80 && sim_rand_calls() == c; i++) r.GetRandomBool();
}
// ---- values ------------------------------------------------------------------
void decode(const IParameters* p, Vec* out) {
  if (const ContinuousParametersArray* b = dynamic_cast<const ContinuousParametersArray*>(p)) { *out = b->GetValues(); return; }
  if (const IntParameter* b = dynamic_cast<const IntParameter*>(p)) { out->push_back(b->get_value()); return; }
  if (const DoubleParameter* b = dynamic_cast<const DoubleParameter*>(p)) { out->push_back(b->GetValue()); return; }
  if (const DoubleParametersArray* b = dynamic_cast<const DoubleParametersArray*>(p)) { Vec v = b->get_values(); out->insert(out->end(), v.begin(), v.end()); return; }
  if (const CompositeDiscreteParameters* b = dynamic_cast<const CompositeDiscreteParameters*>(p)) { for (size_t i = 0; i < b->GetNumberOfParameters(); i++) decode(b->GetParameter(i).get(), out); return; }
  sim_internal_error("unknown parameters");
}
Vec values(const IParameters* p) { Vec v; decode(p, &v); return v; }
void work(uint64_t h) {
  Plan* p = P(); p->evals[sim_mpi_rank()]++;
  if (p->slow && h % 3 == 0) sim_yield();
  if (p->slow > 1 && h % 4 == 1) sim_sleep_ns(1000 * (h % 20000));
}
// functions: the registered one and the one given are the same on every rank
template <int CLS> struct F : ContinuousObjectiveFunction {
  explicit F(uint64_t s = 0) : salt(s), left(-1) {}
  F(const F& o) : ContinuousObjectiveFunction(), salt(o.salt), left(o.left) {}
  uint64_t salt; mutable long left; // evaluations it allows, if any
  double pure(const Vec& v) const {
    if (CLS == 1) return (double)(H(salt, key_of(v)) % 100000) / 7.0;
    if (CLS == 2) return (double)(H(salt, key_of(v)) % 3);
    double s = 0; for (size_t i = 0; i < v.size(); i++) { double c = (double)((salt >> (i * 4)) % 16) / 4 - 2; s += (1 + (double)i * 0.5) * (v[i] - c) * (v[i] - c) + 0.1 * (i ? v[i] * v[i - 1] : 0); }
    return s;
  }
  double operator()(const Vec& v) const { if (left >= 0 && left-- == 0) throw std::runtime_error("enough"); work(key_of(v)); return pure(v); }
  F* Clone() const { return new F(*this); }
};
template <int CLS> struct D : DiscreteObjectiveFunction {
  explicit D(uint64_t s = 0) : salt(s) {}
  D(const D& o) : DiscreteObjectiveFunction(), salt(o.salt) {}
  uint64_t salt;
  double pure(const Vec& v) const {
    uint64_t h = H(salt, key_of(v));
    if (CLS == 1) return (double)(h % 3);
    double t = 0; for (size_t i = 0; i < v.size(); i++) t += v[i] * (double)(i + 1);
    return 1.0 / (1 + std::fabs(t - 3)) + (double)(h % 100) / 1e4;
  }
  double operator()(const IDiscreteParameters* const p) const { Vec v = values(p); work(key_of(v)); return pure(v); }
  D* Clone() const { return new D(*this); }
};
ContinuousOptimizer* make_local(int k, Gen& g, bool far = false) {
  switch (k) {
    case 0: return new BoundedNelderMead(g.real(0.3, 2), g.below(2) ? 1e-2 : 1e-4, -g.real(1, 9), g.real(1, 9));
    case 1: return new HookeJeevesMethod(g.real(1.5, 3.5), g.real(0.3, 2), 1 + g.below(g.below(2) ? 6 : 200) + (far && g.below(2) == 0 ? (size_t)1 << 32 : 0), g.below(2) ? 1e-3 : 0.05, g.real(2, 6));
    case 2: return new HleborodovRosenbrockMethod(g.below(2) ? 1e-4 : 0.03, 1 + g.below(g.below(2) ? 6 : 200), g.real(0.2, 1), g.real(1.5, 3));
    case 3: return new SteepestDescentMethod(g.below(2) ? 1e-4 : 1e-2, 1 + g.below(g.below(2) ? 4 : 30), g.below(2) ? 1e-4 : 0.05);
    default: return new ConjugateGradientMethod(g.below(2) ? 1e-4 : 0.03, g.below(2) ? 1e-2 : 1e-3, 1 + g.below(g.below(2) ? 4 : 40));
  }
}
const char* local_name(int k) { static const char* n[] = {"bounded simplex", "Hooke-Jeeves", "Rosenbrock", "steepest descent", "conjugate gradient"}; return n[k]; }
// a discrete set of parameters; values from v, meta-parameters from g
IDiscreteParameters* make_discrete(int k, Gen& g, Gen& v) {
  switch (k) {
    case 0: { uint64_t w = g.below(16);
              if (w == 0) return new IntParameter((int)(uint32_t)v.below(1ull << 32), -2147483647 - 1, 2147483647); // any int
              if (w == 1) { int only = (int)g.below(21) - 10; return new IntParameter(only, only, only); }
              int lo = (int)g.below(21) - 10, n = 1 + (int)g.below(40); return new IntParameter(lo + (int)v.below(n + 1), lo, lo + n); }
    case 1: { double lo = g.real(-5, 5), hi = lo + g.real(0.5, 20), pr = (hi - lo) / (2 + (double)g.below(60)); return new DoubleParameter(v.real(lo, hi), lo, hi, pr); }
    case 2: { double lo = g.real(-5, 5), hi = lo + g.real(0.5, 20), pr = (hi - lo) / (2 + (double)g.below(60)); size_t n = 1 + g.below(5);
              DoubleParametersArray* a = new DoubleParametersArray(lo, hi, pr, n); Vec x; for (size_t i = 0; i < n; i++) x.push_back(v.real(lo, hi)); a->SetValues(x); return a; }
    default: { CompositeDiscreteParameters* c = new CompositeDiscreteParameters(); std::vector<IDiscreteParameters::shared_ptr> l; int n = 1 + (int)g.below(4);
               for (int i = 0; i < n; i++) l.push_back(IDiscreteParameters::shared_ptr(make_discrete((int)g.below(3), g, v))); c->Initialize(l); return c; }
  }
}
// representable values: what the chromosome says
void settle(IDiscreteParameters* p) { ChromosomeType c(p->GetChromosomeSize()); p->SetChromosome(c.begin(), c.end()); p->SetFromChromosome(c.begin(), c.end()); }
Vec optimum(ContinuousOptimizer& o, uint64_t seed) {
  Gen g(seed); F<0> f(g.below(1u << 30)); f.left = 4000; int n = 1 + (int)g.below(3); Vec s; for (int i = 0; i < n; i++) s.push_back(g.real(-3, 3));
  ContinuousParametersArray p(s); bool maximize = false;
  try { o.Optimize(f, &p, maximize); } catch (const std::exception& e) { return Vec(1, 1e77); }
  return p.GetValues();
}
struct Item { // one object on its way: what it is, and a prototype with other settings
  int kind; boost::shared_ptr<IParameters> par; boost::shared_ptr<ContinuousOptimizer> opt; bool settled;
};
Item make_item(int i, bool prototype) {
  Item it; Gen k(H(P()->seed, i)); it.kind = (int)k.below(10); it.settled = k.below(2) == 0;
  uint64_t meta = k.below(1u << 30), val = k.below(1u << 30);
  if (prototype) { val ^= 0x155; if (it.kind >= 4) meta ^= 0x2aa; }
  Gen g(meta), v(val);
  if (it.kind < 4) { IDiscreteParameters* d = make_discrete(it.kind, g, v); it.par.reset(d); if (it.settled) settle(d); }
  else if (it.kind == 4) { static const double sp[] = {0, -0.0, 1e308, -1e-308, 5e-324, 0.1}; size_t n = g.below(6); Vec x; for (size_t j = 0; j < n; j++) x.push_back(g.below(3) ? g.real(-9, 9) : sp[g.below(6)]); it.par.reset(new ContinuousParametersArray(x)); }
  else it.opt.reset(make_local(it.kind - 5, g, true));
  return it;
}
void check_item(int i, const Item& got, const char* where) {
  sim_state(H(got.kind, P()->ranks));
  Item want = make_item(i, false);
  if (got.par) {
    if (IDiscreteParameters* d = dynamic_cast<IDiscreteParameters*>(want.par.get())) {
      settle(d); // sent as its chromosome
      if (got.kind != 3 && !d->HasSameMetaParameters(dynamic_cast<IDiscreteParameters*>(got.par.get()))) sim_violation("transfer", "%s: the limits of the parameters changed", where);
    }
    Vec a = values(want.par.get()), b = values(got.par.get());
    if (!same(a, b)) sim_violation("transfer", "%s: %zu parameter values arrived as %zu other ones (first %.17g, %.17g)", where, a.size(), b.size(), a.empty() ? 0 : a[0], b.empty() ? 0 : b[0]);
    sim_probe("parameters_received", 1);
  } else {
    uint64_t s = H(P()->seed, i * 3 + 1);
    for (int k = 0; k < 3; k++) {
      Vec a = optimum(*want.opt, s + k), b = optimum(*got.opt, s + k);
      if (!same(a, b)) sim_violation("transfer", "%s: the %s optimiser finds another point than the one that was sent", where, local_name(got.kind - 5));
    }
    sim_probe("optimizers_received", 1);
  }
}
void send_item(const Item& it, boost::mpi::communicator* c, int to) { if (it.par) it.par->Send(c, to); else it.opt->Send(c, to); }
void recv_item(Item& it, boost::mpi::communicator* c, int from) { if (it.par) it.par->Receive(c, from); else it.opt->Receive(c, from); }
} // namespace

// ---- what is sent is what arrives ------------------------------------------------
extern "C" void mpi_entry_transfer(int rank) {
  boost::mpi::environment env; boost::mpi::communicator world;
  Plan* p = P();
  if (rank == 0) {
    // several objects on the way to several ranks at once
    for (int i = 0; i < p->items; i++) { Item it = make_item(i, false); send_item(it, &world, 1 + i % (p->ranks - 1)); }
    for (int i = 0; i < p->items; i++) { Item it = make_item(i, true); recv_item(it, &world, 1 + i % (p->ranks - 1)); check_item(i, it, "on the way back"); }
    p->server_finished = 1;
  } else {
    for (int i = rank - 1; i < p->items; i += p->ranks - 1) { Item it = make_item(i, true); recv_item(it, &world, 0); check_item(i, it, "on the way out"); send_item(it, &world, 0); }
  }
}
namespace {
void network() {
  static const double slow[] = {0, 5, 30, 80}; static const double rdv[] = {0, 10, 50, 100}; static const uint64_t dl[] = {100000, 3000000, 20000000};
  double s = slow[sim_draw(4)]; uint64_t d = dl[sim_draw(3)];
  sim_mpi_config(P()->ranks, s, d, rdv[sim_draw(4)]);
  sim_faults_enable(1);
}
}
extern "C" void scenario_mpi_transfer() {
  sim_disk_enable(1);
  Plan* p = P(); memset(p, 0, sizeof *p);
  p->ranks = 2 + (int)sim_draw(sim_mpi_images() - 1); p->items = 1 + (int)sim_draw(12); p->seed = sim_draw(1u << 30);
  static const double rdv[] = {0, 10, 50}; static const uint64_t dl[] = {100000, 20000000};
  uint64_t d = dl[sim_draw(2)];
  (void)rdv;
  sim_mpi_config(p->ranks, sim_chance(50) ? 20 : 0, d, 0); // eager: both sides send before they receive
  sim_faults_enable(1);
  sim_mpi_run("mpi_entry_transfer", p->ranks);
  if (!p->server_finished) sim_violation("server-unfinished", "rank 0 did not finish");
  if (sim_mpi_undelivered()) sim_violation("mpi-undelivered", "%llu messages were never received", (unsigned long long)sim_mpi_undelivered());
}

// ---- optimisations on the distributed pool ------------------------------------------
namespace {
struct Problem { int pkind; uint64_t meta; IDiscreteParameters* make() const { Gen g(meta), v(1); return make_discrete(pkind, g, v); } };
Problem problem(Gen& g) { Problem p; p.pkind = 1 + (int)g.below(3); p.meta = g.below(1u << 30); return p; }
struct GenRec { double best, avg; int hits, invalid; Vec v; std::vector<std::pair<double, int> > stats; bool operator==(const GenRec& o) const { return best == o.best && avg == o.avg && hits == o.hits && invalid == o.invalid && same(v, o.v) && stats == o.stats; } };
std::vector<GenRec>* gens;
void on_generation(GenerationStatistics st) {
  GenRec g; g.best = st.get_best_fitness(); g.avg = st.get_average_fitness(); g.hits = st.get_cache_hits(); g.invalid = st.get_invalid_chromosomes(); g.v = values(st.get_best_parameters());
  std::list<IndividualStatistics> l = st.get_all_individuals_statistics();
  for (std::list<IndividualStatistics>::iterator i = l.begin(); i != l.end(); ++i) g.stats.push_back(std::make_pair(i->fitness, i->times_chosen_for_crossover));
  gens->push_back(g);
}
struct GaSetup { int pop, elites, ngen, mut; double cache; uint64_t seed; };
GaSetup ga_setup(Gen& g) { GaSetup s; s.pop = 2 * (1 + (int)g.below(6)); s.elites = (int)g.below(s.pop / 2 + 1); s.ngen = 1 + (int)g.below(4); s.mut = (int)g.below(2); s.cache = g.below(2) ? 100 : 0; s.seed = g.below(1u << 30); return s; }
GeneticAlgorithm::shared_ptr make_ga(const GaSetup& s) {
  align_random(s.seed);
  IMutator::shared_ptr m; if (s.mut) m.reset(new FlipBitMutator(0.05)); else m.reset(new LinearMutator(0.3, 0.05));
  return GeneticAlgorithm::Create(s.pop, s.elites, s.ngen, m, s.cache, 1e300, "");
}
}
extern "C" void mpi_entry_optimization(int rank) {
  Plan* p = P();
  Gen g(p->seed);
  uint64_t salt = g.below(1u << 30);
  Problem pr = problem(g);
  IdentifyableObjectsManager& im = IdentifyableObjectsManager::Instance();
  im.RegisterObject(F<0>(salt)); im.RegisterObject(F<1>(salt)); im.RegisterObject(F<2>(salt));
  im.RegisterObject(D<0>(salt)); im.RegisterObject(D<1>(salt));
  im.RegisterObject(ContinuousParametersArray(1 + (size_t)rank % 2));
  { boost::shared_ptr<IDiscreteParameters> d(pr.make()); im.RegisterObject(*d); }
  for (int k = 1; k < 5; k++) { Gen o(rank + 5); boost::shared_ptr<ContinuousOptimizer> l(make_local(k, o)); im.RegisterObject(*l); }
  int inner = p->kind == 0 ? -1 : (int)g.below(5);
  int n = inner < 0 ? 1 + (int)g.below(20) : 1 + (int)g.below(9);
  double lo = g.real(-3, 1), hi = lo + g.real(0.1, 4);
  uint64_t lseed = g.below(1u << 30);
  Gen lg(lseed), lg2(lseed);
  boost::shared_ptr<ContinuousOptimizer> l1, l2;
  if (inner >= 0) { l1.reset(make_local(inner, lg)); l2.reset(make_local(inner, lg2)); }
  GaSetup gs = ga_setup(g);
  long local = 0;
  if (p->kind < 2) {
    RandomSearch distributed((size_t)n, lo, hi, l1.get()); // does not return on a worker
    if (rank != 0) sim_violation("worker-returned", "creating the search returned on worker rank %d", rank);
    for (int round = 0; round < p->rounds; round++) {
      int dim = 1 + (int)g.below(3); bool maximize = inner < 0 && g.below(2); int fk = inner < 0 ? (int)g.below(3) : 0; uint64_t rs = g.below(1u << 30);
      Vec start; for (int i = 0; i < dim; i++) start.push_back(g.real(-3, 3));
      boost::shared_ptr<ContinuousObjectiveFunction> f; if (fk == 0) f.reset(new F<0>(salt)); else if (fk == 1) f.reset(new F<1>(salt)); else f.reset(new F<2>(salt));
      ContinuousParametersArray a(start), b(start);
      long before = p->evals[0];
      align_random(rs); distributed.Optimize(*f, &a, maximize);
      local += p->evals[0] - before;
      RandomSearch alone((size_t)n, lo, hi, l2.get());
      align_random(rs); alone.Optimize(*f, &b, maximize);
      if (!same(a.GetValues(), b.GetValues())) sim_violation("outcome-differs", "a random search %s on the distributed pool gives another point than in one process", inner < 0 ? "" : local_name(inner));
      if (inner < 0 && p->evals[0] - before < n) sim_internal_error("local search was not local");
      sim_probe(inner < 0 ? "distributed_searches" : "distributed_searches_with_optimizer", 1);
      sim_state(H(H(p->ranks, n), inner * 4 + dim)); sim_hash(key_of(a.GetValues()));
    }
    if (inner < 0 && local) sim_violation("not-distributed", "%ld evaluations were done by the server itself", local);
    p->server_finished = 1;
  } else {
    GeneticAlgorithm::shared_ptr ga = make_ga(gs); // does not return on a worker
    if (rank != 0) sim_violation("worker-returned", "creating the algorithm returned on worker rank %d", rank);
    for (int round = 0; round < (gs.mut ? 1 : p->rounds); round++) {
      std::vector<GenRec> x, y; int fk = (int)g.below(2);
      boost::shared_ptr<IDiscreteParameters> a(pr.make()), b(pr.make());
      boost::shared_ptr<DiscreteObjectiveFunction> f; if (fk) f.reset(new D<1>(salt)); else f.reset(new D<0>(salt));
      long before = p->evals[0];
      gens = &x; ga->OnNextGenerationReadyConnect(&on_generation); align_random(gs.seed); if (gs.mut && round == 0) { } ga->Optimize(*f, a.get(), true);
      if (p->evals[0] != before) sim_violation("not-distributed", "%ld evaluations were done by the server itself", p->evals[0] - before);
      GeneticAlgorithm::shared_ptr alone = make_ga(gs);
      gens = &y; alone->OnNextGenerationReadyConnect(&on_generation); align_random(gs.seed); alone->Optimize(*f, b.get(), true);
      if (!(x == y)) sim_violation("outcome-differs", "a genetic algorithm on the distributed pool reports other generations than in one process");
      if (!same(values(a.get()), values(b.get()))) sim_violation("outcome-differs", "a genetic algorithm on the distributed pool gives other parameters than in one process");
      sim_probe("distributed_genetic_algorithms", 1);
      sim_state(H(H(p->ranks, gs.pop), gs.elites * 16 + x.size())); sim_hash(key_of(values(a.get())));
    }
    p->server_finished = 1;
  }
}
extern "C" void scenario_mpi_optimization() {
  sim_disk_enable(1); sim_set_cpus(1);
  Plan* p = P(); memset(p, 0, sizeof *p);
  p->ranks = 2 + (int)sim_draw(sim_mpi_images() - 1); p->rounds = 1 + (int)sim_draw(3); p->kind = (int)sim_draw(3); p->seed = sim_draw(1u << 30); p->slow = (int)sim_draw(3);
  if (p->kind == 1 && p->slow > 1) p->slow = 1;
  network();
  sim_mpi_run("mpi_entry_optimization", p->ranks);
  if (!p->server_finished) sim_violation("server-unfinished", "the server ended before its optimisations were done");
  for (int r = 1; r < p->ranks; r++) if (sim_mpi_exit_code(r) != 0) sim_violation("worker-exit", "worker %d ended with code %d", r, sim_mpi_exit_code(r));
  if (sim_mpi_undelivered()) sim_violation("mpi-undelivered", "%llu messages were never received", (unsigned long long)sim_mpi_undelivered());
}

// ---- C28: repeating the same optimisation leaves nothing behind, on any rank --------
extern "C" void mpi_entry_optimization_left(int rank) {
  Plan* p = P();
  Gen g(p->seed);
  uint64_t salt = g.below(1u << 30);
  Problem pr = problem(g);
  IdentifyableObjectsManager& im = IdentifyableObjectsManager::Instance();
  im.RegisterObject(F<0>(salt)); im.RegisterObject(F<1>(salt)); im.RegisterObject(D<0>(salt));
  im.RegisterObject(ContinuousParametersArray(1));
  { boost::shared_ptr<IDiscreteParameters> d(pr.make()); im.RegisterObject(*d); }
  for (int k = 1; k < 5; k++) { Gen o(rank + 5); boost::shared_ptr<ContinuousOptimizer> l(make_local(k, o)); im.RegisterObject(*l); }
  int inner = p->kind == 0 ? -1 : (int)g.below(5);
  Gen lg(g.below(1u << 30));
  boost::shared_ptr<ContinuousOptimizer> local; if (inner >= 0) local.reset(make_local(inner, lg));
  struct Once {
    Plan* p; RandomSearch* rs; GeneticAlgorithm* ga; Problem pr; GaSetup gs; uint64_t salt; int fk;
    uint64_t operator()() {
      align_random(gs.seed);
      if (rs) { ContinuousParametersArray a(Vec(2, 0.5)); if (fk) { F<1> f(salt); rs->Optimize(f, &a, true); } else { F<0> f(salt); rs->Optimize(f, &a, false); } }
      else { boost::shared_ptr<IDiscreteParameters> a(pr.make()); D<0> f(salt); std::vector<GenRec> x; gens = &x; ga->Optimize(f, a.get(), true); }
      sim_sleep_ns(2000000000ull); // every rank comes to rest
      return sim_heap_live();
    }
  };
  int n = 1 + (int)g.below(6); GaSetup gs = ga_setup(g); if (gs.ngen > 2) gs.ngen = 2;
  Once once = {p, NULL, NULL, pr, gs, salt, inner < 0 ? (int)g.below(2) : 0};
  uint64_t lost;
  if (p->kind < 2) { RandomSearch rs((size_t)n, -2, 2, local.get()); once.rs = &rs; lost = heap_growth(once); }
  else { GeneticAlgorithm::shared_ptr ga = make_ga(gs); once.ga = ga.get(); lost = heap_growth(once); }
  if (lost) sim_violation("memory-lost", "%s on %d ranks: the same optimisation again and again left %llu bytes behind", p->kind < 1 ? "random search" : p->kind < 2 ? local_name(inner) : "genetic algorithm", p->ranks, (unsigned long long)lost);
  sim_probe("histories_repeated", 1);
  p->server_finished = 1;
}
extern "C" void scenario_mpi_optimization_left() {
  sim_disk_enable(1); sim_set_cpus(1);
  Plan* p = P(); memset(p, 0, sizeof *p);
  p->ranks = 2 + (int)sim_draw(3); p->kind = (int)sim_draw(3); p->seed = sim_draw(1u << 30);
  network();
  sim_mpi_run("mpi_entry_optimization_left", p->ranks);
  if (!p->server_finished) sim_violation("server-unfinished", "the server ended before its optimisations were done");
  sim_state(H(p->ranks, p->kind));
}
