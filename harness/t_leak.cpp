// What is taken is given back: C28. The same history is lived through again and
// again; memory that stays behind each time is lost, memory taken once is not.
#include "common_util.h"
#include <algorithm>
#include <complex>
#include <k52/common/random.h>
#include <k52/common/settings_manager.h>
#include <k52/parallel/worker_pool_factory.h>
#include <k52/parallel/i_task.h>
#include <k52/parallel/i_task_result.h>
#include <k52/optimization/random_search.h>
#include <k52/optimization/simulated_annealing.h>
#include <k52/optimization/bounded_nelder_mead.h>
#include <k52/optimization/hooke_jeeves_method.h>
#include <k52/optimization/hleborodov_rosenbrock_method.h>
#include <k52/optimization/steepest_descent_method.h>
#include <k52/optimization/conjugate_gradient_method.h>
#include <k52/optimization/genetic_algorithm.h>
#include <k52/optimization/linear_mutator.h>
#include <k52/optimization/flip_bit_mutator.h>
#include <k52/optimization/discrete_objective_function.h>
#include <k52/optimization/params/int_parameter.h>
#include <k52/optimization/params/double_parameter.h>
#include <k52/optimization/params/composite_discrete_parameters.h>
#include <k52/optimization/params/double_parameters_array.h>
#include <k52/optimization/params/continuous_parameters_array.h>
#include <k52/dsp/transform/fast_fourier_transform.h>
#include <k52/dsp/transform/inverse_fourier_transform.h>
#include <k52/dsp/transform/fourier_based_circular_convolution.h>
#include <k52/dsp/transform/wavelet/fast_wavelet_transform.h>
#include <k52/dsp/transform/wavelet/linear_scale.h>
#include <k52/dsp/mhat_wavelet_function.h>

using namespace k52::parallel;
using namespace k52::optimization;
namespace {
struct Rng { uint64_t s; explicit Rng(uint64_t x) : s(x) {} uint64_t below(uint64_t n) { s = H(s, 0x1234567); return (s >> 20) % n; } bool chance(int p) { return below(100) < (uint64_t)p; } };
struct LResult : ITaskResult { std::vector<uint64_t> v; LResult() : v(5) {} };
struct LTask : ITask {
  LTask() : fail(0), nap(0) {} int fail, nap;
  ITaskResult* Perform() const { if (nap) sim_yield(); if (fail) fail_with(fail - 1, "failure"); return new LResult(); }
};
void batches(IWorkerPool& pool, Rng& r) {
  for (int b = 1 + (int)r.below(3); b > 0; b--) {
    std::vector<LTask> ts(r.below(20)); std::vector<const ITask*> v; bool f = r.chance(50);
    for (size_t i = 0; i < ts.size(); i++) { ts[i].nap = (int)r.below(2); if (f && r.chance(30)) ts[i].fail = 1 + (int)r.below(kFailKinds); v.push_back(&ts[i]); }
    try { pool.DoTasks(v); } catch (...) { failure_kind(); sim_probe("failed_batches", 1); }
  }
}
struct DF : DiscreteObjectiveFunction {
  DF() : salt(0), mod(0), kind(0) {} DF(const DF& o) : DiscreteObjectiveFunction(), salt(o.salt), mod(o.mod), kind(o.kind) {}
  uint64_t salt, mod; int kind;
  double operator()(const IDiscreteParameters* const p) const {
    ChromosomeType c(p->GetChromosomeSize()); p->SetChromosome(c.begin(), c.end());
    uint64_t h = salt; for (size_t i = 0; i < c.size(); i++) h = H(h, c[i]);
    if (mod && h % mod == 0) fail_with(kind, "objective");
    return (double)(h % 100);
  }
  DF* Clone() const { return new DF(*this); }
};
struct CF : ContinuousObjectiveFunction {
  CF() : mod(0), kind(0) {} CF(const CF& o) : ContinuousObjectiveFunction(), mod(o.mod), kind(o.kind) {}
  uint64_t mod; int kind;
  double operator()(const std::vector<double>& v) const {
    uint64_t h = 3; double s = 0; for (size_t i = 0; i < v.size(); i++) { h = HD(h, v[i]); s += (v[i] - 0.3) * (v[i] - 0.3); }
    if (mod && h % mod == 0) fail_with(kind, "objective");
    return s;
  }
  CF* Clone() const { return new CF(*this); }
};
IDiscreteParameters* parameters(Rng& r) {
  if (r.chance(40)) return new DoubleParametersArray(0, 1, 0.05, 1 + r.below(4));
  std::vector<IDiscreteParameters::shared_ptr> v;
  for (int i = 1 + (int)r.below(3); i > 0; i--)
    v.push_back(IDiscreteParameters::shared_ptr(r.chance(50) ? (IDiscreteParameters*)new IntParameter(0, 31) : (IDiscreteParameters*)new DoubleParameter(0.5, 0, 1, 0.1)));
  CompositeDiscreteParameters* c = new CompositeDiscreteParameters(); c->Initialize(v); return c;
}
bool save_next;
void on_generation(GenerationStatistics st) { if (save_next) st.SaveCurrentPopulationToFile("population.txt"); }
void genetic(GeneticAlgorithm& ga, Rng& r) {
  boost::shared_ptr<IDiscreteParameters> p(parameters(r));
  DF f; f.salt = r.below(1000); if (r.chance(30)) { f.mod = 2 + r.below(40); f.kind = (int)r.below(kFailKinds); }
  ga.OnNextGenerationReadyConnect(r.chance(70) ? &on_generation : NULL); save_next = r.chance(50);
  if (r.chance(30)) { // a first population that fits or does not
    std::vector<IDiscreteParameters::shared_ptr> v(r.chance(50) ? 6 : r.below(8));
    for (size_t i = 0; i < v.size(); i++) v[i] = IDiscreteParameters::shared_ptr(r.chance(90) ? p->Clone() : (IDiscreteParameters*)new IntParameter(0, 5));
    ga.SetInitialParameters(v);
  }
  try { ga.Optimize(f, p.get(), !r.chance(10)); } catch (...) { failure_kind(); sim_probe("failed_optimisations", 1); }
}
GeneticAlgorithm::shared_ptr make_genetic(Rng& r) {
  IMutator::shared_ptr m(r.chance(50) ? (IMutator*)new LinearMutator(0.2, 0.1) : (IMutator*)new FlipBitMutator(0.1));
  return GeneticAlgorithm::Create(6, (int)r.below(3), 1 + (int)r.below(5), m, r.chance(50) ? (r.chance(50) ? 10 : 0.002) : 0, 1e9, r.chance(30) ? "population.txt" : "");
}
ContinuousOptimizer* local(int k) {
  switch (k) {
    case 0: return new BoundedNelderMead(1, 1e-3, -10, 10);
    case 1: return new HookeJeevesMethod(1.5, 0.5, 100, 1e-2, 5);
    case 2: return new HleborodovRosenbrockMethod(1e-3, 100, 0.5, 2);
    case 3: return new SteepestDescentMethod(1e-4, 20, 1e-3);
    case 4: return new ConjugateGradientMethod(1e-3, 1e-2, 20);
    default: return new SimulatedAnnealing(10, -2, 2);
  }
}
void search(ContinuousOptimizer& o, Rng& r) {
  CF f; if (r.chance(30)) { f.mod = 2 + r.below(20); f.kind = (int)r.below(kFailKinds); }
  ContinuousParametersArray p(std::vector<double>(1 + r.below(3), 0.1 * (double)r.below(10)));
  try { o.Optimize(f, &p, false); } catch (...) { failure_kind(); sim_probe("failed_optimisations", 1); }
}
typedef std::vector<std::complex<double> > Seq;
struct Dsp {
  boost::shared_ptr<k52::dsp::FastFourierTransform> fft; boost::shared_ptr<k52::dsp::FourierBasedCircularConvolution> conv; boost::shared_ptr<k52::dsp::FastWaveletTransform> fwt;
  k52::dsp::IWavelet::shared_ptr w; size_t n;
  explicit Dsp(Rng& r) : w(new k52::dsp::MhatWaveletFunction()), n(2 + r.below(12)) {
    fft.reset(new k52::dsp::FastFourierTransform(n));
    conv.reset(new k52::dsp::FourierBasedCircularConvolution(fft));
    fwt.reset(new k52::dsp::FastWaveletTransform(k52::dsp::IScale::shared_ptr(new k52::dsp::LinearScale(1, 3, 3)), n, r.chance(50) ? 1 : 0.0005));
  }
  void use(Rng& r) {
    Seq a(r.chance(20) ? n + 1 : n), b(n); for (size_t i = 0; i < a.size(); i++) a[i] = (double)r.below(9); for (size_t i = 0; i < n; i++) b[i] = (double)r.below(9);
    try { switch (r.below(4)) { case 0: fft->Transform(a); break; case 1: conv->EvaluateConvolution(a, b); break; case 2: fwt->Transform(a, w); break; default: fwt->TransformOneScale(a, w, r.chance(30) ? -1 : 1 + (double)r.below(2)); } }
    catch (const std::exception&) { sim_probe("refused_transforms", 1); }
  }
};
// what is lived through; objects of the world live on between two histories
struct World { IWorkerPool::shared_ptr pool; GeneticAlgorithm::shared_ptr ga; boost::shared_ptr<ContinuousOptimizer> opt, inner; boost::shared_ptr<Dsp> dsp; boost::shared_ptr<k52::SettingsManager> set; };
enum { KINDS = 8 };
const char* kind_name(int k) { static const char* n[] = {"thread pool", "genetic algorithm", "random search", "local optimisation", "transforms", "settings", "parameters", "pool factory"}; return n[k]; }
void settings(k52::SettingsManager& m, Rng& r) {
  m.put("a.b", (int)r.below(5)); m.put("c", std::string("value"));
  try { m.get<int>("a.b"); m.get<int>("nothing"); } catch (const std::exception&) {}
  m.get<std::string>("nothing", "default");
}
void live(int kind, World& w, Rng r) {
  switch (kind) {
    case 0: if (!w.pool) w.pool = WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kThreadWorkerPool); batches(*w.pool, r); break;
    case 1: if (!w.ga) w.ga = make_genetic(r); genetic(*w.ga, r); break;
    case 2:
      if (!w.opt) { int k = (int)r.below(8); if (k < 5) w.inner.reset(local(k)); w.opt.reset(new RandomSearch(1 + r.below(5), -2, 2, w.inner.get())); }
      search(*w.opt, r); break;
    case 3: if (!w.opt) w.opt.reset(local((int)r.below(6))); search(*w.opt, r); break;
    case 4: if (!w.dsp) w.dsp.reset(new Dsp(r)); for (int i = 0; i < 4; i++) w.dsp->use(r);
      try { k52::dsp::FastFourierTransform none(0); } catch (const std::exception&) {}
      try { k52::dsp::LinearScale none(3, 1, 3); } catch (const std::exception&) {}
      break;
    case 5:
      if (!w.set) { const char* a[] = {"program", "--x=1", "--y.z=text", "ignored"}; w.set.reset(new k52::SettingsManager(4, a)); }
      settings(*w.set, r);
      try { k52::SettingsManager m(r.chance(50) ? "good.xml" : r.chance(50) ? "bad.xml" : "missing.xml"); settings(m, r); } catch (const std::exception&) { sim_probe("refused_settings", 1); }
      break;
    case 6: {
      boost::shared_ptr<IDiscreteParameters> p(parameters(r)), q(p->Clone());
      ChromosomeType c(p->GetChromosomeSize() + (r.chance(20) ? 1 : 0));
      for (size_t i = 0; i < c.size(); i++) c[i] = r.chance(50);
      try { p->SetFromChromosome(c.begin(), c.end()); p->SetChromosome(c.begin(), c.end()); p.reset(p->Clone()); } catch (const std::exception&) {}
      try { DoubleParametersArray a(0, 1, 0.1, 3); a.SetValues(std::vector<double>(3, r.chance(50) ? 2. : .5)); } catch (const std::exception&) {}
      try { DoubleParameter d(0, 1, 0, 0.1); } catch (const std::exception&) {}
      break;
    }
    default: {
      bool faults = r.chance(50);
      sim_set_cpus(1 + (int)r.below(4));
      if (faults) { sim_thread_create_faults(30); sim_faults_enable(1); }
      try { IWorkerPool::shared_ptr p = r.chance(50) ? WorkerPoolFactory::CreateBestWorkerPool() : WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kThreadWorkerPool); sim_faults_enable(0); batches(*p, r); }
      catch (const std::exception&) { sim_probe("creation_failures", 1); }
      sim_faults_enable(0); sim_thread_create_faults(0);
      try { WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kMpiWorkerPool); } catch (const std::exception&) {}
    }
  }
}
}
extern "C" void scenario_nothing_left() {
  sim_disk_enable(1);
  sim_set_cpus(2 + (int)sim_draw(3));
  static const double sp[] = {0, 0, 3}; sim_spurious_wakeups(sp[sim_draw(3)]);
  const char good[] = "<a><b>1</b><c>x</c></a>", bad[] = "<a><b>1</b>";
  sim_disk_put("good.xml", good, sizeof good - 1); sim_disk_put("bad.xml", bad, sizeof bad - 1);
  k52::common::Random::Instance();
  int kind = (int)sim_draw(KINDS);
  bool keep = sim_chance(40); // one object used again and again, or a new one each time
  uint64_t seed = sim_draw(1u << 30), rseed = sim_draw(1 << 20);
  {
    World kept;
    struct Once {
      int kind; bool keep; uint64_t seed, rseed; World* kept;
      uint64_t operator()() {
        sim_rand_mode(RAND_UNIFORM, rseed);
        if (keep) live(kind, *kept, Rng(seed)); else { World w; live(kind, w, Rng(seed)); }
        if (!keep && sim_live_threads() != 1) sim_violation("threads-left", "%d threads remain after a history of: %s", sim_live_threads() - 1, kind_name(kind));
        if (keep) sim_sleep_ns(1000000); // workers come to rest
        return sim_heap_live();
      }
    } once = {kind, keep, seed, rseed, &kept};
    uint64_t lost = heap_growth(once);
    if (lost) sim_violation("memory-lost", "%s, %s: living through the same again and again left %llu bytes behind", kind_name(kind), keep ? "the same object" : "a new object each time", (unsigned long long)lost);
  }
  if (sim_disk_open_fds()) sim_violation("file-open", "%d files stay open", sim_disk_open_fds());
  if (sim_fftw_live()) sim_violation("transforms-left", "%d plans or buffers of transforms are not released", sim_fftw_live());
  sim_probe(keep ? "objects_reused" : "objects_remade", 1); sim_probe(kind_name(kind), 1);
  sim_state(H(kind, keep)); sim_hash(H(kind, keep));
}
