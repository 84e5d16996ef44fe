// The genetic algorithm over simulated schedules, random streams, disks and
// failing objective functions: C10 - C14, C21.
#include "common_util.h"
#include <stdexcept>
#include <algorithm>
#include <map>
#include <k52/common/random.h>
#include <k52/optimization/genetic_algorithm.h>
#include <k52/optimization/discrete_objective_function.h>
#include <k52/optimization/flip_bit_mutator.h>
#include <k52/optimization/linear_mutator.h>
#include <k52/optimization/params/composite_discrete_parameters.h>
#include <k52/optimization/params/const_chromosome_size_paremeters.h>
#include <k52/optimization/params/int_parameter.h>
#include <k52/optimization/params/double_parameter.h>
#include <k52/optimization/params/double_parameters_array.h>
#include <k52/optimization/bounded_nelder_mead.h>
#include <k52/optimization/params/continuous_parameters_array.h>
#include <k52/optimization/random_search.h>

using namespace k52::optimization;

namespace {
// ---- a parameter type of the user's own: its value is its chromosome --------
struct Bits : ConstChromosomeSizeParemeters {
  Bits(size_t n, int lo, int hi) : v(n), lo_(lo), hi_(hi) { SetConstChromosomeSize(n); }
  Bits* Clone() const { Bits* b = new Bits(v.size(), lo_, hi_); b->v = v; return b; }
  bool HasSameMetaParameters(const IDiscreteParameters* p) const { const Bits* b = dynamic_cast<const Bits*>(p); return b && b->v.size() == v.size(); }
  bool CheckConstraints() const { int c = 0; for (size_t i = 0; i < v.size(); i++) c += v[i]; return c >= lo_ && c <= hi_; }
  void SetChromosome(ChromosomeType::iterator from, ChromosomeType::iterator to) const { size_t i = 0; for (; from != to; ++from) *from = v[i++]; }
  void SetFromChromosome(ChromosomeType::const_iterator from, ChromosomeType::const_iterator to) { size_t i = 0; for (; from != to; ++from) v[i++] = *from; }
  std::vector<bool> v; int lo_, hi_;
};
void decode(const IParameters* p, std::vector<double>* out) {
  if (const Bits* b = dynamic_cast<const Bits*>(p)) { for (size_t i = 0; i < b->v.size(); i++) out->push_back(b->v[i] ? 1 : 0); return; }
  if (const IntParameter* b = dynamic_cast<const IntParameter*>(p)) { out->push_back(b->get_value()); return; }
  if (const DoubleParameter* b = dynamic_cast<const DoubleParameter*>(p)) { out->push_back(b->GetValue()); return; }
  if (const DoubleParametersArray* b = dynamic_cast<const DoubleParametersArray*>(p)) { std::vector<double> v = b->get_values(); out->insert(out->end(), v.begin(), v.end()); return; }
  if (const CompositeDiscreteParameters* b = dynamic_cast<const CompositeDiscreteParameters*>(p)) { for (size_t i = 0; i < b->GetNumberOfParameters(); i++) decode(b->GetParameter(i).get(), out); return; }
  sim_internal_error("unknown parameters");
}
std::vector<double> values(const IParameters* p) { std::vector<double> v; decode(p, &v); return v; }
uint64_t key_of(const std::vector<double>& v) { uint64_t h = 7; for (size_t i = 0; i < v.size(); i++) h = HD(h, v[i]); return h; }

// ---- problem --------------------------------------------------------------
struct Problem {
  int kind; int nparam; int bits[64]; int lo[64]; int range[64]; double dlo, dhi, dprec; int clo, chi; bool free_;
  IDiscreteParameters* make() const {
    switch (kind) {
      case 0: return new Bits(bits[0], clo, chi);
      case 1: case 2: {
        CompositeDiscreteParameters* c = new CompositeDiscreteParameters();
        std::vector<IDiscreteParameters::shared_ptr> v;
        for (int i = 0; i < nparam; i++) {
          int hi = kind == 1 ? (int)((1u << bits[i] % 32) - 1) : range[i];
          if (bits[i] == 32) v.push_back(IDiscreteParameters::shared_ptr(new IntParameter(-2147483647 - 1, 2147483647))); // any int
          else if (i == 4) v.push_back(IDiscreteParameters::shared_ptr(new DoubleParameter(dlo, dlo, dhi, dprec)));
          else v.push_back(IDiscreteParameters::shared_ptr(new IntParameter(lo[i], lo[i] + hi)));
        }
        c->Initialize(v);
        return c;
      }
      default: return new DoubleParametersArray(dlo, dhi, dprec, nparam);
    }
  }
};
Problem draw_problem(bool need_free, bool bits_only) {
  Problem p; memset(&p, 0, sizeof p);
  p.kind = bits_only ? 0 : (int)sim_draw(4);
  if (need_free && p.kind == 2) p.kind = 1;
  p.nparam = 1 + (int)sim_draw(5);
  if (p.kind != 2 && sim_chance(8)) p.nparam = 6 + (int)sim_draw(40); // long chromosomes
  for (int i = 0; i < 64; i++) { p.bits[i] = 1 + (int)sim_draw(5); p.lo[i] = (int)sim_draw(21) - 10; p.range[i] = 1 + (int)sim_draw(20); if (sim_chance(6)) { p.bits[i] = 6 + (int)sim_draw(25); p.range[i] = 1 << (int)sim_draw(31); } if (sim_chance(4)) { p.bits[i] = sim_chance(70) ? 0 : 32; p.range[i] = 0; } }
  static const double los[] = {0, -1, 0.0001, -100, 3}; static const double w[] = {1, 99.9999, 7, 0.5, 1000};
  p.dlo = los[sim_draw(5)]; p.dhi = p.dlo + w[sim_draw(5)];
  static const double pr[] = {0.3, 0.125, 0.01, 0.07, 0.001, 1e-6, 2e-9};
  p.dprec = pr[sim_draw(7)] * (p.dhi - p.dlo);
  p.free_ = p.kind != 2;
  if (p.kind == 0) {
    p.bits[0] = 2 + (int)sim_draw(22); if (p.nparam > 5) p.bits[0] = 20 + 5 * p.nparam; p.clo = 0; p.chi = p.bits[0];
    if (!need_free && sim_chance(30)) { p.clo = p.bits[0] / 3; p.chi = p.bits[0] - p.bits[0] / 4; p.free_ = false; }
  }
  return p;
}

// ---- objective function and recorder ---------------------------------------
enum { MAXE = 16384 };
struct Rec { // written from worker threads one at a time, plain memory on purpose
  int n, gstart, over, bad; uint64_t key[MAXE]; double val[MAXE]; uint32_t bits[MAXE];
  int gen_of[MAXE];
} R;
__attribute__((no_sanitize("thread"), noinline)) void record(uint64_t k, double v, uint32_t b) {
  if (R.n >= MAXE) { R.over = 1; return; }
  int i = R.n++; R.key[i] = k; R.val[i] = v; R.bits[i] = b; R.gen_of[i] = -1;
}
__attribute__((no_sanitize("thread"))) void rec_reset() { R.n = R.gstart = R.over = R.bad = 0; }
int thrown_count;
__attribute__((no_sanitize("thread"), noinline)) void record_throw() { thrown_count++; }

struct Func : DiscreteObjectiveFunction {
  Func() : kind(0), salt(0), slow(0), fail_mod(0), fail_kind(0), quiet(false) {}
  Func(const Func& o) : DiscreteObjectiveFunction() { *this = o; }
  Func& operator=(const Func& o) { kind = o.kind; salt = o.salt; slow = o.slow; fail_mod = o.fail_mod; fail_kind = o.fail_kind; quiet = o.quiet; return *this; }
  int kind; uint64_t salt; int slow; uint64_t fail_mod; int fail_kind; bool quiet;
  double pure(const std::vector<double>& v) const {
    uint64_t h = H(salt, key_of(v)); double s = 0, t = 0;
    for (size_t i = 0; i < v.size(); i++) { s += v[i] > 0 ? v[i] : -v[i]; t += v[i] * (double)(i + 1); }
    switch (kind) {
      case 0: return s;
      case 1: return (double)(h % 1000) / 7.0;
      case 2: return (double)(h % 3);
      case 3: return h % 40 == 0 ? 5 : 0;
      case 4: return 0;
      case 5: return 1e90 * (double)(h % 1000) + 1e80;
      case 6: return 1.0 / (1 + std::fabs(t - 3));
      default: return 1e-90 * (double)(h % 1000);
    }
  }
  double operator()(const IDiscreteParameters* const p) const {
    std::vector<double> v = values(p);
    uint64_t k = key_of(v), h = H(salt + 77, k);
    if (!p->CheckConstraints()) sim_violation("invalid-evaluated", "the objective function was asked for parameters that violate their constraints");
    if (slow) { if (h % 3 == 0) sim_yield(); if (slow > 1 && h % 5 == 1) sim_sleep_ns(1000 * (h % 4000)); }
    if (fail_mod && h % fail_mod == 0) {
      record_throw();
      fail_with(fail_kind, "objective");
    }
    double r = pure(v);
    if (!quiet) {
      uint32_t b = 0; if (const Bits* bb = dynamic_cast<const Bits*>(p)) for (size_t i = 0; i < bb->v.size() && i < 32; i++) b |= (uint32_t)bb->v[i] << i;
      record(k, r, b);
    }
    return r;
  }
  Func* Clone() const { return new Func(*this); }
};
Func draw_func() { Func f; f.kind = (int)sim_draw(8); f.salt = sim_draw(1 << 20); return f; }

struct NoMutation : IMutator { void ApplyNewMutationContext(const MutationContext&) {} void MutateChromosome(ChromosomeType*) {} };

struct Setup {
  Problem pr; Func f; int pop, elites, gens, mut; double cache, stop, mp1, mp2; int rmode; uint64_t rseed; bool cb; std::string file; int save; // save: generation to save at, -1 none, -2 every
  std::string save_name; int saved_gen;
};
// ---- callback state --------------------------------------------------------
struct GenRec { size_t n; double best, avg; int hits, invalid; uint64_t bestkey; std::vector<std::pair<double, int> > stats; int e0, e1; };
struct Run { std::vector<GenRec> gens; std::vector<double> final; std::vector<double> bestv; bool threw; std::string what; int failkind; };
Run* cur_run; const Setup* cur_setup; bool cur_check; double cur_max;

bool close(double a, double b) { double d = std::fabs(a - b), m = std::max(std::fabs(a), std::fabs(b)); return d <= 1e-9 * m || a == b; }

void check_generation(const GenRec& g, const Setup& s, const Run& r, const IParameters* best) {
  size_t n = r.gens.size(); // generations before this one
  if (g.n != n) sim_violation("generation-number", "report %zu says it is generation %zu", n, g.n);
  if ((int)g.n >= s.gens) sim_violation("too-many-generations", "generation %zu of at most %d", g.n, s.gens);
  double fb = s.f.pure(values(best));
  if (g.best != fb) sim_violation("best-mismatch", "generation %zu: reported best fitness %.17g but the reported best parameters have %.17g", g.n, g.best, fb);
  const IDiscreteParameters* d = dynamic_cast<const IDiscreteParameters*>(best);
  if (!d || !d->CheckConstraints()) sim_violation("best-invalid", "generation %zu: the reported best parameters violate their constraints", g.n);
  double mx = 0; for (int i = 0; i < g.e1; i++) mx = std::max(mx, R.val[i]);
  if (!R.over && g.best != mx) sim_violation("best-lost", "generation %zu: reported best %.17g, best evaluated so far %.17g", g.n, g.best, mx);
  int ev = g.e1 - g.e0;
  if (s.cache <= 0) {
    if (g.hits) sim_violation("cache-hits", "generation %zu reports %d cache hits without a cache", g.n, g.hits);
    if (!R.over && ev != s.pop) sim_violation("evaluation-count", "generation %zu: %d evaluations for %d individuals", g.n, ev, s.pop);
    double a = 0; for (int i = g.e0; i < g.e1; i++) a += R.val[i];
    if (!R.over && !close(a / s.pop, g.avg)) sim_violation("average", "generation %zu: reported average %.17g, evaluated average %.17g", g.n, g.avg, a / s.pop);
  } else {
    if (!R.over && ev + g.hits != s.pop) sim_violation("evaluation-count", "generation %zu: %d evaluations and %d cache hits for %d individuals", g.n, ev, g.hits, s.pop);
    if (s.cache > 1 && !R.over) {
      std::map<uint64_t, int> before; for (int i = 0; i < g.e0; i++) before[R.key[i]] = 1;
      for (int i = g.e0; i < g.e1; i++) if (before.count(R.key[i])) sim_violation("cached-recomputed", "generation %zu evaluates again what an earlier generation evaluated, with a cache that is not full", g.n);
    }
  }
  if (g.avg > g.best * (1 + 1e-9)) sim_violation("average", "generation %zu: average %.17g above the best %.17g", g.n, g.avg, g.best);
  if (s.pr.free_ && g.invalid) sim_violation("invalid-count", "generation %zu: %d invalid chromosomes reported although none can be invalid", g.n, g.invalid);
  if (g.invalid < 0) sim_violation("invalid-count", "generation %zu: %d invalid chromosomes", g.n, g.invalid);
  if ((int)g.stats.size() != s.pop) sim_violation("statistics-size", "generation %zu: statistics of %zu individuals, population %d", g.n, g.stats.size(), s.pop);
  long sum = 0;
  for (size_t i = 0; i < g.stats.size(); i++) {
    sum += g.stats[i].second;
    if (i && g.stats[i].second > g.stats[i - 1].second) sim_violation("statistics-order", "generation %zu: statistics not ordered by how often individuals were chosen", g.n);
    if (g.stats[i].second < 0) sim_violation("statistics", "negative count");
  }
  int pairs = s.pop / 2 - std::min(s.pop / 2, std::max(0, s.elites));
  if (n == 0) { if (sum) sim_violation("statistics", "individuals of the first generation are said to have been chosen already"); }
  else {
    if (s.mut == 0 ? sum != 2 * (pairs + (long)g.invalid) : sum > 2 * (pairs + (long)g.invalid))
      sim_violation("statistics", "generation %zu: parents were chosen %ld times to make %d pairs with %d invalid chromosomes on the way", g.n, sum, pairs, g.invalid);
    if (s.pr.free_ ? sum != 2 * pairs : (sum < 2 * pairs || sum % 2)) sim_violation("statistics", "generation %zu: parents were chosen %ld times to make %d pairs", g.n, sum, pairs);
    if (s.cache <= 0 && !R.over) {
      std::vector<double> a, b; const GenRec& q = r.gens.back();
      for (size_t i = 0; i < g.stats.size(); i++) a.push_back(g.stats[i].first);
      for (int i = q.e0; i < q.e1; i++) b.push_back(R.val[i]);
      std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
      if (a != b) sim_violation("statistics", "generation %zu: the statistics do not hold the fitness of the previous generation", g.n);
      if (s.mut == 0) { // no mutation: the best pairs survive, no gene appears from nothing
        std::vector<double> c; for (int i = g.e0; i < g.e1; i++) c.push_back(R.val[i]);
        std::sort(c.begin(), c.end());
        std::vector<double> top(b.end() - std::min<size_t>(b.size(), 2 * std::max(0, s.elites)), b.end());
        if (!std::includes(c.begin(), c.end(), top.begin(), top.end())) sim_violation("elite-lost", "generation %zu: the best pairs of the previous generation did not survive", g.n);
        if (s.pr.kind == 0) {
          uint32_t o = 0, an = ~0u, o2 = 0, an2 = ~0u;
          for (int i = q.e0; i < q.e1; i++) { o |= R.bits[i]; an &= R.bits[i]; }
          for (int i = g.e0; i < g.e1; i++) { o2 |= R.bits[i]; an2 &= R.bits[i]; }
          if ((o2 & ~o) || (an & ~an2)) sim_violation("gene-from-nothing", "generation %zu: a gene no parent had appeared without mutation", g.n);
        }
      }
    }
  }
  sim_state(H(H(n, s.pop), s.elites * 7 + s.mut));
}
void on_generation(GenerationStatistics st) {
  GenRec g;
  g.n = st.get_number_of_generation(); g.best = st.get_best_fitness(); g.avg = st.get_average_fitness();
  g.hits = st.get_cache_hits(); g.invalid = st.get_invalid_chromosomes();
  std::vector<double> v = values(st.get_best_parameters()); g.bestkey = key_of(v);
  std::list<IndividualStatistics> l = st.get_all_individuals_statistics();
  for (std::list<IndividualStatistics>::iterator i = l.begin(); i != l.end(); ++i) g.stats.push_back(std::make_pair(i->fitness, i->times_chosen_for_crossover));
  g.e0 = R.gstart; g.e1 = R.n; R.gstart = R.n;
  if (cur_check) check_generation(g, *cur_setup, *cur_run, st.get_best_parameters());
  cur_run->bestv = v;
  cur_run->gens.push_back(g);
  if (cur_setup->save == -2 || cur_setup->save == (int)g.n) st.SaveCurrentPopulationToFile(cur_setup->save_name);
  sim_probe("generations", 1);
}
// The random stream restarts here, whatever was drawn before.
void align_random(int mode, uint64_t seed) {
  k52::common::Random& r = k52::common::Random::Instance();
  sim_rand_mode(mode, seed);
  uint64_t c = sim_rand_calls();
  for (int i = 0; i < 80 && sim_rand_calls() == c; i++) r.GetRandomBool();
}
IMutator::shared_ptr make_mutator(const Setup& s) {
  switch (s.mut) {
    case 0: return IMutator::shared_ptr(new NoMutation());
    case 1: return IMutator::shared_ptr(new FlipBitMutator(s.mp1));
    default: return IMutator::shared_ptr(new LinearMutator(s.mp1, s.mp2));
  }
}
GeneticAlgorithm::shared_ptr make_ga(const Setup& s) {
  align_random(s.rmode, s.rseed);
  GeneticAlgorithm::shared_ptr ga = GeneticAlgorithm::Create(s.pop, s.elites, s.gens, make_mutator(s), s.cache, s.stop, s.file);
  if (!ga) sim_violation("not-created", "the algorithm could not be created with valid settings");
  return ga;
}
double mem_main = -1, mem_work = -1; // chances of failing allocations during the optimisation
Run optimize(GeneticAlgorithm& ga, const Setup& s, bool check) {
  Run r; r.threw = false; r.failkind = -1;
  rec_reset(); cur_run = &r; cur_setup = &s; cur_check = check; thrown_count = 0;
  ga.OnNextGenerationReadyConnect(s.cb ? &on_generation : NULL);
  boost::shared_ptr<IDiscreteParameters> p(s.pr.make());
  std::vector<double> before = values(p.get());
  sim_alloc_faults(mem_main, mem_work);
  try { ga.Optimize(s.f, p.get(), true); }
  catch (...) { sim_alloc_faults(-1, -1); r.threw = true; r.failkind = failure_kind(&r.what); }
  sim_alloc_faults(-1, -1);
  r.final = values(p.get());
  if (r.threw && r.final != before) sim_violation("changed-on-failure", "the optimisation failed but changed the caller's parameters");
  cur_run = NULL;
  return r;
}
void check_end(const Run& r, const Setup& s) {
  if (!s.cb) return;
  if (r.gens.empty()) sim_violation("no-report", "no generation was reported");
  for (size_t i = 0; i + 1 < r.gens.size(); i++)
    if (r.gens[i].best >= s.stop) sim_violation("not-stopped", "generation %zu reached the stop fitness but the run went on", i);
  if (r.gens.back().best < s.stop && (int)r.gens.size() != s.gens) sim_violation("stopped-early", "%zu of %d generations and the stop fitness was not reached", r.gens.size(), s.gens);
  if (r.final != r.bestv) sim_violation("result-mismatch", "the returned parameters are not the best ones that were reported");
  if (s.f.pure(r.final) != r.gens.back().best) sim_violation("result-mismatch", "the returned parameters do not have the reported best fitness");
}
void compare(const Run& a, const Run& b, const char* what, bool hits) {
  if (a.threw != b.threw) sim_violation("outcome-differs", "%s: one run failed (%s), the other did not", what, (a.threw ? a.what : b.what).c_str());
  if (a.gens.size() != b.gens.size()) sim_violation("outcome-differs", "%s: %zu against %zu generations", what, a.gens.size(), b.gens.size());
  for (size_t i = 0; i < a.gens.size(); i++) {
    const GenRec &x = a.gens[i], &y = b.gens[i];
    if (x.best != y.best || x.avg != y.avg || x.invalid != y.invalid || x.bestkey != y.bestkey || x.stats != y.stats || x.n != y.n || (hits && x.hits != y.hits))
      sim_violation("outcome-differs", "%s: generation %zu differs (best %.17g / %.17g, average %.17g / %.17g, invalid %d / %d)", what, i, x.best, y.best, x.avg, y.avg, x.invalid, y.invalid);
  }
  if (a.final != b.final) sim_violation("outcome-differs", "%s: the returned parameters differ", what);
}
Setup draw_setup(bool need_free, bool bits_only) {
  Setup s;
  s.pr = draw_problem(need_free, bits_only); s.f = draw_func();
  s.pop = 2 * (1 + (int)sim_draw(8)); s.elites = (int)sim_draw(s.pop / 2 + 2); if (sim_chance(5)) s.elites = -1;
  s.gens = 1 + (int)sim_draw(8);
  if (sim_chance(4)) { s.pop += 2 * (int)sim_draw(100); s.elites = (int)sim_draw(s.pop / 2 + 2); }
  if (sim_chance(4)) s.gens += (int)sim_draw(s.pop > 60 ? 8 : s.pop <= 8 && sim_chance(40) ? 400 : 60);
  s.mut = (int)sim_draw(3);
  static const double fp[] = {0.3, 0.05, 0.5 - 1e-9, 0.001, 1e-6};
  s.mp1 = fp[sim_draw(5)]; s.mp2 = fp[sim_draw(5)];
  if (s.mut == 2 && sim_chance(20)) s.mp1 = 1; if (s.mut == 2 && sim_chance(20)) s.mp2 = 0;
  if (s.mut == 1 && s.mp1 > 0.4) s.mp1 = 0.25;
  s.cache = 0; s.stop = 1e300; if (sim_chance(30)) s.stop = (double)sim_draw(150);
  s.rmode = RAND_UNIFORM; s.rseed = sim_draw(1u << 30); s.cb = true; s.save = -1; s.saved_gen = -1;
  s.save_name = "population.txt";
  return s;
}
void many_cpus() { static const double sp[] = {0, 0, 3, 20}; sim_set_cpus(2 + (int)sim_draw(6)); sim_spurious_wakeups(sp[sim_draw(4)]); }
} // namespace

// ---- C10: the outcome is a function of the random stream alone ---------------
extern "C" void scenario_ga_determinism() {
  Setup s = draw_setup(false, false);
  s.cb = !sim_chance(10);
  int use_cache_a = (int)sim_draw(2), use_cache_b = (int)sim_draw(2);
  sim_set_cpus(1);
  double small = sim_chance(40) ? 0.0002 * (1 + sim_draw(20)) : 100; // the smallest hold a few entries
  s.cache = use_cache_a ? 100 : 0;
  Run a = optimize(*make_ga(s), s, false);
  if (a.threw) sim_violation("failed", "the optimisation failed without a cause: %s", a.what.c_str());
  many_cpus();
  s.cache = use_cache_b ? small : 0;
  s.f.slow = (int)sim_draw(3);
  if (s.cb && sim_chance(20)) { sim_disk_enable(1); s.save = -2; }
  bool reuse = s.mut != 1 && sim_chance(50);
  GeneticAlgorithm::shared_ptr ga;
  if (reuse) { // the object has optimised something else before
    Setup o = s; o.f = draw_func(); o.f.slow = s.f.slow;
    if (sim_chance(50)) o.pr = draw_problem(false, false);
    if (sim_chance(30)) { o.f.fail_mod = 2 + sim_draw(20); o.f.fail_kind = (int)sim_draw(3); }
    ga = make_ga(o);
    optimize(*ga, o, false);
    align_random(s.rmode, s.rseed);
    sim_probe("object_reused", 1);
  } else ga = make_ga(s);
  Run b = optimize(*ga, s, false);
  if (b.threw) sim_violation("failed", "the optimisation failed without a cause: %s", b.what.c_str());
  compare(a, b, reuse ? "same random stream, reused object, other schedule" : "same random stream, other schedule", use_cache_a == use_cache_b && (!use_cache_b || small == 100));
  if (use_cache_a != use_cache_b) sim_probe("cache_against_none", 1);
  ga.reset();
  if (sim_live_threads() != 1) sim_violation("threads-left", "%d worker threads remain", sim_live_threads() - 1);
  for (size_t i = 0; i < b.gens.size(); i++) sim_hash(b.gens[i].bestkey);
}
// ---- C11: what is reported is what happened -----------------------------------
extern "C" void scenario_ga_reports() {
  Setup s = draw_setup(false, false);
  if (sim_chance(30)) s.cache = sim_chance(70) ? 100 : 0.0005 * (1 + sim_draw(8)); // the smallest hold about ten entries
  if (sim_chance(60)) many_cpus(); else sim_set_cpus(1);
  s.f.slow = (int)sim_draw(3);
  GeneticAlgorithm::shared_ptr ga = make_ga(s);
  int rounds = 1 + (int)sim_draw(2);
  std::vector<boost::shared_ptr<IDiscreteParameters> > keep;
  for (int k = 0; k < rounds; k++) {
    if (k) { s.f.salt = sim_draw(1 << 20); s.f.kind = (int)sim_draw(8); }
    bool initial = s.pr.kind == 3 && sim_chance(40);
    if (initial) { // a given first population, on the grid of representable values or not
      std::vector<IDiscreteParameters::shared_ptr> in;
      for (int i = 0; i < s.pop; i++) {
        DoubleParametersArray* d = new DoubleParametersArray(s.pr.dlo, s.pr.dhi, s.pr.dprec, s.pr.nparam);
        IDiscreteParameters::shared_ptr own(d);
        std::vector<double> v;
        for (int j = 0; j < s.pr.nparam; j++) v.push_back(draw_double(s.pr.dlo, s.pr.dhi));
        d->SetValues(v); in.push_back(own);
      }
      ga->SetInitialParameters(in);
      sim_probe("given_first_population", 1);
    }
    Run r = optimize(*ga, s, true);
    if (r.threw) {
      sim_violation("failed", "the optimisation failed without a cause: %s", r.what.c_str());
    }
    check_end(r, s);
    if (r.gens.back().best >= s.stop) sim_probe("stopped_by_fitness", 1);
    if (k) sim_probe("second_optimisation", 1);
  }
}
// ---- C12: any random stream ------------------------------------------------------
extern "C" void scenario_ga_any_stream() {
  Setup s = draw_setup(true, false);
  s.rmode = (int)sim_draw(RAND_MODES);
  if (sim_chance(50)) many_cpus(); else sim_set_cpus(1);
  Run r = optimize(*make_ga(s), s, true);
  if (r.threw) sim_violation("failed", "the optimisation failed under random stream kind %d: %s", s.rmode, r.what.c_str());
  check_end(r, s);
  sim_probe(s.rmode == RAND_UNIFORM ? "uniform_streams" : "extreme_streams", 1);
}
// ---- C13: population files ----------------------------------------------------------
namespace {
std::vector<uint64_t> population(int e0, int e1) { std::vector<uint64_t> v(R.key + e0, R.key + e1); std::sort(v.begin(), v.end()); return v; }
}
extern "C" void scenario_ga_population_file() {
  Setup s = draw_setup(false, true);
  s.stop = 1e300; s.f.kind = (int)sim_draw(3);
  sim_disk_enable(1);
  if (sim_chance(40)) many_cpus(); else sim_set_cpus(1);
  bool every = sim_chance(30);
  s.save = every ? -2 : (int)sim_draw(s.gens);
  if (sim_chance(20)) { static const char old[] = "Population_size: \n4\nsomething old and longer than the new contents, perhaps\n"; for (int i = 0; i < 1; i++) sim_disk_put("population.txt", old, sizeof old - 1); }
  int damage = (int)sim_draw(7); // 0,1: none
  sim_faults_enable(1);
  static const double fp[] = {5, 30, 100};
  double pc = fp[sim_draw(3)];
  if (damage == 2) sim_disk_faults(0, pc, pc, pc, 0, 0);
  if (damage == 3) sim_disk_crash_at(1 + (int)sim_draw(every ? s.gens : 1), sim_draw(600));
  if (damage == 4) sim_disk_capacity((int64_t)sim_draw(700));
  if (damage == 0 && sim_chance(50)) sim_disk_faults(0, 0, pc, 0, 0, pc); // short transfers are legal and must not matter
  Run a = optimize(*make_ga(s), s, false);
  if (a.threw) sim_violation("failed", "the optimisation failed because its population could not be saved: %s", a.what.c_str());
  int g = every ? s.gens - 1 : s.save;
  std::vector<std::vector<uint64_t> > pops;
  for (size_t i = 0; i < a.gens.size(); i++) if (every || (int)i == g) pops.push_back(population(a.gens[i].e0, a.gens[i].e1));
  std::vector<uint64_t> saved = population(a.gens[g].e0, a.gens[g].e1);
  std::vector<double> fit(R.val + a.gens[g].e0, R.val + a.gens[g].e1);
  std::sort(fit.begin(), fit.end());
  bool intact = damage < 2 || (damage < 5 && !sim_disk_faults_fired());
  if (sim_disk_open_fds()) sim_violation("file-left-open", "%d files are still open after the population was saved", sim_disk_open_fds());
  sim_disk_faults(0, 0, 0, 0, 0, 0);
  sim_disk_capacity(-1); sim_disk_crash_at(-1, 0);
  if (damage == 5) { // the file lost its end
    static char buf[65536]; size_t n = sim_disk_read("population.txt", buf, sizeof buf);
    size_t keep = (size_t)sim_draw(n + 1);
    if (sim_chance(50) && n > 40) keep = n - 40 + sim_draw(41);
    sim_disk_put("population.txt", buf, keep); intact = keep == n;
    sim_probe("files_cut", keep != n);
  }
  bool missing = !sim_disk_exists("population.txt");
  { static char buf[65536]; size_t n = missing ? 0 : sim_disk_read("population.txt", buf, sizeof buf - 1); buf[n] = 0;
    for (char* l = strtok(buf, "\n"); l; l = strtok(NULL, "\n")) sim_log("file: %s", l); }
  if (every && !intact) sim_probe("overwritten_files_damaged", 1);
  // another algorithm starts from the file
  Setup t = s; t.file = "population.txt"; t.save = -1; t.rseed = sim_draw(1 << 30); t.gens = 1 + (int)sim_draw(3); t.f.quiet = false;
  bool mismatch = false;
  if (sim_chance(10)) { t.pop += 2; mismatch = true; }
  else if (sim_chance(10)) { t.pr.bits[0] += 1; mismatch = true; }
  else if (sim_chance(5)) { t.file = "no such file.txt"; mismatch = true; }
  bool readfault = damage == 6;
  if (readfault) sim_disk_faults(20, 0, 0, 0, pc, 30);
  uint64_t f0 = sim_disk_faults_fired();
  if (sim_chance(30)) sim_set_cpus(1 + (int)sim_draw(4));
  Run b = optimize(*make_ga(t), t, false);
  bool fired = readfault && sim_disk_faults_fired() > f0;
  if (b.threw) {
    if (intact && !mismatch && !fired && !missing) sim_violation("not-loaded", "an intact population file was refused: %s", b.what.c_str());
    if (R.n) sim_violation("evaluated-partial", "loading the population failed but %d individuals were evaluated", R.n);
    sim_probe("loads_refused", 1);
  } else {
    if (mismatch || missing) sim_violation("wrong-file-accepted", "a population file that does not fit the settings, or no file, was accepted");
    std::vector<uint64_t> loaded = population(b.gens[0].e0, b.gens[0].e1);
    if (loaded != saved && intact && !fired) sim_violation("not-the-saved", "the run did not start from the saved population");
    // what loads must be a population that was saved at some time
    if (std::find(pops.begin(), pops.end(), loaded) == pops.end()) sim_violation("damaged-accepted", "a damaged population file was accepted and the run started from individuals that were never saved together");
    if (loaded != saved) sim_probe("older_population_loaded", 1);
    if (intact && !fired) {
      std::vector<double> st; for (size_t i = 0; i < b.gens[0].stats.size(); i++) st.push_back(b.gens[0].stats[i].first);
      std::sort(st.begin(), st.end());
      for (size_t i = 0; i < st.size(); i++) if (std::fabs(st[i] - fit[i]) > 1e-4 * std::fabs(fit[i])) sim_violation("fitness-not-saved", "an individual was loaded with fitness %.9g instead of %.9g", st[i], fit[i]);
    }
    sim_probe("loads_accepted", 1);
  }
  if (sim_disk_open_fds()) sim_violation("file-left-open", "%d files are still open after loading", sim_disk_open_fds());
}

// ---- C14: a failing disk never changes what is optimised ------------------------------
namespace {
struct CFunc : ContinuousObjectiveFunction {
  CFunc() : kind(0), c(0), slow(0), fail_mod(0), fail_kind(0), salt(0) {}
  CFunc(const CFunc& o) : ContinuousObjectiveFunction() { *this = o; }
  CFunc& operator=(const CFunc& o) { kind = o.kind; c = o.c; slow = o.slow; fail_mod = o.fail_mod; fail_kind = o.fail_kind; salt = o.salt; return *this; }
  int kind; double c; int slow; uint64_t fail_mod; int fail_kind; uint64_t salt;
  double operator()(const std::vector<double>& v) const {
    if (slow) { uint64_t h = key_of(v); if (h % 3 == 0) sim_yield(); if (slow > 1 && h % 7 == 1) sim_sleep_ns(1000 * (h % 500)); }
    if (fail_mod && H(salt, key_of(v)) % fail_mod == 0) {
      record_throw();
      fail_with(fail_kind, "objective");
    }
    double s = 0;
    for (size_t i = 0; i < v.size(); i++) switch (kind) {
      case 0: s += (v[i] - c) * (v[i] - c) * (double)(i + 1); break;
      case 1: s += std::fabs(v[i] - c); break;
      default: s += std::sin(v[i] * 3) + 0.1 * v[i] * v[i];
    }
    return s;
  }
  CFunc* Clone() const { return new CFunc(*this); }
};
void bad_disk() {
  sim_disk_enable(1); sim_faults_enable(1);
  static const double fp[] = {5, 40, 100};
  double p = fp[sim_draw(3)];
  switch (sim_draw(5)) {
    case 0: sim_disk_faults(p, 0, 0, 0, 0, 0); break;
    case 1: sim_disk_faults(0, p, 0, 0, 0, 0); break;
    case 2: sim_disk_faults(p / 2, p, 30, p, 0, 0); break;
    case 3: sim_disk_capacity((int64_t)sim_draw(900)); break;
    default: sim_disk_crash_at(1 + (int)sim_draw(6), sim_draw(200)); sim_disk_faults(5, 5, 30, 5, 0, 0);
  }
}
void good_disk() { sim_disk_faults(0, 0, 0, 0, 0, 0); sim_disk_capacity(-1); sim_disk_crash_at(-1, 0); }
// outcome of one continuous optimisation
struct Out { std::vector<double> v; bool threw; int kind; std::string what; };
template <class O> Out run_continuous(O& o, const CFunc& f, const std::vector<double>& start, bool maximize) {
  Out r; r.threw = false; r.kind = -1;
  ContinuousParametersArray p(start);
  sim_alloc_faults(mem_main, mem_work);
  try { o.Optimize(f, &p, maximize); }
  catch (...) { sim_alloc_faults(-1, -1); r.threw = true; r.kind = failure_kind(&r.what); }
  sim_alloc_faults(-1, -1);
  r.v = p.GetValues();
  return r;
}
}
extern "C" void scenario_disk_indifferent() {
  bool ga = sim_chance(50);
  sim_disk_enable(1);
  if (ga) {
    Setup s = draw_setup(false, false);
    s.save = sim_chance(60) ? -2 : (int)sim_draw(s.gens);
    sim_set_cpus(1 + (int)sim_draw(3));
    Run a = optimize(*make_ga(s), s, false);
    if (a.threw) sim_violation("failed", "the optimisation failed without a cause: %s", a.what.c_str());
    sim_disk_reset(); bad_disk();
    if (sim_chance(20)) s.save_name = "no/such/directory/population.txt";
    Run b = optimize(*make_ga(s), s, true);
    if (b.threw) sim_violation("disk-failure-spread", "the optimisation failed because its population could not be saved: %s", b.what.c_str());
    compare(a, b, "working disk against failing disk", true);
    check_end(b, s);
  } else {
    CFunc f; f.kind = (int)sim_draw(3); f.c = draw_double(-2, 2);
    std::vector<double> start; int n = 1 + (int)sim_draw(3);
    for (int i = 0; i < n; i++) start.push_back(draw_double(-3, 3));
    double l = draw_double(0.1, 2), prec = sim_chance(50) ? 0.1 : 0.5;
    bool search = sim_chance(50), maximize = f.kind == 2 && sim_chance(30); int points = 1 + (int)sim_draw(5);
    uint64_t seed = sim_draw(1 << 30);
    sim_set_cpus(1 + (int)sim_draw(3));
    Out o[2];
    for (int k = 0; k < 2; k++) {
      if (k) { sim_disk_reset(); bad_disk(); if (search) sim_set_cpus(1 + (int)sim_draw(4)); f.slow = (int)sim_draw(3); }
      BoundedNelderMead bnm(l, prec, -4, 4);
      if (search) { align_random(RAND_UNIFORM, seed); RandomSearch rs(points, -3, 3, &bnm); o[k] = run_continuous(rs, f, start, maximize); }
      else o[k] = run_continuous(bnm, f, start, maximize);
    }
    if (o[0].threw) sim_violation("failed", "the optimisation failed without a cause");
    if (o[1].threw) sim_violation("disk-failure-spread", "the optimisation failed because the disk did");
    if (o[0].v.size() != o[1].v.size()) sim_violation("outcome-differs", "result size");
    for (size_t i = 0; i < o[0].v.size(); i++) if (memcmp(&o[0].v[i], &o[1].v[i], 8)) sim_violation("outcome-differs", "coordinate %zu is %.17g with a working disk and %.17g with a failing one", i, o[0].v[i], o[1].v[i]);
    sim_probe(search ? "searches_on_failing_disk" : "simplex_on_failing_disk", 1);
  }
  if (sim_disk_open_fds()) sim_violation("file-left-open", "%d files are still open after the optimisation", sim_disk_open_fds());
  sim_probe("disk_faults_survived", sim_disk_faults_fired());
  good_disk();
}
// ---- C24: memory runs out during an optimisation ----------------------------------------
extern "C" void scenario_optimization_memory() {
  if (sim_chance(60)) many_cpus(); else sim_set_cpus(1);
  sim_disk_enable(1);
  static const double pm[] = {0, 0.01, 0.1, 1}, pw[] = {0, 0.1, 1, 10};
  double m = pm[sim_draw(4)], w = pw[sim_draw(4)];
  if (sim_chance(50)) {
    Setup s = draw_setup(false, false);
    if (s.mut == 1) s.mut = 2; // the flip-bit mutator goes on where it was
    if (sim_chance(30)) s.cache = 100;
    s.f.slow = (int)sim_draw(3);
    Run want = optimize(*make_ga(s), s, false);
    GeneticAlgorithm::shared_ptr ga = make_ga(s);
    mem_main = m; mem_work = w;
    Run r = optimize(*ga, s, false);
    mem_main = mem_work = -1;
    int n = R.n;
    if (r.threw && !sim_alloc_failures()) sim_violation("failed", "the optimisation failed although there was memory: %s", r.what.c_str());
    if (r.threw && !lack_of_memory(r.failkind)) sim_violation("failure-changed", "memory ran out, the caller saw '%s' (kind %d)", r.what.c_str(), r.failkind);
    if (!r.threw) compare(want, r, "an optimisation that managed with little memory", true);
    sim_probe(r.threw ? "optimisations_out_of_memory" : sim_alloc_failures() ? "optimisations_that_managed" : "optimisations_with_memory", 1);
    sim_sleep_ns(20000000);
    if (R.n != n) sim_violation("evaluated-after-return", "the objective function was evaluated after the failed optimisation had returned");
    align_random(s.rmode, s.rseed);
    Run a = optimize(*ga, s, true);
    if (a.threw) sim_violation("failed", "after running out of memory the same object no longer works: %s", a.what.c_str());
    check_end(a, s);
    compare(a, want, "an object that ran out of memory before against a new one", false);
    sim_state(H(H(s.pop, s.gens), r.threw));
  } else {
    CFunc f; f.kind = (int)sim_draw(2); f.c = draw_double(-2, 2); f.slow = (int)sim_draw(3); f.salt = sim_draw(1 << 20);
    std::vector<double> start; int n = 1 + (int)sim_draw(2);
    for (int i = 0; i < n; i++) start.push_back(draw_double(-3, 3));
    int points = 1 + (int)sim_draw(8); bool inner = sim_chance(50);
    uint64_t seed = sim_draw(1 << 30);
    BoundedNelderMead bnm(1, 0.2, -4, 4);
    align_random(RAND_UNIFORM, seed);
    RandomSearch one(points, -3, 3, inner ? &bnm : NULL);
    Out want = run_continuous(one, f, start, false);
    if (want.threw) sim_violation("failed", "a search failed without a cause");
    align_random(RAND_UNIFORM, seed);
    RandomSearch rs(points, -3, 3, inner ? &bnm : NULL);
    mem_main = m; mem_work = w;
    Out r = run_continuous(rs, f, start, false);
    mem_main = mem_work = -1;
    if (r.threw && !sim_alloc_failures()) sim_violation("failed", "the search failed although there was memory: %s", r.what.c_str());
    if (r.threw && !lack_of_memory(r.kind)) sim_violation("failure-changed", "memory ran out, the caller saw '%s' (kind %d)", r.what.c_str(), r.kind);
    if (r.threw && r.v != start) sim_violation("changed-on-failure", "the search failed but changed the caller's parameters");
    if (!r.threw && r.v != want.v) sim_violation("outcome-differs", "a search that managed with little memory gave another result");
    sim_probe(r.threw ? "searches_out_of_memory" : sim_alloc_failures() ? "searches_that_managed" : "searches_with_memory", 1);
    align_random(RAND_UNIFORM, seed);
    Out a = run_continuous(rs, f, start, false);
    if (a.threw || a.v != want.v) sim_violation("outcome-differs", "a search object that ran out of memory before gives another result than a new one");
    sim_state(H(H(points, n), r.threw + 2 * inner));
  }
}
// ---- C21: an objective function that fails -----------------------------------------------
extern "C" void scenario_objective_fails() {
  if (sim_chance(50)) many_cpus(); else sim_set_cpus(1);
  sim_disk_enable(1);
  int what = (int)sim_draw(3);
  uint64_t mods[] = {1, 2, 10, 50, 200};
  uint64_t mod = mods[sim_draw(5)]; int kind = (int)sim_draw(kFailKinds);
  if (what == 0) {
    Setup s = draw_setup(false, false);
    if (sim_chance(30)) s.cache = 100;
    s.f.slow = (int)sim_draw(3);
    Setup good = s;
    s.f.fail_mod = mod; s.f.fail_kind = kind;
    GeneticAlgorithm::shared_ptr ga = make_ga(s);
    Run r = optimize(*ga, s, false);
    if (r.threw != (thrown_count > 0)) sim_violation(r.threw ? "failed" : "failure-lost", "%d evaluations failed and the optimisation %s", thrown_count, r.threw ? "failed" : "succeeded");
    if (r.threw && transportable(kind) && r.failkind != kind) sim_violation("failure-changed", "the objective function failed with kind %d, the caller saw kind %d", kind, r.failkind);
    if (r.threw) sim_probe("failed_optimisations", 1); else sim_probe("lucky_optimisations", 1);
    if (s.mut != 1) { // the object is as good as new
      align_random(s.rmode, s.rseed);
      Run a = optimize(*ga, good, true);
      if (a.threw) sim_violation("failed", "after a failure the same object no longer works: %s", a.what.c_str());
      check_end(a, good);
      Run b = optimize(*make_ga(good), good, false);
      compare(a, b, "object that failed before against a new one", false);
    }
  } else {
    CFunc f; f.kind = (int)sim_draw(2); f.c = draw_double(-2, 2); f.slow = (int)sim_draw(3); f.salt = sim_draw(1 << 20);
    std::vector<double> start; int n = 1 + (int)sim_draw(2);
    for (int i = 0; i < n; i++) start.push_back(draw_double(-3, 3));
    int points = 1 + (int)sim_draw(8);
    uint64_t seed = sim_draw(1 << 30);
    BoundedNelderMead bnm(1, 0.2, -4, 4);
    align_random(RAND_UNIFORM, seed);
    RandomSearch rs(points, -3, 3, what == 1 ? NULL : &bnm);
    CFunc g = f; g.fail_mod = mod; g.fail_kind = kind;
    thrown_count = 0;
    Out r = run_continuous(rs, g, start, false);
    if (r.threw != (thrown_count > 0)) sim_violation(r.threw ? "failed" : "failure-lost", "%d evaluations failed and the search %s", thrown_count, r.threw ? "failed" : "succeeded");
    if (r.threw && transportable(kind) && r.kind != kind) sim_violation("failure-changed", "the objective function failed with kind %d, the caller saw kind %d", kind, r.kind);
    if (r.threw && r.v != start) sim_violation("changed-on-failure", "the search failed but changed the caller's parameters");
    if (r.threw) sim_probe("failed_searches", 1); else sim_probe("lucky_searches", 1);
    align_random(RAND_UNIFORM, seed + 1);
    Out a = run_continuous(rs, f, start, false);
    align_random(RAND_UNIFORM, seed + 1);
    RandomSearch fresh(points, -3, 3, what == 1 ? NULL : &bnm);
    Out b = run_continuous(fresh, f, start, false);
    if (a.threw || b.threw) sim_violation("failed", "a search failed without a cause");
    if (a.v != b.v) sim_violation("outcome-differs", "a search object that failed before gives another result than a new one");
  }
}

// ---- C25: requests that must be refused, mixed with good ones, on one object ------------------
namespace {
typedef std::vector<IDiscreteParameters::shared_ptr> First;
First first_population(const Setup& s, int n, const std::vector<uint64_t>& seeds, int wrong) {
  First in;
  for (int i = 0; i < n; i++) {
    Problem p = s.pr;
    if (wrong == 1 && i == (int)(seeds[0] % n)) p.nparam++;                 // other number
    if (wrong == 2 && i == (int)(seeds[0] % n))                              // other bounds or precision
      switch (seeds[0] / 7 % 5) { case 0: p.dhi += 1; break; case 1: p.dlo -= 1; break; case 2: p.dlo += 1; p.dhi += 1; break; case 3: { double w = p.dhi - p.dlo; p.dlo -= w; p.dhi += w; break; } default: p.dprec *= p.dprec < (p.dhi - p.dlo) * 1e-7 ? 8 : 0.125; }
    if (wrong == 3 && i == (int)(seeds[0] % n)) { in.push_back(IDiscreteParameters::shared_ptr(new IntParameter(0, 7))); continue; }
    DoubleParametersArray* d = new DoubleParametersArray(p.dlo, p.dhi, p.dprec, p.nparam);
    IDiscreteParameters::shared_ptr own(d);
    std::vector<double> v;
    for (int j = 0; j < p.nparam; j++) v.push_back(p.dlo + (p.dhi - p.dlo) * (double)(H(seeds[i % seeds.size()], i * 64 + j) % 1001) / 1000);
    d->SetValues(v); in.push_back(own);
  }
  return in;
}
}
extern "C" void scenario_ga_refusals() {
  Setup s = draw_setup(false, false);
  s.pr.kind = 3; s.pr.free_ = true;
  if (s.mut == 1) s.mut = 2;
  if (s.pop > 60) s.pop = 10;
  if (sim_chance(30)) s.cache = 100;
  if (sim_chance(40)) many_cpus(); else sim_set_cpus(1);
  sim_disk_enable(1);
  bool file = sim_chance(50);
  std::string good, other_size, other_genes;
  if (file) { // populations saved by other optimisations
    Setup q = s; q.save = 0; q.gens = 1; q.stop = 1e300;
    static char buf[1 << 18];
    for (int k = 0; k < 3; k++) {
      Setup t = q;
      if (k == 1) t.pop += 2;
      if (k == 2) t.pr.nparam++;
      Run r = optimize(*make_ga(t), t, false);
      if (r.threw) sim_violation("failed", "the optimisation failed without a cause: %s", r.what.c_str());
      (k == 0 ? good : k == 1 ? other_size : other_genes).assign(buf, sim_disk_read("population.txt", buf, sizeof buf));
    }
    sim_disk_unlink("population.txt");
    s.file = "population.txt"; s.save = -1;
  }
  GeneticAlgorithm::shared_ptr ga = make_ga(s);
  bool set = false, set_ok = true, file_ok = !file; int set_n = 0, set_wrong = 0; std::vector<uint64_t> set_seeds;
  int steps = 2 + (int)sim_draw(5);
  for (int k = 0; k < steps; k++) {
    if (sim_chance(50)) { // another first population
      int wrong = sim_chance(50) ? 0 : 1 + (int)sim_draw(4), n = s.pop;
      if (wrong == 4) { n = sim_chance(60) ? (int)sim_draw(s.pop) : s.pop + 1 + (int)sim_draw(3); }
      std::vector<uint64_t> seeds(1 + sim_draw(3)); for (size_t i = 0; i < seeds.size(); i++) seeds[i] = sim_draw(1 << 20);
      First in = first_population(s, n, seeds, wrong);
      bool taken = true, lack = sim_chance(20);
      if (lack) { static const double p[] = {0.5, 5, 30}; double pr = p[sim_draw(3)]; sim_alloc_faults(pr, pr); }
      uint64_t f0 = sim_alloc_failures();
      std::string what; int kind = -1;
      try { ga->SetInitialParameters(in); } catch (...) { sim_alloc_faults(-1, -1); taken = false; kind = failure_kind(&what); }
      sim_alloc_faults(-1, -1);
      if (!taken && !wrong && sim_alloc_failures() == f0) sim_violation("refused", "a good first population was refused: %s", what.c_str());
      if (!taken) sim_probe(kind == 1 ? "populations_out_of_memory" : "populations_refused_at_once", 1);
      if (taken) { set = true; set_ok = !wrong; set_n = n; set_wrong = wrong; set_seeds = seeds; }
      else if (wrong && kind != 1) { } // refused at once: what was set before stays
      if (wrong) for (size_t i = 0; i < in.size(); i++) in[i].reset(); // the caller's objects are not needed any more
    }
    if (file && sim_chance(60)) {
      int c = (int)sim_draw(5); const std::string& t = c < 2 ? good : c == 2 ? other_size : other_genes;
      if (c == 4) sim_disk_unlink("population.txt"); else sim_disk_put("population.txt", t.data(), t.size());
      file_ok = c < 2;
    }
    bool minimise = sim_chance(10);
    bool expect = !minimise && (!set || set_ok) && file_ok;
    s.f.salt = sim_draw(1 << 20); s.f.kind = (int)sim_draw(8);
    align_random(s.rmode, s.rseed);
    if (minimise) {
      boost::shared_ptr<IDiscreteParameters> p(s.pr.make()); std::vector<double> before = values(p.get());
      rec_reset();
      bool refused = false; try { ga->Optimize(s.f, p.get(), false); } catch (const std::exception&) { refused = true; }
      if (!refused) sim_violation("not-refused", "a genetic algorithm accepted to minimise");
      if (values(p.get()) != before || R.n) sim_violation("changed-on-failure", "a refused optimisation changed the parameters or evaluated something");
      sim_probe("refused_directions", 1);
      continue;
    }
    Run r = optimize(*ga, s, expect && !file);
    if (!expect) {
      if (!r.threw) sim_violation("not-refused", set && !set_ok ? "a first population of %d individuals for %d (fault %d) was accepted" : "a population file that does not fit was accepted (%d, %d, %d)", set_n, s.pop, set_wrong);
      if (R.n || !r.gens.empty()) sim_violation("evaluated-before-refusal", "%d evaluations and %zu reports before the optimisation was refused", R.n, r.gens.size());
      if (r.failkind == 19 || r.failkind == 12 || r.failkind == 1) sim_violation("wrong-refusal", "the refusal is an accident: %s", r.what.c_str());
      sim_probe(set && !set_ok ? "refused_first_populations" : "refused_files", 1);
    } else {
      if (r.threw) sim_violation("failed", "the optimisation failed without a cause: %s", r.what.c_str());
      if (!file) check_end(r, s); // the file has the fitness of another function
      Setup q = s; GeneticAlgorithm::shared_ptr fresh = make_ga(q);
      if (set) fresh->SetInitialParameters(first_population(s, s.pop, set_seeds, 0));
      align_random(s.rmode, s.rseed);
      Run w = optimize(*fresh, q, false);
      compare(r, w, "an object with refused requests in its past against a new one", true);
      sim_probe("good_optimisations", 1);
    }
    if (sim_disk_open_fds()) sim_violation("file-left-open", "%d files are still open", sim_disk_open_fds());
  }
  ga.reset();
  sim_state(H(H(steps, set), set_ok + 2 * file_ok));
}
