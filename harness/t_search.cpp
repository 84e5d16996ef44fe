// Random search, simulated annealing and local optimisers: C15, C16, C22.
#include "common_util.h"
#include <stdexcept>
#include <algorithm>
#include <boost/thread.hpp>
#include <boost/bind.hpp>
#include <k52/common/random.h>
#include <k52/optimization/random_search.h>
#include <k52/optimization/simulated_annealing.h>
#include <k52/optimization/bounded_nelder_mead.h>
#include <k52/optimization/hooke_jeeves_method.h>
#include <k52/optimization/hleborodov_rosenbrock_method.h>
#include <k52/optimization/steepest_descent_method.h>
#include <k52/optimization/conjugate_gradient_method.h>
#include <k52/optimization/params/continuous_parameters_array.h>

using namespace k52::optimization;
using k52::common::Random;
typedef std::vector<double> Vec;

namespace {
enum { MAXP = 4096, MAXD = 12 };
struct Points { int n, over; int dim[MAXP]; double x[MAXP][MAXD]; double f[MAXP]; } PT, ST; // evaluated points; starting points of the inner optimiser
int busy_runs;
#define NT __attribute__((no_sanitize("thread"), noinline))
NT void note(Points& p, const double* x, int d, double f) {
  if (p.n >= MAXP || d > MAXD) { p.over = 1; return; }
  int i = p.n++; p.dim[i] = d; p.f[i] = f; for (int k = 0; k < d; k++) p.x[i][k] = x[k];
}
NT void reset(Points& p) { p.n = p.over = 0; }
Vec at(const Points& p, int i) { return Vec(p.x[i], p.x[i] + p.dim[i]); }
uint64_t key_of(const Vec& v) { uint64_t h = 7; for (size_t i = 0; i < v.size(); i++) h = HD(h, v[i]); return h; }
bool same(const Vec& a, const Vec& b) { return a.size() == b.size() && (a.empty() || !memcmp(&a[0], &b[0], 8 * a.size())); }
void align_random(int mode, uint64_t seed) {
  Random& r = Random::Instance();
  sim_rand_mode(mode, seed);
  uint64_t c = sim_rand_calls();
  for (int i = 0; i < 80 && sim_rand_calls() == c; i++) r.GetRandomBool();
}

struct F : ContinuousObjectiveFunction {
  F() : kind(0), salt(0), slow(0), rec(true), fail_after(-1) { for (int i = 0; i < MAXD; i++) { c[i] = 0; w[i] = 1; } }
  F(const F& o) : ContinuousObjectiveFunction() { *this = o; }
  F& operator=(const F& o) { kind = o.kind; salt = o.salt; slow = o.slow; rec = o.rec; fail_after = o.fail_after; memcpy(c, o.c, sizeof c); memcpy(w, o.w, sizeof w); return *this; }
  int kind; uint64_t salt; int slow; bool rec; mutable int fail_after; double c[MAXD], w[MAXD];
  double pure(const Vec& v) const {
    uint64_t h = H(salt, key_of(v)); double s = 0;
    switch (kind) {
      case 0: for (size_t i = 0; i < v.size(); i++) s += w[i % MAXD] * (v[i] - c[i % MAXD]) * (v[i] - c[i % MAXD]); return s - 3;
      case 1: return (double)(h % 100000) / 7.0 - 5000;
      case 2: return (double)(h % 3) - 1;
      case 3: return 1.5;
      case 4: for (size_t i = 0; i < v.size(); i++) s += std::floor(v[i]); return s;
      case 5: return ((double)(h % 2001) - 1000) * 1e304;
      case 7: return h % 4 == 0 ? HUGE_VAL : h % 4 == 1 ? -HUGE_VAL : (double)(h % 100); // a pole, a penalty
      case 8: return salt % 2 ? HUGE_VAL : -HUGE_VAL;
      default: for (size_t i = 0; i < v.size(); i++) s += std::sin(3 * v[i]) + 0.1 * v[i]; return s;
    }
  }
  double operator()(const Vec& v) const {
    if (slow) { uint64_t h = key_of(v); if (h % 3 == 0) sim_yield(); if (slow > 1 && h % 5 == 1) sim_sleep_ns(1000 * (h % 3000)); }
    if (fail_after >= 0 && fail_after-- == 0) fail_with((int)(salt % kFailKinds), "objective");
    double f = pure(v);
    if (rec) note(PT, v.empty() ? NULL : &v[0], (int)v.size(), f);
    return f;
  }
  F* Clone() const { return new F(*this); }
};
F draw_f() { F f; f.kind = (int)sim_draw(7); f.salt = sim_draw(1 << 20); for (int i = 0; i < MAXD; i++) { f.c[i] = draw_double(-2, 2); f.w[i] = draw_double(1, 4); } return f; }

// An inner optimiser of the user's own: goes to a neighbouring grid point.
struct Snap : ContinuousOptimizer {
  Snap() : running(0), worse(false) {}
  mutable int running; bool worse;
  Snap* Clone() const { Snap* s = new Snap(); s->worse = worse; return s; }
  std::string get_name() const { return "snap"; }
  static Vec snap(const Vec& v) { Vec r(v); for (size_t i = 0; i < r.size(); i++) r[i] = std::floor(r[i] * 4 + 0.5) / 4; return r; }
  Vec FindOptimalParameters(const Vec& x) {
    if (running) sim_violation("optimizer-shared", "one optimiser object runs two optimisations at the same time");
    running = 1;
    note(ST, x.empty() ? NULL : &x[0], (int)x.size(), 0);
    Vec a = snap(x);
    double fa = CountObjectiveFunctionValueToMinimize(a), fx = CountObjectiveFunctionValueToMinimize(x);
    sim_yield();
    running = 0;
    return worse || fa <= fx ? a : x;
  }
};
ContinuousOptimizer* make_local(int k, uint64_t p) {
  switch (k) {
    case 0: return new BoundedNelderMead(0.5 + (p % 4) * 0.5, 1e-4, -10, 10);
    case 1: return new HookeJeevesMethod(1.5 + (p % 3) * 0.5, 0.5 + (p % 2), 200, 1e-3, 5);
    case 2: return new HleborodovRosenbrockMethod(1e-4, 300, 0.5 + (p % 3) * 0.5, 2);
    case 3: return new SteepestDescentMethod(1e-4, 40, 1e-4);
    default: return new ConjugateGradientMethod(1e-4, 1e-2, 50);
  }
}
const char* local_name(int k) { static const char* n[] = {"bounded simplex", "Hooke-Jeeves", "Rosenbrock", "steepest descent", "conjugate gradient"}; return n[k]; }
struct Out { Vec v; bool threw; std::string what; };
Out run(ContinuousOptimizer& o, const F& f, const Vec& start, bool maximize) {
  Out r; r.threw = false;
  ContinuousParametersArray p(start);
  try { o.Optimize(f, &p, maximize); } catch (...) { r.threw = true; failure_kind(&r.what); }
  r.v = p.GetValues();
  return r;
}
Vec draw_start(int n) { Vec s; for (int i = 0; i < n; i++) s.push_back(draw_double(-3, 3)); return s; }
void many_cpus() { static const double sp[] = {0, 0, 3, 20}; sim_set_cpus(2 + (int)sim_draw(6)); sim_spurious_wakeups(sp[sim_draw(4)]); }
}

// ---- C15 -------------------------------------------------------------------------
extern "C" void scenario_random_search() {
  sim_disk_enable(1);
  int inner = (int)sim_draw(5); // 0,1: none 2: snap 3: bounded simplex 4: Hooke-Jeeves
  F f = draw_f();
  if (inner >= 3) f.kind = sim_chance(70) ? 0 : 6; else if (sim_chance(12)) f.kind = 7 + (int)sim_draw(2);
  f.slow = (int)sim_draw(3);
  int n = sim_chance(8) ? 0 : 1 + (int)sim_draw(inner >= 3 ? 5 : 24); if (n && inner < 3 && sim_chance(2)) n += (int)sim_draw(400);
  double lo = draw_double(-3, 2), hi = lo + draw_double(0, 4);
  if (sim_chance(30)) { lo = ((int)sim_draw(40) - 20) / 10.0; hi = lo + (double)sim_draw(30) / 10.0; }
  int mode = sim_chance(50) ? RAND_UNIFORM : (int)sim_draw(RAND_MODES); uint64_t seed = sim_draw(1u << 30);
  if (sim_chance(50)) many_cpus(); else sim_set_cpus(1);
  Snap snap; snap.worse = sim_chance(30);
  boost::shared_ptr<ContinuousOptimizer> local;
  if (inner >= 3) local.reset(make_local(inner - 3, sim_draw(8)));
  const ContinuousOptimizer* io = inner < 2 ? NULL : inner == 2 ? (const ContinuousOptimizer*)&snap : local.get();
  Random::Instance();
  RandomSearch rs((size_t)n, lo, hi, io);
  int rounds = 1 + (int)sim_draw(2);
  for (int k = 0; k < rounds; k++) {
    int dim = 1 + (int)sim_draw(inner >= 3 ? 2 : 4); if (inner < 3 && sim_chance(4)) dim += (int)sim_draw(8);
    bool maximize = inner >= 3 && f.kind == 0 ? false : sim_chance(50);
    Vec start = draw_start(dim);
    if (k) { f.salt = sim_draw(1 << 20); seed++; }
    // the points that this random stream means
    std::vector<Vec> drawn;
    align_random(mode, seed);
    for (int i = 0; i < n; i++) drawn.push_back(Random::Instance().GenerateRandomVector(dim, lo, hi));
    align_random(mode, seed);
    reset(PT); reset(ST);
    Out r = run(rs, f, start, maximize);
    if (n == 0) {
      if (!r.threw) sim_violation("no-points", "a search without points returned something");
      if (!same(r.v, start)) sim_violation("changed-on-failure", "a search without points changed the caller's parameters");
      sim_probe("searches_without_points", 1);
      continue;
    }
    if (r.threw) sim_violation("failed", "the search failed without a cause: %s", r.what.c_str());
    // points used: those drawn, each once
    std::vector<Vec> used;
    if (!io) for (int i = 0; i < PT.n; i++) used.push_back(at(PT, i));
    else if (inner == 2) for (int i = 0; i < ST.n; i++) used.push_back(at(ST, i));
    else used = drawn;
    for (size_t i = 0; i < used.size(); i++) {
      if ((int)used[i].size() != dim) sim_violation("dimension", "a point has %zu coordinates instead of %d", used[i].size(), dim);
      for (int d = 0; d < dim; d++) if (!(used[i][d] >= lo && used[i][d] <= hi)) sim_violation("out-of-bounds", "a point has coordinate %.17g outside [%.17g, %.17g]", used[i][d], lo, hi);
    }
    if ((int)used.size() != n) sim_violation("point-count", "%zu points were used by a search over %d", used.size(), n);
    std::vector<Vec> a(used), b(drawn); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    if (a != b) sim_violation("not-the-drawn", "the points used are not the points drawn");
    // candidates
    std::vector<Vec> cand;
    F q = f; q.rec = false; q.slow = 0;
    for (int i = 0; i < n; i++) {
      if (!io) cand.push_back(drawn[i]);
      else if (inner == 2) {
        Vec s = Snap::snap(drawn[i]); double fs = q.pure(s), fx = q.pure(drawn[i]);
        cand.push_back(snap.worse || (maximize ? fs >= fx : fs <= fx) ? s : drawn[i]);
      } else {
        boost::shared_ptr<ContinuousOptimizer> o(io->Clone());
        Out c = run(*o, q, drawn[i], maximize); // alone, in this thread
        if (c.threw) sim_violation("failed", "a local optimisation failed without a cause: %s", c.what.c_str());
        cand.push_back(c.v);
      }
    }
    double best = q.pure(cand[0]);
    for (int i = 1; i < n; i++) { double v = q.pure(cand[i]); if (maximize ? v > best : v < best) best = v; }
    bool found = false; for (int i = 0; i < n; i++) if (same(cand[i], r.v)) found = true;
    if (!found) sim_violation("not-a-candidate", "the search returned a point that none of its %d points led to", n);
    if (q.pure(r.v) != best) sim_violation("not-the-best", "the search %s returned a point of value %.17g, the best has %.17g", maximize ? "for a maximum" : "for a minimum", q.pure(r.v), best);
    if (!io && !PT.over && PT.n != n) sim_violation("evaluation-count", "%d evaluations for %d points", PT.n, n);
    // the same stream on another machine gives the same point
    if (sim_chance(50)) {
      sim_set_cpus(1 + (int)sim_draw(5));
      RandomSearch other((size_t)n, lo, hi, io);
      align_random(mode, seed);
      Out o = run(other, q, start, maximize);
      if (o.threw || !same(o.v, r.v)) sim_violation("outcome-differs", "the same random stream on another number of processors gives another point");
      sim_probe("compared_machines", 1);
    }
    sim_probe(io ? "searches_with_optimizer" : "plain_searches", 1);
    sim_state(H(H(n, dim), inner)); sim_hash(key_of(r.v));
  }
}

// ---- C16 -------------------------------------------------------------------------
// Reference model. order: bit 0 draw the value before the index, bit 1 no draw
// is spent on a better neighbour.
namespace {
Vec anneal(const F& f, const Vec& start, size_t n, double lo, double hi, bool maximize, int order, int* accepted, int* worse) {
  Random& r = Random::Instance();
  Vec cur = start; double s = maximize ? -1 : 1;
  for (size_t i = 1; i <= n; i++) {
    int ix = 0; double v = 0;
    if (order & 1) { v = r.GetContinuousRandomQuantity(lo, hi); ix = r.GetUniformlyDistributedDiscreteRandomQuantity(0, (int)cur.size() - 1); }
    else { ix = r.GetUniformlyDistributedDiscreteRandomQuantity(0, (int)cur.size() - 1); v = r.GetContinuousRandomQuantity(lo, hi); }
    Vec nb = cur; nb[ix] = v;
    double a = s * f.pure(cur), b = s * f.pure(nb), t = (double)(n - i) / (double)n;
    double p = b < a ? 1 : std::exp((a - b) / t);
    bool yes = (order & 2) && b < a ? true : r.CheckEventOutcome(p);
    if (yes) { if (b > a) ++*worse; ++*accepted; cur = nb; }
  }
  return cur;
}
}
extern "C" void scenario_annealing() {
  F f = draw_f(); if (f.kind == 5) f.kind = 1;
  int dim = 1 + (int)sim_draw(4); if (sim_chance(4)) dim += (int)sim_draw(8); Vec start = draw_start(dim);
  double lo = draw_double(-3, 2), hi = lo + draw_double(0, 4);
  if (sim_chance(30)) { lo = ((int)sim_draw(40) - 20) / 10.0; hi = lo + (double)sim_draw(30) / 10.0; }
  static const size_t its[] = {1, 2, 5, 20, 60};
  size_t n = its[sim_draw(5)] + (size_t)sim_draw(20); if (sim_chance(5)) n = 0;
  bool maximize = sim_chance(50);
  int mode = sim_chance(50) ? RAND_UNIFORM : (int)sim_draw(RAND_MODES); uint64_t seed = sim_draw(1u << 30);
  SimulatedAnnealing sa(n, lo, hi);
  int rounds = 1 + (int)sim_draw(3);
  for (int round = 0; round < rounds; round++, seed++) {
    if (sim_chance(25)) { // a function that fails on the way
      F g = f; g.rec = false; g.fail_after = (int)sim_draw(2 * n + 3);
      Out r = run(sa, g, start, maximize);
      if (r.threw != (g.fail_after < 0)) sim_violation(r.threw ? "failed" : "failure-lost", "an evaluation %s and annealing %s", g.fail_after < 0 ? "failed" : "never failed", r.threw ? "failed" : "succeeded");
      if (r.threw) sim_probe("failed_annealings", 1);
    }
    align_random(mode, seed);
    reset(PT);
    Out r = run(sa, f, start, maximize);
    if (r.threw) sim_violation("failed", "the optimisation failed under a %d random stream: %s", mode, r.what.c_str());
    if ((int)r.v.size() != dim) sim_violation("dimension", "the result has %zu coordinates instead of %d", r.v.size(), dim);
    for (int d = 0; d < dim; d++) if (r.v[d] != start[d] && !(r.v[d] >= lo && r.v[d] <= hi)) sim_violation("out-of-bounds", "a coordinate left its bounds: %.17g outside [%.17g, %.17g]", r.v[d], lo, hi);
    int moves = 0; 
    for (int i = 0; i < PT.n; i++) {
      Vec e = at(PT, i); 
      for (int d = 0; d < dim; d++) if (e[d] != start[d] && !(e[d] >= lo && e[d] <= hi)) sim_violation("out-of-bounds", "an evaluated coordinate left its bounds: %.17g outside [%.17g, %.17g]", e[d], lo, hi);
      if (i) { Vec p = at(PT, i - 1); int diff = 0; for (int d = 0; d < dim; d++) diff += e[d] != p[d]; if (diff > 2) sim_violation("not-a-neighbour", "consecutive evaluated points differ in %d coordinates", diff); moves += diff > 0; }
    }
    bool found = n == 0 && same(r.v, start);
    for (int i = 0; i < PT.n && !found; i++) found = same(at(PT, i), r.v);
    if (!found) sim_violation("not-evaluated", "the returned point was never evaluated");
    int acc = 0, worse = 0; bool ok = false;
    for (int order = 0; order < 4 && !ok; order++) {
      align_random(mode, seed);
      acc = worse = 0;
      ok = same(anneal(f, start, n, lo, hi, maximize, order, &acc, &worse), r.v);
    }
    if (!ok) sim_violation("not-annealing", "the result is not that of the annealing rule on this random stream (%zu iterations, %s)", n, maximize ? "maximum" : "minimum");
    sim_probe("moves_accepted", acc); sim_probe("worse_moves_accepted", worse); sim_probe("neighbours_tried", moves);
    sim_state(H(H(n, dim), mode)); sim_hash(key_of(r.v));
  }
}

// ---- C22: local optimisers are independent of each other and of their past -----------
namespace {
struct Job { int kind; uint64_t par; F f; Vec start; bool maximize; Out expect; int reuse; bool clone_used; uint64_t seed; };
bool same_out(const Out& a, const Out& b) { return a.threw == b.threw && (a.threw || same(a.v, b.v)); }
void job(Job* j) {
  boost::shared_ptr<ContinuousOptimizer> o(make_local(j->kind, j->par));
  if (j->reuse) { // it has optimised before: another function, other dimension, or the same; or a function that failed
    F g = j->f; Vec s = j->start;
    if (j->reuse & 2) { for (int i = 0; i < MAXD; i++) g.c[i] = -g.c[i] + 0.25; }
    if (j->reuse & 4) s.push_back(0.5);
    if (j->reuse & 8) g.fail_after = (int)(j->seed % 40);
    run(*o, g, s, j->maximize);
  }
  if (j->clone_used) o.reset(o->Clone());
  Out r = run(*o, j->f, j->start, j->maximize);
  if (!same_out(r, j->expect))
    sim_violation("outcome-differs", "%s %s gave a result other than alone in a new object (%s)", local_name(j->kind), j->reuse ? "reused after another optimisation" : "running beside others", r.threw ? r.what.c_str() : j->expect.threw ? j->expect.what.c_str() : "values differ");
}
}
extern "C" void scenario_optimizers_independent() {
  sim_disk_enable(1);
  int n = 1 + (int)sim_draw(3);
  std::vector<Job> jobs(n);
  for (int i = 0; i < n; i++) {
    Job& j = jobs[i];
    j.kind = (int)sim_draw(5); j.par = sim_draw(8);
    j.f = draw_f(); j.f.kind = 0; j.f.rec = false; j.maximize = sim_chance(30);
    if (j.maximize) for (int d = 0; d < MAXD; d++) j.f.w[d] = -j.f.w[d];
    if (i && sim_chance(40)) { Job c = jobs[0]; c.f.c[0] += 0.5; j = c; } // the same kind at the same time
    else { int dim = 1 + (int)sim_draw(3); if (sim_chance(3)) dim += (int)sim_draw(5); j.start = draw_start(dim); if (j.kind < 2 && sim_chance(25)) { j.start.assign(j.f.c, j.f.c + dim); if (sim_chance(50)) j.start[0] += 0.01; } }
    j.reuse = sim_chance(60) ? 1 + 2 * (int)sim_draw(8) : 0; j.clone_used = sim_chance(30); j.seed = sim_draw(1 << 20);
    boost::shared_ptr<ContinuousOptimizer> o(make_local(j.kind, j.par));
    j.expect = run(*o, j.f, j.start, j.maximize);
    if (j.expect.threw) sim_violation("failed", "%s failed without a cause: %s", local_name(j.kind), j.expect.what.c_str());
    // it is an optimiser: no worse than the start
    double sgn = j.maximize ? -1 : 1, f0 = sgn * j.f.pure(j.start), f1 = sgn * j.f.pure(j.expect.v);
    if (j.expect.v.size() != j.start.size()) sim_violation("dimension", "%s changed the number of parameters", local_name(j.kind));
    if (j.kind < 2 && !(f1 <= f0)) sim_violation("worse-than-start", "%s made the value worse: %.17g from %.17g", local_name(j.kind), f1, f0);
    j.f.slow = (int)sim_draw(3);
    if (j.kind != 0 && j.f.slow) j.f.slow = 1;
    sim_probe(local_name(j.kind), 1);
  }
  std::vector<boost::shared_ptr<boost::thread> > th;
  for (int i = 0; i < n; i++) th.push_back(boost::shared_ptr<boost::thread>(new boost::thread(boost::bind(&job, &jobs[i]))));
  for (int i = 0; i < n; i++) th[i]->join();
  sim_state(n);
}

// ---- C21: the objective function of a local optimisation or of annealing fails -------
extern "C" void scenario_search_failures() {
  sim_disk_enable(1);
  int k = (int)sim_draw(6); uint64_t par = sim_draw(8), seed = sim_draw(1u << 30);
  F f = draw_f(); f.rec = false; f.kind = k == 5 && sim_chance(50) ? 6 : 0;
  bool maximize = sim_chance(40);
  if (maximize) for (int d = 0; d < MAXD; d++) f.w[d] = -f.w[d];
  Vec start = draw_start(1 + (int)sim_draw(4));
  boost::shared_ptr<ContinuousOptimizer> o, fresh;
  size_t n = 1 + sim_draw(40);
  if (k == 5) { o.reset(new SimulatedAnnealing(n, -3, 3)); fresh.reset(new SimulatedAnnealing(n, -3, 3)); }
  else { o.reset(make_local(k, par)); fresh.reset(make_local(k, par)); }
  const char* name = k == 5 ? "annealing" : local_name(k);
  int rounds = 1 + (int)sim_draw(3), failures = 0;
  for (int i = 0; i < rounds; i++) {
    F g = f; static const int many[] = {1, 4, 20, 100, 1000};
    g.fail_after = (int)sim_draw(many[sim_draw(5)]);
    int kind = (int)(sim_draw(1 << 20) % kFailKinds); g.salt = f.salt / kFailKinds * kFailKinds + kind;
    if (sim_chance(30)) for (int d = 0; d < MAXD; d++) g.c[d] = -g.c[d];
    align_random(RAND_UNIFORM, seed + 1 + i);
    ContinuousParametersArray p(start);
    bool threw = false; int got = -1; std::string what;
    try { o->Optimize(g, &p, maximize); } catch (...) { threw = true; got = failure_kind(&what); }
    bool failed = g.fail_after < 0;
    if (threw != failed) sim_violation(threw ? "failed" : "failure-lost", "%s: an evaluation %s and the optimisation %s: %s", name, failed ? "failed" : "never failed", threw ? "failed" : "succeeded", what.c_str());
    if (threw && got != kind) sim_violation("failure-changed", "%s: the objective function failed with kind %d, the caller saw kind %d: %s", name, kind, got, what.c_str());
    if (threw && has_message(kind) && what != "objective") sim_violation("failure-changed", "%s: the objective function failed with '%s', the caller saw '%s'", name, "objective", what.c_str());
    if (threw && !same(p.GetValues(), start)) sim_violation("changed-on-failure", "%s failed but changed the caller's parameters", name);
    if (threw) failures++;
    sim_probe(threw ? "failed_local_optimisations" : "lucky_local_optimisations", 1);
    if (sim_disk_open_fds()) sim_violation("file-left-open", "%d files are still open", sim_disk_open_fds());
  }
  align_random(RAND_UNIFORM, seed);
  Out a = run(*o, f, start, maximize);
  align_random(RAND_UNIFORM, seed);
  Out b = run(*fresh, f, start, maximize);
  if (a.threw || b.threw) sim_violation("failed", "%s failed without a cause: %s", name, a.threw ? a.what.c_str() : b.what.c_str());
  if (!same(a.v, b.v)) sim_violation("outcome-differs", "%s gives another point with an object that failed before than with a new one", name);
  sim_state(H(H(k, start.size()), failures)); sim_hash(key_of(a.v));
}

// ---- C24: memory runs out in a local optimisation or in annealing -------------------
extern "C" void scenario_search_memory() {
  sim_disk_enable(1);
  F f = draw_f(); f.rec = false;
  int k = (int)sim_draw(6); uint64_t par = sim_draw(8), seed = sim_draw(1u << 30);
  f.kind = k == 5 && sim_chance(50) ? 6 : 0;
  Vec start = draw_start(1 + (int)sim_draw(3));
  static const double p[] = {0.02, 0.3, 3, 20};
  double pr = p[sim_draw(4)];
  boost::shared_ptr<ContinuousOptimizer> one, o;
  if (k == 5) { size_t n = 1 + sim_draw(60); one.reset(new SimulatedAnnealing(n, -3, 3)); o.reset(new SimulatedAnnealing(n, -3, 3)); }
  else { one.reset(make_local(k, par)); o.reset(make_local(k, par)); }
  const char* name = k == 5 ? "annealing" : local_name(k);
  align_random(RAND_UNIFORM, seed);
  Out want = run(*one, f, start, false);
  if (want.threw) sim_violation("failed", "%s failed without a cause: %s", name, want.what.c_str());
  int rounds = 1 + (int)sim_draw(3);
  for (int i = 0; i < rounds; i++) {
    align_random(RAND_UNIFORM, seed);
    uint64_t f0 = sim_alloc_failures();
    bool threw = false; int kind = -1; std::string what;
    ContinuousParametersArray q(start);
    sim_alloc_faults(pr, pr);
    try { o->Optimize(f, &q, false); } catch (...) { sim_alloc_faults(-1, -1); threw = true; kind = failure_kind(&what); }
    sim_alloc_faults(-1, -1);
    if (threw && sim_alloc_failures() == f0) sim_violation("failed", "%s failed although there was memory: %s", name, what.c_str());
    if (threw && !lack_of_memory(kind)) sim_violation("failure-changed", "memory ran out in %s, the caller saw '%s'", name, what.c_str());
    if (!threw && !same(q.GetValues(), want.v)) sim_violation("outcome-differs", "%s managed with little memory but gives another point", name);
    sim_probe(threw ? "local_optimisations_out_of_memory" : "local_optimisations_that_managed", 1);
  }
  if (sim_disk_open_fds()) sim_violation("file-left-open", "%d files are still open", sim_disk_open_fds());
  align_random(RAND_UNIFORM, seed);
  Out a = run(*o, f, start, false);
  if (a.threw || !same(a.v, want.v)) sim_violation("outcome-differs", "%s gives another point with an object that ran out of memory before than with a new one", name);
  sim_state(H(H(k, start.size()), rounds)); sim_hash(key_of(a.v));
}
