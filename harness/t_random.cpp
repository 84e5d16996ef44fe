// Random quantities under every raw stream: C19.
#include "common_util.h"
#include <stdexcept>
#include <algorithm>
#include <limits>
#include <k52/common/random.h>
#include <k52/optimization/linear_mutator.h>
#include <k52/optimization/flip_bit_mutator.h>

using k52::common::Random;
using namespace k52::optimization;

namespace {
void align(int mode, uint64_t seed, int complement) {
  Random& r = Random::Instance();
  sim_rand_mode(mode, seed);
  sim_rand_complement(complement);
  uint64_t c = sim_rand_calls();
  for (int i = 0; i < 80 && sim_rand_calls() == c; i++) r.GetRandomBool();
}
const char* mode_name(int m) {
  static const char* n[] = {"uniform", "extremes", "lowest", "highest", "alternating", "low bits", "small", "large", "mixed", "ramp"};
  return n[m];
}
}
extern "C" void scenario_random_quantities() {
  Random& r = Random::Instance();
  int mode = (int)sim_draw(RAND_MODES); uint64_t seed = sim_draw(1u << 30);
  // 1. documented ranges
  align(mode, seed, (int)sim_draw(2));
  int ops = 50 + (int)sim_draw(200);
  for (int k = 0; k < ops; k++) {
    switch (sim_draw(7)) {
      case 0: { double b = r.GetBaseRandomQuantity(); if (!(b >= 0 && b <= 1)) sim_violation("base-range", "a base quantity is %.17g (%s stream)", b, mode_name(mode)); break; }
      case 1: case 2: {
        static const double los[] = {0, -1, 0.1, -0.3, -1e6, 1e-3, 123.456, -7.7, 1e300, -1e300};
        static const double wd[] = {0, 1, 0.7, 1e-9, 3.3, 1e6, 0.1, 1e-300};
        double lo = los[sim_draw(10)], hi = lo + wd[sim_draw(8)];
        if (sim_chance(40)) { lo = ((int)sim_draw(20001) - 10000) / 1000.0; hi = ((int)sim_draw(20001) - 10000) / 1000.0; if (hi < lo) std::swap(lo, hi); }
        if (sim_chance(50)) {
          double v = r.GetContinuousRandomQuantity(lo, hi);
          if (!(v >= lo && v <= hi)) sim_violation("continuous-range", "a quantity from [%.17g, %.17g] is %.17g (%s stream)", lo, hi, v, mode_name(mode));
        } else {
          size_t n = (size_t)sim_draw(6);
          std::vector<double> v = r.GenerateRandomVector(n, lo, hi);
          if (v.size() != n) sim_violation("vector-size", "a random vector of %zu has %zu elements", n, v.size());
          for (size_t i = 0; i < n; i++) if (!(v[i] >= lo && v[i] <= hi)) sim_violation("continuous-range", "a quantity from [%.17g, %.17g] is %.17g (%s stream)", lo, hi, v[i], mode_name(mode));
        }
        break;
      }
      case 3: case 4: {
        static const int los[] = {0, 1, -1, -100, 7, -2147483647 - 1, 0, 2147483000};
        static const int wd[] = {0, 1, 2, 6, 99, 2147483646, 0x40000000, 647};
        int i = (int)sim_draw(8), j = (int)sim_draw(8);
        int lo = los[i], hi = (long long)lo + wd[j] > 2147483647ll ? 2147483647 : lo + wd[j];
        if ((long long)hi - lo + 1 > 2147483647ll) hi--; // intervals as long as the generator's
        int v = r.GetUniformlyDistributedDiscreteRandomQuantity(lo, hi);
        if (v < lo || v > hi) sim_violation("discrete-range", "a quantity from [%d, %d] is %d (%s stream)", lo, hi, v, mode_name(mode));
        break;
      }
      case 5: {
        if (r.CheckEventOutcome(0)) sim_violation("impossible-event", "an event of probability 0 happened (%s stream)", mode_name(mode));
        if (!r.CheckEventOutcome(1)) sim_violation("certain-event", "an event of probability 1 did not happen (%s stream)", mode_name(mode));
        break;
      }
      default: {
        static const double bad[] = {-1e-12, 1.0000001, -5, 2, -1e300, std::numeric_limits<double>::infinity()};
        bool thrown = false;
        try { r.CheckEventOutcome(bad[sim_draw(6)]); } catch (const std::invalid_argument&) { thrown = true; }
        if (!thrown) sim_violation("probability-accepted", "a probability outside [0, 1] was accepted");
      }
    }
    sim_hash(sim_rand_calls());
  }
  sim_probe("quantities", ops);
  // 2. the same stream gives the same quantities
  std::vector<double> one, two;
  for (int pass = 0; pass < 2; pass++) {
    align(mode, seed, 0);
    std::vector<double>& v = pass ? two : one;
    for (int k = 0; k < 40; k++) switch (k % 5) {
      case 0: v.push_back(r.GetBaseRandomQuantity()); break;
      case 1: v.push_back(r.GetRandomBool()); break;
      case 2: v.push_back(r.GetUniformlyDistributedDiscreteRandomQuantity(-3, 9)); break;
      case 3: v.push_back(r.CheckEventOutcome(0.3)); break;
      default: v.push_back(r.GetContinuousRandomQuantity(-2, 5));
    }
  }
  if (one != two) sim_violation("not-repeatable", "the same raw stream gave different quantities");
  // 3. fairness: mirroring the raw stream mirrors every boolean
  int nb = 40 + (int)sim_draw(200);
  std::vector<int> a, b;
  align(mode, seed, 0); for (int k = 0; k < nb; k++) a.push_back(r.GetRandomBool());
  align(mode, seed, 1); for (int k = 0; k < nb; k++) b.push_back(r.GetRandomBool());
  for (int k = 0; k < nb; k++) if (a[k] == b[k]) sim_violation("bool-bias", "random boolean %d is %s whatever the raw values are (%s stream)", k, a[k] ? "true" : "false", mode_name(mode));
  // 4. frequencies under a uniform stream, bounds of seven deviations
  align(RAND_UNIFORM, seed, 0);
  {
    const int N = 1000; double p = (double)(1 + sim_draw(9)) / 10; int hit = 0, t = 0, same = 0, prev = -1; double sum = 0;
    int lo = (int)sim_draw(5) - 2, w = 1 + (int)sim_draw(6); std::vector<int> cnt(w + 1);
    for (int k = 0; k < N; k++) {
      hit += r.CheckEventOutcome(p); sum += r.GetContinuousRandomQuantity(3, 5);
      int bo = r.GetRandomBool(); t += bo; same += bo == prev; prev = bo;
      cnt[r.GetUniformlyDistributedDiscreteRandomQuantity(lo, lo + w) - lo]++;
    }
    if (std::fabs((double)hit / N - p) > 7 * 0.5 / std::sqrt((double)N)) sim_violation("frequency", "an event of probability %g happened %d times of %d", p, hit, N);
    if (std::fabs(sum / N - 4) > 7 * 0.58 / std::sqrt((double)N)) sim_violation("frequency", "quantities from [3, 5] have the average %g", sum / N);
    if (std::fabs((double)t / N - 0.5) > 7 * 0.5 / std::sqrt((double)N)) sim_violation("frequency", "%d of %d random booleans are true", t, N);
    if (std::fabs((double)same / N - 0.5) > 7 * 0.5 / std::sqrt((double)N)) sim_violation("frequency", "%d of %d random booleans equal the one before", same, N);
    for (int i = 0; i <= w; i++) {
      double q = 1.0 / (w + 1);
      if (std::fabs((double)cnt[i] / N - q) > 7 * std::sqrt(q * (1 - q) / N) + 0.001) sim_violation("frequency", "%d came %d times of %d among %d equally likely values", lo + i, cnt[i], N, w + 1);
    }
  }
  { // wide integer ranges and reals in eighths, neighbours independent
    const int N = 1600; static const long long ws[] = {1000, 65535, 99999, 0x10000000ll, 0x5fffffffll, 0x7ffffffell, 255, 12345678};
    long long w = ws[sim_draw(8)], lo = sim_chance(50) ? 0 : -w / 2; int c[8] = {0}, d[8] = {0}; double cor = 0, prev = 0, icor = 0, iprev = 0; int eq = 0, rep = 0;
    for (int k = 0; k < N; k++) {
      long long v = r.GetUniformlyDistributedDiscreteRandomQuantity((int)lo, (int)(lo + w)) - lo;
      c[(v * 8) / (w + 1)]++; double u = (double)v / (double)w * 2 - 1; icor += u * iprev; rep += u == iprev; iprev = u;
      std::vector<double> x = r.GenerateRandomVector(2, -1, 1);
      for (int i = 0; i < 2; i++) { d[std::min(7, (int)((x[i] + 1) * 4))]++; cor += x[i] * prev; eq += x[i] == prev; prev = x[i]; }
    }
    for (int i = 0; i < 8; i++) {
      double sd = std::sqrt(0.125 * 0.875 / N);
      if (std::fabs((double)c[i] / N - 0.125) > 7 * sd + 1.0 / (double)w) sim_violation("frequency", "%d of %d integers from [%lld, %lld] lie in eighth %d", c[i], N, lo, lo + w, i + 1);
      if (std::fabs((double)d[i] / (2 * N) - 0.125) > 7 * sd) sim_violation("frequency", "%d of %d reals lie in eighth %d of their range", d[i], 2 * N, i + 1);
    }
    if (std::fabs(cor) / (2 * N) > 7 * 0.34 / std::sqrt(2.0 * N) || eq > 20) sim_violation("dependence", "a random real depends on the one before (correlation %g, %d equal of %d)", cor / (2 * N) * 3, eq, 2 * N);
    if (std::fabs(icor) / N > 7 * 0.34 / std::sqrt((double)N) || rep > 20 + 3 * N / w) sim_violation("dependence", "a random integer depends on the one before (correlation %g, %d equal of %d)", icor / N * 3, rep, N);
  }
  // 5. linear mutation: from the start to the end probability, generation by generation
  {
    static const double pr[] = {0, 1, 0.5, 0.25, 0.8, 0.05};
    double p0 = pr[sim_draw(6)], p1 = pr[sim_draw(6)]; int gens = 2 + (int)sim_draw(9); if (sim_chance(20)) gens += (int)sim_draw(2000); int g = (int)sim_draw(gens);
    if (sim_chance(40)) g = sim_chance(50) ? 0 : gens - 1;
    double p = p0 + (p1 - p0) * g / (gens - 1);
    LinearMutator m(p0, p1);
    MutationContext c; c.current_generation = g; c.max_number_of_generations = gens;
    bool extreme = sim_chance(40);
    align(extreme ? mode : (int)RAND_UNIFORM, seed, 0);
    m.ApplyNewMutationContext(c);
    const int N = 600; ChromosomeType ch(N);
    for (int i = 0; i < N; i++) ch[i] = i % 3 == 0;
    m.MutateChromosome(&ch);
    if ((int)ch.size() != N) sim_violation("mutation", "mutation changed the length of a chromosome");
    int fl = 0; for (int i = 0; i < N; i++) fl += ch[i] != (i % 3 == 0);
    if (p == 0 && fl) sim_violation("mutation", "%d genes mutated with probability 0", fl);
    if (p == 1 && fl != N) sim_violation("mutation", "%d of %d genes mutated with probability 1", fl, N);
    if (!extreme && std::fabs((double)fl / N - p) > 7 * 0.5 / std::sqrt((double)N)) sim_violation("mutation", "%d of %d genes mutated with probability %g (generation %d of %d, from %g to %g)", fl, N, p, g, gens, p0, p1);
  }
  // 6. flip-bit mutation: gaps between flips, also over several chromosomes
  {
    static const double pr[] = {0.5, 0.25, 0.125, 0.2, 0.1, 0.03, 0.015625};
    double p = pr[sim_draw(7)]; int top = (int)std::floor(1 / p) - 1;
    bool extreme = sim_chance(40);
    align(extreme ? mode : (int)RAND_UNIFORM, seed, 0);
    FlipBitMutator m(p);
    std::vector<int> gaps; int run = 0, len = 1 + (int)sim_draw(50), total = 4000;
    for (int k = 0; k < total; k += len) {
      MutationContext c; c.current_generation = k % 7; c.max_number_of_generations = 7;
      m.ApplyNewMutationContext(c);
      ChromosomeType ch(len); for (int i = 0; i < len; i++) ch[i] = i % 3 == 0;
      m.MutateChromosome(&ch);
      if ((int)ch.size() != len) sim_violation("mutation", "mutation changed the length of a chromosome");
      for (int i = 0; i < len; i++) {
        if (ch[i] != (i % 3 == 0)) { gaps.push_back(run); run = 0; } else run++;
        if (run > top) sim_violation("flip-gap", "%d genes in a row without a flip with probability %g", run, p);
      }
    }
    if (!extreme) {
      std::vector<int> cnt(top + 1); for (size_t i = 0; i < gaps.size(); i++) cnt[gaps[i]]++;
      double N = (double)gaps.size(), q = 1.0 / (top + 1);
      for (int i = 0; i <= top; i++) if (std::fabs(cnt[i] / N - q) > 7 * std::sqrt(q * (1 - q) / N) + 6 / N) sim_violation("flip-gap", "a gap of %d genes came %d times of %g with probability %g", i, cnt[i], N, p);
    }
    sim_probe("flip_gaps", gaps.size());
  }
  sim_state(H(mode, nb));
}
