// Parameters and their chromosomes: C26.
#include "common_util.h"
#include <stdexcept>
#include <algorithm>
#include <set>
#include <boost/thread.hpp>
#include <boost/bind/bind.hpp>
#include <k52/optimization/params/composite_discrete_parameters.h>
#include <k52/optimization/params/continuous_parameters_array.h>
#include <k52/optimization/params/int_parameter.h>
#include <k52/optimization/params/double_parameter.h>
#include <k52/optimization/params/double_parameters_array.h>

using namespace k52::optimization;

namespace {
typedef std::vector<double> Vec;
typedef IDiscreteParameters::shared_ptr Ptr;
struct Mix { uint64_t s; explicit Mix(uint64_t x) : s(x * 2654435761u + 12345) {} uint64_t next() { s = H(s, 77); return s; } double real() { return (double)(next() % 1000001) / 1e6; } size_t below(size_t n) { return (size_t)(next() % n); } };

// what a parameter object was made from
struct Spec {
  int kind; // 0 integer 1 real 2 array of reals 3 composite of different ones 4 composite of copies of one
  int lo, hi; double dlo, dhi, prec; int n; std::vector<Spec> kids;
};
Spec draw_spec(int depth) {
  Spec s; s.kind = (int)sim_draw(depth < 2 ? 5 : 3); s.n = 0;
  static const int los[] = {0, 1, -1, -10, 1000, -2147483647 - 1}; static const long long wd[] = {0, 1, 2, 5, 15, 16, 255, 1000, 65535, 65536, 0x3fffffff, 0x7fffffff, 0x80000000ll, 0xfffffffell, 0xffffffffll};
  s.lo = los[sim_draw(6)]; long long w = wd[sim_draw(15)]; s.hi = s.lo + w > 2147483647ll ? 2147483647 : (int)(s.lo + w);
  static const double dlos[] = {0, -1, 0.1, -1e6, 1e-3, 3, 12345.678}; static const double dw[] = {1, 0.7, 1e-3, 3.3, 1000, 1e6, 0.1, 2};
  static const double pr[] = {0.3, 1, 2, 0.5, 0.125, 0.01, 0.07, 1e-3, 1e-6, 1e-9};
  s.dlo = dlos[sim_draw(7)]; s.dhi = s.dlo + dw[sim_draw(8)]; s.prec = std::max((s.dhi - s.dlo) * pr[sim_draw(10)], 1e-13 * std::max(std::fabs(s.dlo), std::fabs(s.dhi)));
  if (s.kind == 2) s.n = (int)sim_draw(6);
  if (s.kind == 3) { int k = (int)sim_draw(5); for (int i = 0; i < k; i++) s.kids.push_back(draw_spec(depth + 1)); }
  if (s.kind == 4) { s.n = (int)sim_draw(4); s.kids.push_back(draw_spec(depth + 1)); }
  return s;
}
IDiscreteParameters* make(const Spec& s) {
  switch (s.kind) {
    case 0: return new IntParameter(s.lo, s.hi);
    case 1: return new DoubleParameter(s.dlo, s.dlo, s.dhi, s.prec);
    case 2: return new DoubleParametersArray(s.dlo, s.dhi, s.prec, s.n);
    default: {
      boost::shared_ptr<CompositeDiscreteParameters> own;
      CompositeDiscreteParameters* c = new CompositeDiscreteParameters();
      try {
        if (s.kind == 3) { std::vector<Ptr> v; for (size_t i = 0; i < s.kids.size(); i++) v.push_back(Ptr(make(s.kids[i]))); c->Initialize(v); }
        else { Ptr k(make(s.kids[0])); c->Initialize(k, s.n); }
      } catch (...) { delete c; throw; }
      return c;
    }
  }
}
size_t bits_of(const Spec& s) {
  switch (s.kind) {
    case 0: { size_t b = 0; uint64_t t = (uint64_t)((long long)s.hi - s.lo); while (t) { b++; t /= 2; } return b; }
    case 1: case 2: { double m = std::ceil((s.dhi - s.dlo) / s.prec); size_t b = 1; while (std::ldexp(1, (int)b) - 1 < m) b++; return s.kind == 1 ? b : b * s.n; }
    case 3: { size_t b = 0; for (size_t i = 0; i < s.kids.size(); i++) b += bits_of(s.kids[i]); return b; }
    default: return bits_of(s.kids[0]) * s.n;
  }
}
typedef ChromosomeType Ch;
Ch encode(const IDiscreteParameters& p) { Ch c(p.GetChromosomeSize()); p.SetChromosome(c.begin(), c.end()); return c; }
void check_real(double v, const Spec& s, double prec) {
  if (!(v >= s.dlo && v <= s.dhi)) sim_violation("out-of-bounds", "a real parameter in [%.17g, %.17g] is %.17g", s.dlo, s.dhi, v);
  double k = (v - s.dlo) / prec;
  if (std::fabs(k - std::floor(k + 0.5)) > 0.02) sim_violation("off-grid", "a real parameter is %.17g, between its representable values (spacing %.17g from %.17g)", v, prec, s.dlo);
}
void check_precision(double actual, const Spec& s) {
  if (!(actual > 0 && actual <= s.prec * (1 + 1e-9)) && !(s.prec > s.dhi - s.dlo && actual <= (s.dhi - s.dlo) * (1 + 1e-9)))
    sim_violation("precision", "values are %.17g apart, %.17g was wanted", actual, s.prec);
}
// all that an object says about its value
void describe(const IDiscreteParameters* p, const Spec& s, Vec* out) {
  switch (s.kind) {
    case 0: {
      const IntParameter* q = dynamic_cast<const IntParameter*>(p);
      if (q->get_min_value() != s.lo || q->get_max_value() != s.hi) sim_violation("bounds", "an integer parameter changed its bounds");
      out->push_back(q->get_value()); break;
    }
    case 1: {
      const DoubleParameter* q = dynamic_cast<const DoubleParameter*>(p);
      if (q->get_min_value() != s.dlo || q->get_max_value() != s.dhi) sim_violation("bounds", "a real parameter changed its bounds");
      check_precision(q->get_actual_precision(), s);
      check_real(q->GetValue(), s, q->get_actual_precision());
      out->push_back(q->GetValue()); break;
    }
    case 2: {
      const DoubleParametersArray* q = dynamic_cast<const DoubleParametersArray*>(p);
      Vec v = q->get_values();
      if ((int)v.size() != s.n || (int)q->get_number_of_parameters() != s.n) sim_violation("size", "an array of %d reals has %zu", s.n, v.size());
      if (q->get_min_value() != s.dlo || q->get_max_value() != s.dhi) sim_violation("bounds", "an array changed its bounds");
      check_precision(q->get_actual_precision(), s);
      out->insert(out->end(), v.begin(), v.end()); break;
    }
    default: {
      const CompositeDiscreteParameters* q = dynamic_cast<const CompositeDiscreteParameters*>(p);
      size_t n = s.kind == 3 ? s.kids.size() : s.n;
      if (q->GetNumberOfParameters() != n) sim_violation("size", "a composite of %zu parameters has %zu", n, q->GetNumberOfParameters());
      for (size_t i = 0; i < n; i++) describe(q->GetParameter(i).get(), s.kind == 3 ? s.kids[i] : s.kids[0], out);
    }
  }
}
Vec describe(const IDiscreteParameters& p, const Spec& s) { Vec v; describe(&p, s, &v); return v; }
bool valid(const IDiscreteParameters* p, const Spec& s) { // by its parts
  switch (s.kind) {
    case 0: { int v = dynamic_cast<const IntParameter*>(p)->get_value(); return v >= s.lo && v <= s.hi; }
    case 1: return true;
    case 2: { Vec v = dynamic_cast<const DoubleParametersArray*>(p)->get_values(); for (size_t i = 0; i < v.size(); i++) if (!(v[i] >= s.dlo && v[i] <= s.dhi)) return false; return true; }
    default: { const CompositeDiscreteParameters* q = dynamic_cast<const CompositeDiscreteParameters*>(p); for (size_t i = 0; i < q->GetNumberOfParameters(); i++) if (!valid(q->GetParameter(i).get(), s.kind == 3 ? s.kids[i] : s.kids[0])) return false; return true; }
  }
}
// the chromosome of a composite is made of those of its parts in order
void parts(const IDiscreteParameters* p, Ch* out) {
  const CompositeDiscreteParameters* q = dynamic_cast<const CompositeDiscreteParameters*>(p);
  if (q) { for (size_t i = 0; i < q->GetNumberOfParameters(); i++) parts(q->GetParameter(i).get(), out); return; }
  Ch c = encode(*p); out->insert(out->end(), c.begin(), c.end());
}
template <class E, class X> void refused(const char* what, X f) {
  try { f(); } catch (const E&) { sim_probe("refusals", 1); return; }
  catch (const std::bad_alloc&) { if (sim_alloc_failures()) throw; sim_violation("wrong-refusal", "%s: out of memory", what); }
  catch (const std::exception& e) { sim_violation("wrong-refusal", "%s was refused with another kind of failure: %s", what, e.what()); }
  sim_violation("not-refused", "%s was not refused", what);
}
Ch random_ch(size_t n, Mix& m) { Ch c(n); int k = (int)m.below(6); for (size_t i = 0; i < n; i++) c[i] = k == 0 ? false : k == 1 ? true : (m.next() >> 9) & 1; return c; }

void set_and_check(IDiscreteParameters& p, const Spec& s, const Ch& c) {
  p.SetFromChromosome(c.begin(), c.end());
  if (encode(p) != c) sim_violation("round-trip", "a chromosome of %zu genes was set, another one is read back", c.size());
  Ch q; parts(&p, &q);
  if (q != c) sim_violation("parts", "the chromosome of the whole is not made of those of its parts");
  Vec v = describe(p, s);
  if (s.kind == 2) { const DoubleParametersArray& a = dynamic_cast<const DoubleParametersArray&>(p); for (size_t i = 0; i < v.size(); i++) check_real(v[i], s, a.get_actual_precision()); }
  if (p.CheckConstraints() != valid(&p, s)) sim_violation("constraints", "parameters that %s their constraints are said to %s", valid(&p, s) ? "meet" : "violate", valid(&p, s) ? "violate them" : "meet them");
  sim_probe("chromosomes", 1);
}
void one_op(Ptr& p, const Spec& s, Mix& m) {
  size_t n = p->GetChromosomeSize();
  const bool dec = true;
  switch (m.below(8)) {
    case 0: case 1: if (dec) set_and_check(*p, s, random_ch(n, m)); break;
    case 2: { // another size is refused and nothing changes
      Vec before = describe(*p, s); size_t k = m.below(2) || n == 0 ? n + 1 + m.below(3) : n - 1;
      Ch c(k, true); const Ch& cc = c;
      if (s.kind != 1) { // a single real leaves this to the integer below it
        refused<std::invalid_argument>("a chromosome of another size", [&] { p->SetFromChromosome(cc.begin(), cc.end()); });
        refused<std::invalid_argument>("a place for a chromosome of another size", [&] { p->SetChromosome(c.begin(), c.end()); });
      } else refused<std::invalid_argument>("a chromosome of another size", [&] { p->SetFromChromosome(cc.begin(), cc.end()); });
      if (describe(*p, s) != before) sim_violation("changed-on-refusal", "a refused chromosome changed the parameters");
      break;
    }
    case 3: { // a clone says the same and goes its own way
      Ptr q(p->Clone());
      Vec v = describe(*p, s);
      if (describe(*q, s) != v) sim_violation("clone", "a clone holds other values");
      if (q->GetChromosomeSize() != n) sim_violation("clone", "a clone has a chromosome of another size");
      if (s.kind < 3 && (!q->HasSameMetaParameters(p.get()) || !p->HasSameMetaParameters(q.get()))) sim_violation("clone", "a clone is said to have other bounds");
      if (s.kind < 3) { // other bounds, precision or number of values are told apart
        Spec t = s; bool room = s.kind || (s.lo > -2147483647 && s.hi < 2147483646);
        if (room) switch (m.below(s.kind == 0 ? 3 : 5)) {
          case 0: t.lo--; t.hi--; { double w = t.dhi - t.dlo; t.dlo -= w; t.dhi = t.dlo + w; } break;
          case 1: t.lo--; t.dlo -= (t.dhi - t.dlo) * 0.5; break;
          case 2: t.hi++; t.dhi += (t.dhi - t.dlo) * 0.5; break;
          case 3: t.prec *= 0.3; break;
          default: if (s.kind == 2) t.n++; else t.prec *= 0.3;
        }
        bool ok = s.kind ? t.dlo < t.dhi && (t.dlo != s.dlo || t.dhi != s.dhi || t.n != s.n || t.prec != s.prec) && (t.dhi - t.dlo) / t.prec < 1e9 : room;
        if (ok) {
          Ptr o(make(t));
          if ((o->GetChromosomeSize() != n || s.kind == 0 || t.dlo != s.dlo || t.dhi != s.dhi) && (p->HasSameMetaParameters(o.get()) || o->HasSameMetaParameters(p.get()))) sim_violation("meta", "parameters with other bounds, precision or number are said to be of the same kind");
          sim_probe("other_bounds_told_apart", 1);
        }
      }
      if (dec) {
        set_and_check(*q, s, random_ch(n, m));
        if (describe(*p, s) != v) sim_violation("clone", "setting a clone changed what it was cloned from");
        Vec w = describe(*q, s); set_and_check(*p, s, random_ch(n, m));
        if (describe(*q, s) != w) sim_violation("clone", "setting parameters changed a clone of them");
      }
      if (m.below(2)) p = q;
      sim_probe("clones", 1);
      break;
    }
    case 4: { // values
      Ch first; if (dec && m.below(2)) { first = random_ch(n, m); set_and_check(*p, s, first); }
      if (s.kind == 0) {
        IntParameter& q = dynamic_cast<IntParameter&>(*p); int v = (int)(s.lo + (long long)(m.next() % (uint64_t)((long long)s.hi - s.lo + 1)));
        if (m.below(4) == 0) v = m.below(2) ? s.lo : s.hi;
        q.set_value(v);
        if (q.get_value() != v || !q.CheckConstraints()) sim_violation("value", "an integer parameter does not keep %d", v);
        Ch c = encode(q); q.set_value(s.lo); q.SetFromChromosome(c.begin(), c.end());
        if (q.get_value() != v) sim_violation("round-trip", "%d comes back as %d from its chromosome", v, q.get_value());
      } else if (s.kind == 1) {
        DoubleParameter& q = dynamic_cast<DoubleParameter&>(*p); double v = s.dlo + (s.dhi - s.dlo) * m.real();
        if (m.below(4) == 0) v = m.below(2) ? s.dlo : s.dhi;
        if (v > s.dhi) v = s.dhi;
        q.SetValue(v); double g = q.GetValue();
        check_real(g, s, q.get_actual_precision());
        if (std::fabs(g - v) > q.get_actual_precision() * (0.5 + 1e-6) + 1e-12 * std::fabs(v)) sim_violation("value", "%.17g was set, the nearest representable is not %.17g (spacing %.17g)", v, g, q.get_actual_precision());
        if ((v == s.dlo || v == s.dhi) && g != v) sim_violation("value", "the bound %.17g became %.17g", v, g);
        Ch c = encode(q); q.SetValue(g); if (encode(q) != c || q.GetValue() != g) sim_violation("round-trip", "a value read and set again is another one");
      } else if (s.kind == 2) {
        DoubleParametersArray& q = dynamic_cast<DoubleParametersArray&>(*p); Vec v(s.n);
        for (int i = 0; i < s.n; i++) { v[i] = std::min(s.dhi, s.dlo + (s.dhi - s.dlo) * m.real()); if (m.below(6) == 0) v[i] = m.below(2) ? s.dlo : s.dhi; }
        if (m.below(2)) {
          q.SetValues(v);
          if (q.get_values() != v || !q.CheckConstraints()) sim_violation("value", "an array of reals does not keep the values it was given");
          Ch c = encode(q); q.SetFromChromosome(c.begin(), c.end()); Vec g = q.get_values();
          for (int i = 0; i < s.n; i++) if (std::fabs(g[i] - v[i]) > q.get_actual_precision() * (0.5 + 1e-6) + 1e-12 * std::fabs(v[i])) sim_violation("value", "%.17g became %.17g through its chromosome (spacing %.17g)", v[i], g[i], q.get_actual_precision());
          if (encode(q) != c) sim_violation("round-trip", "values read from a chromosome give another one");
        } else {
          Vec before = q.get_values(), bad = v; const char* what = "an array of another size";
          if (s.n && m.below(2)) { size_t i = m.below(s.n); static const double off[] = {1e-3, 0.4, 1, 10}; double d = off[m.below(4)] * q.get_actual_precision(); bad[i] = m.below(2) ? s.dhi + d : s.dlo - d; if (bad[i] >= s.dlo && bad[i] <= s.dhi) break; what = "a value outside its bounds"; }
          else bad.push_back(s.dlo);
          refused<std::invalid_argument>(what, [&] { q.SetValues(bad); });
          if (q.get_values() != before) sim_violation("changed-on-refusal", "refused values were taken over");
        }
      } else {
        CompositeDiscreteParameters& q = dynamic_cast<CompositeDiscreteParameters&>(*p); size_t k = q.GetNumberOfParameters();
        refused<std::out_of_range>("a part that is not there", [&] { q.GetParameter(k + m.below(2)); });
        if (k && dec) { // a part changed by itself is changed in the whole, and in nothing else
          size_t i = m.below(k), from = 0; Ch all = encode(q);
          for (size_t j = 0; j < i; j++) from += q.GetParameter(j)->GetChromosomeSize();
          IDiscreteParameters::shared_ptr part = q.GetParameter(i); Ch c = random_ch(part->GetChromosomeSize(), m);
          part->SetFromChromosome(c.begin(), c.end()); std::copy(c.begin(), c.end(), all.begin() + from);
          if (encode(q) != all) sim_violation("parts", "a part of a composite was changed, the chromosome of the whole is not the expected one");
          sim_probe("parts_changed", 1);
        }
      }
      if (!first.empty()) set_and_check(*p, s, first); // the same chromosome again
      break;
    }
    case 5: { // small ones completely: all chromosomes differ in value, the bounds are reached
      if (!dec || n > 7 || s.kind > 1) break;
      std::set<double> seen;
      for (size_t b = 0; b < ((size_t)1 << n); b++) { Ch c(n); for (size_t i = 0; i < n; i++) c[i] = (b >> i) & 1; set_and_check(*p, s, c); seen.insert(describe(*p, s)[0]); }
      if (seen.size() != (size_t)1 << n) sim_violation("not-distinct", "%zu chromosomes stand for %zu values", (size_t)1 << n, seen.size());
      double lo = s.kind ? s.dlo : s.lo, hi = s.kind ? s.dhi : s.hi;
      if (!seen.count(lo) || !seen.count(hi)) sim_violation("unreachable", "no chromosome stands for the bound %.17g", seen.count(lo) ? hi : lo);
      if (s.kind == 0) for (int v = s.lo; v < s.hi; v++) if (!seen.count(v)) sim_violation("unreachable", "no chromosome stands for %d", v);
      sim_probe("exhausted_small_parameters", 1);
      break;
    }
    case 6: { // limits that make no sense
      double lo = s.dlo, hi = s.dhi;
      refused<std::invalid_argument>("an empty interval", [&] { DoubleParameter(lo, lo, lo, 0.1); });
      refused<std::invalid_argument>("a turned interval", [&] { DoubleParametersArray(hi, lo, 0.1, 2); });
      refused<std::invalid_argument>("a value outside", [&] { DoubleParameter(hi + 1, lo, hi, 0.1); });
      if (s.kind == 0 && s.lo < s.hi) refused<std::invalid_argument>("a turned interval of integers", [&] { IntParameter(s.hi, s.lo); });
      refused<std::invalid_argument>("an interval without integers", [&] { IntParameter(4, 5, 4); });
      refused<std::invalid_argument>("a negative precision", [&] { DoubleParameter(lo, lo, hi, -0.1); });
      break;
    }
    default: { // arrays of plain reals
      size_t k = m.below(5); Vec v(k); for (size_t i = 0; i < k; i++) v[i] = m.real() * 1e3 - 500;
      ContinuousParametersArray a(v); boost::shared_ptr<ContinuousParametersArray> b(a.Clone());
      refused<std::invalid_argument>("an array of another size", [&] { a.SetValues(Vec(k + 1, 1.5)); });
      if (a.GetValues() != v || b->GetValues() != v) sim_violation("value", "an array of reals does not keep its values");
      a.SetValues(Vec(k, 2.5)); if (b->GetValues() != v || a.GetValues() != Vec(k, 2.5)) sim_violation("clone", "an array and its clone are not independent");
    }
  }
}
struct Job { const IDiscreteParameters* proto; const Spec* spec; uint64_t seed; int ops; bool lack; };
void job(Job* j) {
  Mix m(j->seed);
  Ptr p;
  for (int k = 0; k < j->ops; k++) {
    Vec before; bool known = false;
    try {
      if (!p || m.below(5) == 0) {
        p.reset(); p.reset(j->proto->Clone());
        sim_probe("clones_of_the_shared", 1);
        if (p->GetChromosomeSize() != bits_of(*j->spec)) sim_violation("size", "a chromosome has %zu genes, %zu are needed", p->GetChromosomeSize(), bits_of(*j->spec));
      }
      sim_yield();
      one_op(p, *j->spec, m);
    } catch (const std::bad_alloc&) {
      if (!j->lack) sim_violation("failed", "an operation on parameters failed for lack of memory although there was memory");
      sim_probe("operations_out_of_memory", 1);
    } catch (const std::exception& e) { sim_violation("failed", "an operation on parameters failed: %s", e.what()); }
    (void)before; (void)known;
  }
}
}
extern "C" void scenario_parameters() {
  int n = 1 + (int)sim_draw(4);
  Spec s = draw_spec(0);
  Ptr proto(make(s));
  Mix m(sim_draw(1u << 30));
  Ch c0 = random_ch(bits_of(s), m);
  if (proto->GetChromosomeSize() != c0.size()) sim_violation("size", "a chromosome has %zu genes, %zu are needed", proto->GetChromosomeSize(), c0.size());
  set_and_check(*proto, s, c0);
  Vec v0 = describe(*proto, s);
  std::vector<Job> jobs(n);
  bool lack = sim_chance(25);
  static const double pr[] = {0.5, 5, 20};
  for (int i = 0; i < n; i++) { Job& j = jobs[i]; j.proto = proto.get(); j.spec = &s; j.seed = sim_draw(1u << 30); j.ops = 2 + (int)sim_draw(12); j.lack = lack; }
  {
    std::vector<boost::shared_ptr<boost::thread> > th;
    for (int i = 1; i < n; i++) th.push_back(boost::shared_ptr<boost::thread>(new boost::thread(boost::bind(&job, &jobs[i]))));
    if (lack) { double q = pr[sim_draw(3)]; sim_alloc_faults(q, q); }
    job(&jobs[0]);
    for (size_t i = 0; i < th.size(); i++) th[i]->join();
    sim_alloc_faults(-1, -1);
  }
  if (describe(*proto, s) != v0) sim_violation("clone", "using clones changed what they were cloned from");
  Job last = jobs[0]; last.lack = false; job(&last); // with memory again
  if (describe(*proto, s) != v0) sim_violation("clone", "using clones changed what they were cloned from");
  sim_state(H(H(s.kind, c0.size()), n));
  for (size_t i = 0; i < v0.size(); i++) sim_hash((uint64_t)(int64_t)(v0[i] * 1000));
}
