// Signal transforms of several threads at once: C17.
#include "common_util.h"
#include <complex>
#include <deque>
#include <stdexcept>
#include <boost/thread.hpp>
#include <boost/bind/bind.hpp>
#include <k52/dsp/transform/fast_fourier_transform.h>
#include <k52/dsp/transform/fourier_transform.h>
#include <k52/dsp/transform/inverse_fourier_transform.h>
#include <k52/dsp/transform/circular_convolution.h>
#include <k52/dsp/transform/fourier_based_circular_convolution.h>
#include <k52/dsp/transform/wavelet/fast_wavelet_transform.h>
#include <k52/dsp/transform/wavelet/linear_scale.h>
#include <k52/dsp/transform/wavelet/logarithmic_scale.h>
#include <k52/dsp/morlet_wavelet_function.h>
#include <k52/dsp/mhat_wavelet_function.h>
#include <k52/dsp/haar_wavelet_function.h>
#include <k52/dsp/akima_wavelet_function.h>
#include <k52/dsp/akima_spline.h>
#include <k52/dsp/wavelet.h>
#include <k52/dsp/cwt.h>

using namespace k52::dsp;

namespace {
typedef std::complex<double> C;
typedef std::vector<C> Seq;
typedef std::vector<std::vector<double> > Table;
const double kPi = 3.14159265358979323846264338327950288;

struct Mix { uint64_t s; explicit Mix(uint64_t x) : s(x * 2654435761u + 12345) {} uint64_t next() { s = H(s, 77); return s; } double real() { return (double)(next() % 2000001) / 1e6 - 1; } size_t below(size_t n) { return (size_t)(next() % n); } };
Seq make_seq(size_t n, Mix& m) {
  Seq s(n);
  if (n > 300) { // few values, so that the definitions can still be evaluated
    for (int i = 0; i < 4; i++) s[m.below(n)] = C(m.real(), m.real());
    s[m.below(2) ? 0 : n - 1] += C(1, m.real());
    return s;
  }
  switch (m.below(5)) {
    case 0: for (size_t i = 0; i < n; i++) s[i] = C(m.real(), 0); break;
    case 1: if (n) s[m.below(n)] = C(1, 0); break;
    default: for (size_t i = 0; i < n; i++) s[i] = C(m.real(), m.real());
  }
  return s;
}
// the definition; angles reduced exactly
Seq dft(const Seq& x) {
  size_t n = x.size(); Seq r(n);
  if (n > 300) {
    for (size_t j = 0; j < n; j++) if (x[j] != C(0, 0)) for (size_t k = 0; k < n; k++) { double t = -2 * kPi * (double)((k * j) % n) / (double)n; r[k] += x[j] * C(std::cos(t), std::sin(t)); }
    return r;
  }
  for (size_t k = 0; k < n; k++) { C a = 0; for (size_t j = 0; j < n; j++) { double t = -2 * kPi * (double)((k * j) % n) / (double)n; a += x[j] * C(std::cos(t), std::sin(t)); } r[k] = a; }
  return r;
}
Seq conv(const Seq& a, const Seq& b) {
  size_t n = a.size(); Seq r(n);
  if (n > 300) {
    for (size_t j = 0; j < n; j++) if (a[j] != C(0, 0)) for (size_t i = 0; i < n; i++) r[(i + j) % n] += a[j] * b[i];
    return r;
  }
  for (size_t i = 0; i < n; i++) { C s = 0; for (size_t j = 0; j < n; j++) s += a[j] * b[(i + n - j) % n]; r[i] = s; }
  return r;
}
double dist(const Seq& a, const Seq& b) { if (a.size() != b.size()) return 1e300; double d = 0; for (size_t i = 0; i < a.size(); i++) { double e = std::abs(a[i] - b[i]); if (!(e <= d)) d = e == e ? e : 1e300; } return d; }
double norm1(const Seq& a) { double s = 1; for (size_t i = 0; i < a.size(); i++) s += std::abs(a[i]); return s; }
void near(const Seq& got, const Seq& want, double scale, const char* what) {
  double d = dist(got, want);
  if (!(d <= 1e-9 * scale)) sim_violation("wrong-value", "%s of %zu values is %.3g away from its definition (got %zu values)", what, want.size(), d, got.size());
}

IWavelet::shared_ptr make_wavelet(int kind, uint64_t salt) {
  switch (kind) {
    case 0: return IWavelet::shared_ptr(new MorletWaveletFunction());
    case 1: return IWavelet::shared_ptr(new MhatWaveletFunction());
    case 2: return IWavelet::shared_ptr(new HaarWaveletFunction());
    default: { Mix m(salt); std::vector<double> v(5 + m.below(60)), z(v.size()); for (size_t i = 0; i < v.size(); i++) v[i] = m.real(); return AkimaWavelet::CreateAkimaWavelet(v, z); }
  }
}
// independent definitions
double akima_at(const std::vector<double>& x, const std::vector<double>& y, double t) {
  int n = (int)x.size(); std::vector<double> m(n + 3); // m[i + 2]: slope of interval i
  for (int i = 0; i + 1 < n; i++) m[i + 2] = (y[i + 1] - y[i]) / (x[i + 1] - x[i]);
  m[1] = 2 * m[2] - m[3]; m[0] = 2 * m[1] - m[2]; m[n + 1] = 2 * m[n] - m[n - 1]; m[n + 2] = 2 * m[n + 1] - m[n];
  int k = 0; while (k + 2 < n && t >= x[k + 1]) k++;
  double s[2];
  for (int j = 0; j < 2; j++) {
    int i = k + j; double a = std::fabs(m[i + 3] - m[i + 2]), b = std::fabs(m[i + 1] - m[i]);
    s[j] = a + b < 1e-13 ? (m[i + 1] + m[i + 2]) / 2 : (a * m[i + 1] + b * m[i + 2]) / (a + b);
  }
  double h = x[k + 1] - x[k], u = (t - x[k]) / h; // Hermite
  return (1 + 2 * u) * (1 - u) * (1 - u) * y[k] + u * (1 - u) * (1 - u) * h * s[0] + u * u * (3 - 2 * u) * y[k + 1] - u * u * (1 - u) * h * s[1];
}
struct WaveDef {
  int kind; std::vector<double> x, y;
  WaveDef(int k, uint64_t salt) : kind(k) {
    if (k < 3) return;
    Mix m(salt); size_t n = 5 + m.below(60); y.resize(n + 2); x.resize(n + 2);
    for (size_t i = 0; i < n; i++) { y[i + 1] = m.real(); x[i + 1] = -4 + 8. * (double)i / (double)n; }
    x[0] = -4 - 8. / (double)n; x[n + 1] = 4;
  }
  bool touchy(double t) const { // next to a jump
    static const double h[] = {-0.5, -0.25, 0.25, 0.5, 0.75};
    if (kind == 2) { for (int i = 0; i < 5; i++) if (std::fabs(t - h[i]) < 1e-9) return true; return t != 0 && std::fabs(t) < 1e-9; }
    return kind == 3 && (std::fabs(t + 4) < 1e-9 || std::fabs(t - 4) < 1e-9);
  }
  C at(double t) const {
    switch (kind) {
      case 0: return std::exp(-t * t / 2) * C(std::cos(5 * t), std::sin(5 * t));
      case 1: return 2 / std::sqrt(9.) * std::pow(kPi, 0.25) * (1 - t * t / 9) * std::exp(-t * t / 18);
      case 2: return C(t == 0 || std::fabs(t) > 0.5 ? 0 : t < 0 ? -1 : 1, t == 0.25 || t < -0.25 || t > 0.75 ? 0 : t < 0.25 ? -1 : 1);
      default: return std::fabs(t) > 4 ? 0 : akima_at(x, y, t);
    }
  }
};
void check_cwt(const Table& t, const std::vector<double>& data, const WaveDef& w, int len, int minlen, int count, bool log, int step) {
  for (size_t r = 0; r < t.size(); r++) {
    if ((int)t[r].size() != count) sim_violation("wrong-size", "a row of a continuous wavelet transform has %zu values instead of %d", t[r].size(), count);
    for (int c = 0; c < count; c++) {
      double scale = log ? std::exp((double)c / count * std::log((double)len / minlen)) : (double)(c + 1) / count * (len / minlen);
      C sum = 0; bool touchy = false; double mag = 1;
      for (int j = 0; j < len && !touchy; j++) {
        double x = (j - len / 2.0) * scale * 4 / (len / 2); long k = (long)r * step + j - len / 2;
        touchy = w.touchy(x);
        if (k >= 0 && k < (long)data.size()) { C v = w.at(x); sum += v * data[k]; mag += std::abs(v); }
      }
      if (touchy) { sim_probe("values_next_to_a_jump", 1); continue; }
      if (!(std::fabs(t[r][c] - std::abs(sum)) <= 1e-8 * mag)) sim_violation("wrong-value", "value %d of row %zu of a continuous wavelet transform is %.12g, its definition gives %.12g", c, r, t[r][c], std::abs(sum));
    }
  }
}
void check_wavelet(IWavelet& w, const WaveDef& d, Mix& m) {
  for (int i = 0; i < 4; i++) {
    double t = m.below(3) ? m.real() * 5 : (double)((int)m.below(33) - 16) / 4;
    if (d.kind == 3 && d.touchy(t)) continue;
    C a = w.GetValue(t), b = d.at(t);
    if (!(std::abs(a - b) <= 1e-9)) sim_violation("wrong-value", "wavelet %d at %.12g is (%.12g, %.12g), its definition gives (%.12g, %.12g)", d.kind, t, a.real(), a.imag(), b.real(), b.imag());
  }
}
// an object that may go from thread to thread
struct Box {
  int kind; // 0 FFT, 1 FFT-based convolution, 2 fast wavelet transform
  size_t n;
  IFourierTransform::shared_ptr fft;
  ICircularConvolution::shared_ptr cc;
  boost::shared_ptr<FastWaveletTransform> fwt; bool cached, tight;
  std::vector<double> scales;
  std::vector<IWavelet::shared_ptr> used;
};
typedef boost::shared_ptr<Box> BoxPtr;
boost::shared_ptr<IScale> make_scale(Mix& m, std::vector<double>* out) {
  boost::shared_ptr<IScale> s;
  std::vector<double> want;
  if (m.below(2)) { int lo = (int)m.below(5) - 2, hi = lo + 1 + (int)m.below(3); s.reset(new LogarithmicScale(lo, hi)); for (int e = lo; e <= hi; e++) want.push_back(std::ldexp(1, e)); }
  else { double lo = 0.25 * (1 + m.below(8)), hi = lo + 0.5 * (1 + m.below(8)); size_t n = 2 + m.below(3); s.reset(new LinearScale(lo, hi, n)); for (size_t i = 0; i < n; i++) want.push_back(lo + (hi - lo) * (double)i / (double)(n - 1)); }
  *out = s->GetScales();
  if (out->size() != want.size()) sim_violation("wrong-size", "%zu scales instead of %zu", out->size(), want.size());
  for (size_t i = 0; i < want.size(); i++) if (std::fabs((*out)[i] - want[i]) > 1e-12 * want[i]) sim_violation("wrong-value", "scale %zu of %zu is %.17g instead of %.17g", i, want.size(), (*out)[i], want[i]);
  return s;
}
BoxPtr make_box(Mix& m) {
  BoxPtr b(new Box());
  b->kind = (int)m.below(3);
  b->n = m.below(4) ? 1 + m.below(16) : m.below(4) ? 1 + m.below(40) : 1 + m.below(300);
  if (b->kind != 2 && m.below(60) == 0) b->n = m.below(2) ? (size_t)512 << m.below(4) : 301 + m.below(4000);
  b->cached = b->tight = false;
  if (b->kind == 2) {
    IScale::shared_ptr sc = make_scale(m, &b->scales);
    b->cached = m.below(2) == 0;
    static const double lim[] = {0.001, 1, 100, 1e-5};
    double limit = b->cached ? lim[m.below(8) ? m.below(3) : 3] : (m.below(2) ? -1. : 0.);
    b->tight = b->cached && limit < 0.01; // room for a few values: it may have to refuse
    b->fwt.reset(new FastWaveletTransform(sc, b->n, limit));
  } else {
    b->fft.reset(new FastFourierTransform(b->n));
    if (b->kind == 1) b->cc.reset(new FourierBasedCircularConvolution(b->fft));
  }
  return b;
}
template <class E, class F> void expect_refusal(const char* what, F f) {
  try { f(); } catch (const E&) { return; } catch (const std::bad_alloc&) { if (sim_alloc_failures()) throw; sim_violation("wrong-refusal", "%s failed for lack of memory although there was memory", what); } catch (const std::exception& e) { sim_violation("wrong-refusal", "%s was refused with another kind of failure: %s", what, e.what()); }
  sim_violation("not-refused", "%s was not refused", what);
}
void use_box(Box& b, Mix& m) {
  size_t n = b.n;
  if (m.below(4) == 0) { // a request it must refuse, and survive
    Seq wrong = make_seq(m.below(2) ? n + 1 : n - 1, m), right = make_seq(n, m);
    if (b.kind == 0) expect_refusal<std::invalid_argument>("a sequence of another length", [&] { b.fft->Transform(wrong); });
    if (b.kind == 1) { expect_refusal<std::runtime_error>("a convolution of two lengths", [&] { b.cc->EvaluateConvolution(right, wrong); });
                       expect_refusal<std::invalid_argument>("a convolution of another length", [&] { b.cc->EvaluateConvolution(wrong, wrong); }); }
    if (b.kind == 2) {
      IWavelet::shared_ptr w = make_wavelet(0, 0);
      expect_refusal<std::invalid_argument>("a scale of 0", [&] { b.fwt->TransformOneScale(right, w, 0); });
      expect_refusal<std::invalid_argument>("a negative scale", [&] { b.fwt->TransformOneScale(right, w, -1.5); });
      try { b.fwt->Transform(wrong, w); sim_violation("not-refused", "a sequence of another length was not refused"); } catch (const std::exception&) {}
    }
    sim_probe("refusals", 1);
  }
  Seq x = make_seq(n, m);
  if (b.kind == 0) {
    Seq y = b.fft->Transform(x);
    near(y, dft(x), norm1(x), "the fast Fourier transform");
    if (m.below(4) == 0 && n <= 300) { IFourierTransform::shared_ptr slow(new FourierTransform()); near(InverseFourierTransform(slow).Transform(y), x, norm1(x) + norm1(y), "the plain inverse transform of the fast transform"); }
    if (m.below(2)) { InverseFourierTransform inv(b.fft); near(inv.Transform(y), x, norm1(x), "the inverse transform of the transform"); }
    sim_probe("fourier_transforms", 1);
  } else if (b.kind == 1) {
    Seq z = make_seq(n, m);
    near(b.cc->EvaluateConvolution(x, z), conv(x, z), norm1(x) * norm1(z), "the Fourier-based convolution");
    sim_probe("convolutions", 1);
  } else {
    IWavelet::shared_ptr w;
    if (!b.used.empty() && m.below(3)) w = b.used[m.below(b.used.size())];
    else { w = make_wavelet((int)m.below(4), m.next()); if (m.below(3)) b.used.push_back(w); } // some are forgotten at once: the next may get their address
    if (!b.tight && m.below(5) == 0) { // one scale alone, any positive one
      double s = m.below(2) ? b.scales[m.below(b.scales.size())] : 0.3 + m.below(20) * 0.37;
      Seq one = b.fwt->TransformOneScale(x, w, s), wv(n);
      for (size_t i = 0; i < n; i++) { double t = (double)i - (double)n / 2; wv[i] = std::conj(w->GetValue(-t / s) / std::sqrt(s)); }
      near(one, conv(x, wv), norm1(x) * norm1(wv), "the wavelet transform of one scale");
      sim_probe("single_scales", 1);
    }
    std::vector<Seq> got;
    try { got = b.fwt->Transform(x, w); }
    catch (const std::runtime_error& e) { sim_violation("refused", "a wavelet transform with %s cache failed: %s", b.tight ? "a small" : b.cached ? "a" : "no", e.what()); }
    if (got.size() != b.scales.size()) sim_violation("wrong-size", "a wavelet transform has %zu scales instead of %zu", got.size(), b.scales.size());
    for (size_t k = 0; k < got.size(); k++) {
      Seq wv(n); double s = b.scales[k];
      for (size_t i = 0; i < n; i++) { double t = (double)i - (double)n / 2; wv[i] = std::conj(w->GetValue(-t / s) / std::sqrt(s)); }
      Seq want = conv(x, wv), rot(n);
      for (size_t i = 0; i < n; i++) rot[i] = want[(i + n / 2) % n];
      near(got[k], rot, norm1(x) * norm1(wv), b.cached ? "the wavelet transform with a cache" : "the wavelet transform");
    }
    sim_probe("wavelet_transforms", 1);
  }
}
// what all threads share: objects without state of their own
struct Shared {
  FourierTransform ft; CircularConvolution cc;
  IWavelet::shared_ptr morlet, akima;
  std::vector<std::pair<Wavelet::shared_ptr, std::pair<std::vector<double>, Table> > > cwt; int step;
  boost::mutex mutex; std::deque<BoxPtr> boxes;
  bool handover;
};
void compare_tables(const Table& a, const Table& b, const char* what) {
  if (a.size() != b.size()) sim_violation("wrong-size", "%s has %zu rows instead of %zu", what, a.size(), b.size());
  for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) sim_violation("outcome-differs", "%s differs in row %zu from the one made alone", what, i);
}
struct Work { Shared* sh; uint64_t seed; int ops; };
struct Progress {
  std::vector<double>* seen;
  void operator()(double p) const { seen->push_back(p); sim_yield(); }
};
void spline_work(Mix& m) {
  size_t n = 5 + m.below(20); std::vector<double> x(n), y(n);
  double at = m.real() * 10; for (size_t i = 0; i < n; i++) { x[i] = at; at += 0.2 + m.below(100) / 50.; y[i] = m.real(); }
  AkimaSpline::shared_ptr s = AkimaSpline::Create();
  int rounds = 1 + (int)m.below(2);
  for (int k = 0; k < rounds; k++) {
    if (k) for (size_t i = 0; i < n; i++) y[i] = m.real();
    s->Initialize(x, y);
    if (m.below(2)) {
      expect_refusal<std::invalid_argument>("a spline through four points", [&] { s->Initialize(std::vector<double>(x.begin(), x.begin() + 4), std::vector<double>(y.begin(), y.begin() + 4)); });
      expect_refusal<std::invalid_argument>("a spline with values missing", [&] { s->Initialize(x, std::vector<double>(n + 1)); });
    }
    for (int i = 0; i < 6; i++) {
      double t = i == 0 ? x[m.below(n)] : x[0] + (x[n - 1] - x[0]) * (m.real() + 1) / 2; if (i == 1) t = m.below(2) ? x[0] : x[n - 1];
      if (t > x[n - 1]) t = x[n - 1];
      double v = s->Value(t), w = akima_at(x, y, t);
      if (!(std::fabs(v - w) <= 1e-8)) sim_violation("wrong-value", "an Akima spline through %zu points is %.12g at %.12g, its definition gives %.12g", n, v, t, w);
    }
    expect_refusal<std::out_of_range>("a value before the first point", [&] { s->Value(x[0] - 1e-6); });
    expect_refusal<std::out_of_range>("a value after the last point", [&] { s->Value(x[n - 1] + 1e-6); });
  }
  sim_probe("splines", 1);
}
void work(Work* w) {
  Mix m(w->seed); Shared& sh = *w->sh;
  std::deque<BoxPtr> own;
  for (int k = 0; k < w->ops; k++) {
    switch (m.below(10)) {
      case 8: spline_work(m); break;
      case 9: { uint64_t salt = m.below(100); int kind = (int)m.below(4); IWavelet::shared_ptr w = make_wavelet(kind, salt); check_wavelet(*w, WaveDef(kind, salt), m); sim_probe("wavelets_checked", 1); break; }
      case 0: expect_refusal<std::invalid_argument>("a transform of nothing", [&] { FastFourierTransform f(0); }); sim_probe("refusals", 1); break;
      case 1: {
        Seq x = make_seq(1 + m.below(m.below(8) ? 9 : 70), m), z = make_seq(x.size(), m);
        near(sh.ft.Transform(x), dft(x), norm1(x), "the Fourier transform");
        near(sh.cc.EvaluateConvolution(x, z), conv(x, z), norm1(x) * norm1(z), "the convolution");
        C v = sh.morlet->GetValue(0.5); if (std::abs(v - std::exp(C(-0.125, 2.5))) > 1e-12) sim_violation("wrong-value", "the Morlet wavelet is wrong at 0.5");
        sim_probe("shared_objects_used", 1);
        break;
      }
      case 2: {
        std::pair<Wavelet::shared_ptr, std::pair<std::vector<double>, Table> >& c = sh.cwt[m.below(sh.cwt.size())];
        std::vector<double> seen; Progress pr; pr.seen = &seen; bool plain = m.below(2) == 0; size_t nd = c.second.first.size();
        Table t = plain ? ContiniousWaveletTransformation(c.second.first, c.first, sh.step) : ContiniousWaveletTransformation(c.second.first, c.first, sh.step, pr);
        if (!plain) {
          if (seen.size() != t.size()) sim_violation("progress", "%zu progress reports for %zu rows", seen.size(), t.size());
          for (size_t i = 0; i < seen.size(); i++) if (std::fabs(seen[i] - 100. * (double)(i * sh.step) / (double)nd) > 1e-9) sim_violation("progress", "report %zu of a transform of %zu values with step %d says %g %%", i, nd, sh.step, seen[i]);
        }
        compare_tables(t, c.second.second, "a continuous wavelet transform");
        sim_probe("continuous_wavelet_transforms", 1);
        break;
      }
      default: {
        BoxPtr b;
        if (!own.empty() && m.below(2)) { b = own.front(); own.pop_front(); }
        else if (sh.handover && m.below(2)) { boost::mutex::scoped_lock l(sh.mutex); if (!sh.boxes.empty()) { b = sh.boxes.front(); sh.boxes.pop_front(); sim_probe("objects_taken_over", 1); } }
        if (!b) b = make_box(m);
        use_box(*b, m);
        switch (m.below(3)) {
          case 0: own.push_back(b); break;
          case 1: if (sh.handover) { boost::mutex::scoped_lock l(sh.mutex); sh.boxes.push_back(b); } break;
          default: break; // destroyed here
        }
      }
    }
  }
}
void job(Work* w) {
  try { work(w); }
  catch (const std::exception& e) { sim_violation("failed", "a transform failed without a cause: %s", e.what()); }
}
}
extern "C" void scenario_dsp_independent() {
  static const double sp[] = {0, 0, 3, 20}; sim_spurious_wakeups(sp[sim_draw(4)]);
  int n = 1 + (int)sim_draw(4);
  {
    Shared sh; sh.handover = sim_chance(60); sh.step = 1 + (int)sim_draw(3);
    sh.morlet = make_wavelet(0, 0);
    int nc = 1 + (int)sim_draw(2);
    for (int i = 0; i < nc; i++) {
      int len = 4 + (int)sim_draw(22);
      Mix m(sim_draw(1 << 20));
      int kind = (int)sim_draw(4); uint64_t salt = sim_draw(100); int count = 1 + (int)sim_draw(4), minlen = 2; bool log = sim_chance(50);
      if (sim_chance(30)) minlen = 1 + (int)sim_draw(len);
      Wavelet::shared_ptr w = Wavelet::BuildWavelet(make_wavelet(kind, salt), minlen, len, count, log ? Wavelet::Log : Wavelet::Linear);
      std::vector<double> data(1 + sim_draw(12)); for (size_t k = 0; k < data.size(); k++) data[k] = m.real();
      Table t = ContiniousWaveletTransformation(data, w, sh.step);
      if (t.size() != (data.size() + sh.step - 1) / sh.step) sim_violation("wrong-size", "a continuous wavelet transform of %zu values with step %d has %zu rows", data.size(), sh.step, t.size());
      for (size_t r = 0; r < t.size(); r++) for (size_t c = 0; c < t[r].size(); c++) if (!(t[r][c] >= 0)) sim_violation("wrong-value", "a magnitude of a wavelet transform is %g", t[r][c]);
      check_cwt(t, data, WaveDef(kind, salt), len, minlen, count, log, sh.step);
      sh.cwt.push_back(std::make_pair(w, std::make_pair(data, t)));
    }
    std::vector<Work> ws(n);
    std::vector<boost::shared_ptr<boost::thread> > th;
    for (int i = 0; i < n; i++) { ws[i].sh = &sh; ws[i].seed = sim_draw(1u << 30); ws[i].ops = 1 + (int)sim_draw(6); }
    for (int i = 0; i < n; i++) th.push_back(boost::shared_ptr<boost::thread>(new boost::thread(boost::bind(&job, &ws[i]))));
    for (int i = 0; i < n; i++) th[i]->join();
    // what was left behind by one thread is used by another
    try { Mix m(5); while (!sh.boxes.empty()) { BoxPtr b = sh.boxes.front(); sh.boxes.pop_front(); use_box(*b, m); } }
    catch (const std::exception& e) { sim_violation("failed", "a transform failed without a cause: %s", e.what()); }
    sim_state(H(n, sh.handover));
  }
  if (sim_fftw_live()) sim_violation("not-released", "%d FFTW plans or buffers are left after all transforms are destroyed", sim_fftw_live());
}

// ---- C24: memory runs out in transforms ---------------------------------------------------
namespace {
struct MemWork { uint64_t seed; int ops; bool lack; };
void mem_work(MemWork* w) {
  Mix m(w->seed);
  for (int k = 0; k < w->ops; k++) {
    BoxPtr b;
    bool held = true;
    try {
      b = make_box(m);
      int uses = 1 + (int)m.below(3);
      for (int i = 0; i < uses; i++) use_box(*b, m);
    } catch (const std::bad_alloc&) { held = false; if (!w->lack) sim_violation("failed", "a transform failed for lack of memory although there is memory again"); }
    catch (const std::exception& e) { sim_violation("failure-changed", "memory ran out, the caller saw '%s'", e.what()); }
    sim_probe(held ? "objects_that_managed" : "objects_out_of_memory", 1);
    if (b && !held) { // what is there must go on working
      for (int i = 0; i < 6; i++) {
        bool ok = true;
        try { use_box(*b, m); } catch (const std::bad_alloc&) { ok = false; }
        if (ok) { sim_probe("objects_recovered", 1); break; }
      }
    }
  }
}
}
extern "C" void scenario_dsp_memory() {
  static const double p[] = {0.3, 3, 10};
  double pr = p[sim_draw(3)];
  int n = (int)sim_draw(3);
  std::vector<MemWork> ws(n + 1);
  for (int i = 0; i <= n; i++) { ws[i].seed = sim_draw(1u << 30); ws[i].ops = 1 + (int)sim_draw(5); ws[i].lack = true; }
  int live = sim_fftw_live();
  {
    std::vector<boost::shared_ptr<boost::thread> > th;
    for (int i = 0; i < n; i++) th.push_back(boost::shared_ptr<boost::thread>(new boost::thread(boost::bind(&mem_work, &ws[i]))));
    sim_alloc_faults(pr, pr);
    mem_work(&ws[n]);
    for (int i = 0; i < n; i++) th[i]->join();
    sim_alloc_faults(-1, -1);
  }
  if (sim_fftw_live() != live) sim_violation("not-released", "%d plans and buffers of the FFT library were not released", sim_fftw_live() - live);
  for (int i = 0; i <= n; i++) { ws[i].lack = false; mem_work(&ws[i]); } // with memory again
  if (sim_fftw_live() != live) sim_violation("not-released", "%d plans and buffers of the FFT library were not released", sim_fftw_live() - live);
  sim_state(sim_alloc_failures());
}
