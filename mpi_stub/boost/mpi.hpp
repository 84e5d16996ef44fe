// Stand-in for Boost.MPI over the simulated transport (first on the include path).
// Point-to-point calls, requests, probes, barrier and broadcast with MPI's
// matching rules; payloads carry their type so that mismatched pairs show.
#ifndef SIM_BOOST_MPI_HPP
#define SIM_BOOST_MPI_HPP
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <algorithm>
#include <list>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <utility>
#include <cstring>
#include <typeinfo>
#include <exception>
#include <boost/optional.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/function.hpp>
#include <boost/type_traits.hpp>
#include <boost/utility/enable_if.hpp>
#include "../../sim/sim_api.h"

namespace boost { namespace mpi {

const int any_source = -1;
const int any_tag = -1;

namespace threading { enum level { single, funneled, serialized, multiple }; }

class exception : public std::exception {
public:
  exception(const char* r, int c) : r_(r), c_(c) {}
  virtual const char* what() const throw() { return r_; }
  const char* routine() const { return r_; }
  int result_code() const { return c_; }
private:
  const char* r_; int c_;
};

namespace sim {
// ---- typed encoding -------------------------------------------------------
template <class T, class E = void> struct codec;
template <class T> struct codec<T, typename boost::enable_if<boost::integral_constant<bool, boost::is_arithmetic<T>::value || boost::is_enum<T>::value> >::type> {
  static std::string name() { return std::string("a:") + typeid(T).name(); }
  static void put(std::string& o, const T& v) { o.append((const char*)&v, sizeof v); }
  static bool get(const char*& p, const char* e, T& v) { if ((size_t)(e - p) < sizeof v) return false; T t; std::memcpy(&t, p, sizeof t); v = t; p += sizeof v; return true; }
};
template <> struct codec<std::string> {
  static std::string name() { return "string"; }
  static void put(std::string& o, const std::string& v) { size_t n = v.size(); o.append((const char*)&n, sizeof n); o.append(v); }
  static bool get(const char*& p, const char* e, std::string& v) {
    size_t n; if ((size_t)(e - p) < sizeof n) return false; std::memcpy(&n, p, sizeof n); p += sizeof n;
    if ((size_t)(e - p) < n) return false; v.assign(p, n); p += n; return true; }
};
template <class T, class A> struct codec<std::vector<T, A> > {
  static std::string name() { return "vector<" + codec<T>::name() + ">"; }
  static void put(std::string& o, const std::vector<T, A>& v) { size_t n = v.size(); o.append((const char*)&n, sizeof n); for (size_t i = 0; i < n; i++) { T t = v[i]; codec<T>::put(o, t); } }
  static bool get(const char*& p, const char* e, std::vector<T, A>& v) {
    size_t n; if ((size_t)(e - p) < sizeof n) return false; std::memcpy(&n, p, sizeof n); p += sizeof n;
    std::vector<T, A> r; for (size_t i = 0; i < n; i++) { T t = T(); if (!codec<T>::get(p, e, t)) return false; r.push_back(t); }
    v.swap(r); return true; }
};
// The real library takes the address of the elements and refuses to compile this;
// reported when it is tried, so that the check answers instead of not building.
template <class A> struct codec<std::vector<bool, A> > {
  static std::string name() { return "vector<bool>"; }
  static void put(std::string&, const std::vector<bool, A>&) { sim_violation("mpi-vector-bool", "rank %d sends a std::vector<bool>, which boost::mpi cannot transfer", sim_mpi_rank()); }
  static bool get(const char*&, const char*, std::vector<bool, A>&) { sim_violation("mpi-vector-bool", "rank %d receives a std::vector<bool>, which boost::mpi cannot transfer", sim_mpi_rank()); return false; }
};
template <class A, class B> struct codec<std::pair<A, B> > {
  static std::string name() { return "pair<" + codec<A>::name() + "," + codec<B>::name() + ">"; }
  static void put(std::string& o, const std::pair<A, B>& v) { codec<A>::put(o, v.first); codec<B>::put(o, v.second); }
  static bool get(const char*& p, const char* e, std::pair<A, B>& v) { return codec<A>::get(p, e, v.first) && codec<B>::get(p, e, v.second); }
};
template <size_t N> struct codec<char[N]> {
  static std::string name() { return "string"; }
  static void put(std::string& o, const char (&v)[N]) { codec<std::string>::put(o, std::string(v)); }
};

struct Decoder { virtual ~Decoder() {} virtual void run(int req) = 0; };
template <class T> void decode(int req, T& out, SimMpiStatus* st) {
  const char* type; size_t n;
  const char* d = sim_mpi_payload(req, &type, &n, st);
  if (codec<T>::name() != type)
    sim_violation("mpi-type-mismatch", "rank %d receives %s where rank %d sent %s", sim_mpi_rank(), codec<T>::name().c_str(), st ? st->source : -1, type);
  const char* p = d;
  if (!codec<T>::get(p, d + n, out) || p != d + n) sim_violation("mpi-truncated", "rank %d could not decode a %s message", sim_mpi_rank(), type);
}
template <class T> struct DecoderT : Decoder {
  T* out; SimMpiStatus* st;
  DecoderT(T* o, SimMpiStatus* s) : out(o), st(s) {}
  void run(int req) { decode<T>(req, *out, st); }
};
template <class T> struct DecoderN : Decoder {
  T* out; int n; SimMpiStatus* st;
  DecoderN(T* o, int c, SimMpiStatus* s) : out(o), n(c), st(s) {}
  void run(int req) {
    std::vector<T> v; decode<std::vector<T> >(req, v, st);
    if ((int)v.size() > n) sim_violation("mpi-truncated", "rank %d receives %d elements into %d", sim_mpi_rank(), (int)v.size(), n);
    for (size_t i = 0; i < v.size(); i++) out[i] = v[i];
  }
};
} // namespace sim

class status {
public:
  status() : s_(-1), t_(-1), c_(false) {}
  status(int s, int t) : s_(s), t_(t), c_(false) {}
  int source() const { return s_; }
  int tag() const { return t_; }
  int error() const { return 0; }
  bool cancelled() const { return c_; }
  int s_, t_; bool c_;
};

class request {
  struct State {
    int h; bool done; SimMpiStatus st; boost::shared_ptr<sim::Decoder> dec;
    State() : h(-1), done(false) { st.source = -1; st.tag = -1; }
  };
  boost::shared_ptr<State> s_;
public:
  request() {}
  static request make_send(int h) { request r; r.s_.reset(new State); r.s_->h = h; return r; }
  template <class T> static request make_recv(int h, T* out) {
    request r; r.s_.reset(new State); r.s_->h = h; r.s_->dec.reset(new sim::DecoderT<T>(out, &r.s_->st)); return r; }
  template <class T> static request make_recv_n(int h, T* out, int n) {
    request r; r.s_.reset(new State); r.s_->h = h; r.s_->dec.reset(new sim::DecoderN<T>(out, n, &r.s_->st)); return r; }
  void finish() { if (!s_->done) { s_->done = true; if (s_->dec) s_->dec->run(s_->h); } }
  boost::optional<status> test() {
    if (!s_) return status();
    if (!s_->done) { if (!sim_mpi_test(s_->h)) return boost::optional<status>(); finish(); }
    return status(s_->st.source, s_->st.tag);
  }
  status wait() {
    if (!s_) return status();
    if (!s_->done) { sim_mpi_wait(s_->h); finish(); }
    return status(s_->st.source, s_->st.tag);
  }
  void cancel() { if (s_ && !s_->done) { sim_mpi_cancel(s_->h); s_->done = true; } }
  bool active() const { return s_ && !s_->done; }
};

class environment {
public:
  explicit environment(bool = true) { sim_mpi_env_init(); }
  explicit environment(threading::level, bool = true) { sim_mpi_env_init(); }
  environment(int&, char**&, bool = true) { sim_mpi_env_init(); }
  ~environment() { sim_mpi_env_fini(); }
  static bool initialized() { return sim_mpi_env_state() != 0; }
  static bool finalized() { return sim_mpi_env_state() == 2; }
  static void abort(int code) { sim_mpi_abort(code); }
  static std::string processor_name() { return "simulated"; }
private:
  environment(const environment&);
  environment& operator=(const environment&);
};

class communicator {
public:
  communicator() {}
  int rank() const { return sim_mpi_rank(); }
  int size() const { return sim_mpi_size(); }
  template <class T> void send(int d, int t, const T& v) const {
    std::string o; sim::codec<T>::put(o, v); sim_mpi_send(d, t, sim::codec<T>::name().c_str(), o.data(), o.size()); }
  template <class T> void send(int d, int t, const T* v, int n) const { send(d, t, std::vector<T>(v, v + n)); }
  void send(int d, int t) const { sim_mpi_send(d, t, "empty", "", 0); }
  template <class T> request isend(int d, int t, const T& v) const {
    std::string o; sim::codec<T>::put(o, v); return request::make_send(sim_mpi_isend(d, t, sim::codec<T>::name().c_str(), o.data(), o.size())); }
  template <class T> request isend(int d, int t, const T* v, int n) const { return isend(d, t, std::vector<T>(v, v + n)); }
  template <class T> status recv(int s, int t, T& v) const { int h = sim_mpi_irecv(s, t); return request::make_recv<T>(h, &v).wait(); }
  template <class T> status recv(int s, int t, T* v, int n) const { int h = sim_mpi_irecv(s, t); return request::make_recv_n<T>(h, v, n).wait(); }
  template <class T> request irecv(int s, int t, T& v) const { int h = sim_mpi_irecv(s, t); return request::make_recv<T>(h, &v); }
  template <class T> request irecv(int s, int t, T* v, int n) const { int h = sim_mpi_irecv(s, t); return request::make_recv_n<T>(h, v, n); }
  status probe(int s = any_source, int t = any_tag) const { SimMpiStatus st; sim_mpi_probe(s, t, 1, &st); return status(st.source, st.tag); }
  boost::optional<status> iprobe(int s = any_source, int t = any_tag) const {
    SimMpiStatus st; if (sim_mpi_probe(s, t, 0, &st)) return status(st.source, st.tag); return boost::optional<status>(); }
  void barrier() const { sim_mpi_barrier(); }
  void abort(int c) const { sim_mpi_abort(c); }
  operator bool() const { return true; }
};

template <class It> void wait_all(It a, It b) { for (; a != b; ++a) a->wait(); }
template <class It> bool test_all_done(It a, It b) { bool all = true; for (; a != b; ++a) if (!a->test()) all = false; return all; }
template <class It> std::pair<status, It> wait_any(It a, It b) {
  for (;;) { for (It i = a; i != b; ++i) { boost::optional<status> s = i->test(); if (s) return std::make_pair(*s, i); } sim_sleep_ns(100000); } }
template <class It> boost::optional<std::pair<status, It> > test_any(It a, It b) {
  for (It i = a; i != b; ++i) { boost::optional<status> s = i->test(); if (s) return std::make_pair(*s, i); }
  return boost::optional<std::pair<status, It> >(); }
template <class T> void broadcast(const communicator& c, T& v, int root) {
  const int tag = 0x7ffe;
  if (c.rank() == root) { for (int i = 0; i < c.size(); i++) if (i != root) c.send(i, tag, v); }
  else c.recv(root, tag, v);
}
class timer { public: double elapsed() const { return sim_now_ns() * 1e-9; } };
}} // namespace boost::mpi
#endif
