// Shared by the harnesses.
#ifndef COMMON_UTIL_H
#define COMMON_UTIL_H
#include <string>
#include <vector>
#include <sstream>
#include <cstring>
#include <cmath>
#include <stdint.h>
#include "sim_api.h"
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <ios>
#include <boost/thread.hpp>

inline uint64_t H(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }
inline uint64_t HD(uint64_t h, double d) { uint64_t u; std::memcpy(&u, &d, 8); return H(h, u); }
inline uint64_t HS(uint64_t h, const std::string& s) { for (size_t i = 0; i < s.size(); i++) h = H(h, (unsigned char)s[i]); return H(h, s.size()); }
// double drawn from the workload stream: 0, small integers, fractions
inline double draw_double(double lo, double hi) { return lo + (hi - lo) * (double)sim_draw(1 << 20) / (double)((1 << 20) - 1); }
inline int draw_int(int lo, int hi) { return lo + (int)sim_draw((uint64_t)(hi - lo + 1)); }
template <class T> T pick(const T* a, size_t n) { return a[sim_draw(n)]; }

// Failures of every kind an objective function or a task may raise.
struct FailPlain { int x; };
struct FailStd : std::exception { const char* what() const throw() { return "custom failure"; } };
struct FailRuntime : std::runtime_error { explicit FailRuntime(const std::string& s) : std::runtime_error(s) {} };
enum { kFailKinds = 22 };
inline void fail_with(int kind, const std::string& msg) {
  switch (kind) {
    case 0: throw std::runtime_error(msg); case 1: throw std::bad_alloc(); case 2: throw std::invalid_argument(msg); case 3: throw 5;
    case 4: { FailPlain f; f.x = 1; throw f; }
    case 5: throw std::domain_error(msg); case 6: throw std::out_of_range(msg); case 7: throw std::length_error(msg); case 8: throw std::logic_error(msg);
    case 9: throw std::range_error(msg); case 10: throw std::overflow_error(msg); case 11: throw std::underflow_error(msg);
    case 12: throw std::bad_cast(); case 13: throw std::exception(); case 14: throw FailStd(); case 15: throw FailRuntime(msg);
    case 16: throw std::ios_base::failure(msg); case 17: throw boost::thread_interrupted(); case 18: throw std::bad_exception(); case 19: throw std::bad_typeid();
    case 20: throw (const char*)"failure"; default: throw msg;
  }
}
// to be called in a catch block: which kind is it, and with what message
inline int failure_kind(std::string* msg = 0) {
  try { throw; }
  catch (const std::exception& e) {
    if (msg) *msg = e.what();
    const std::type_info& t = typeid(e);
    if (t == typeid(std::runtime_error)) return 0;
    if (t == typeid(std::invalid_argument)) return 2;
    if (t == typeid(std::domain_error)) return 5;
    if (t == typeid(std::out_of_range)) return 6;
    if (t == typeid(std::length_error)) return 7;
    if (t == typeid(std::logic_error)) return 8;
    if (t == typeid(std::range_error)) return 9;
    if (t == typeid(std::overflow_error)) return 10;
    if (t == typeid(std::underflow_error)) return 11;
    if (t == typeid(std::exception)) return 13;
    if (t == typeid(FailStd)) return 14;
    if (t == typeid(FailRuntime)) return 15;
    // a transported copy may be wrapped in a class derived from it
    if (dynamic_cast<const std::bad_alloc*>(&e)) return 1;
    if (dynamic_cast<const std::bad_cast*>(&e)) return 12;
    if (dynamic_cast<const std::ios_base::failure*>(&e)) return 16;
    if (dynamic_cast<const std::bad_typeid*>(&e)) return 19;
    if (dynamic_cast<const FailRuntime*>(&e)) return 15;
    if (dynamic_cast<const FailStd*>(&e)) return 14;
    if (dynamic_cast<const std::domain_error*>(&e)) return 5;
    if (dynamic_cast<const std::invalid_argument*>(&e)) return 2;
    if (dynamic_cast<const std::out_of_range*>(&e)) return 6;
    if (dynamic_cast<const std::length_error*>(&e)) return 7;
    if (dynamic_cast<const std::range_error*>(&e)) return 9;
    if (dynamic_cast<const std::overflow_error*>(&e)) return 10;
    if (dynamic_cast<const std::underflow_error*>(&e)) return 11;
    if (dynamic_cast<const std::logic_error*>(&e)) return 8;
    if (dynamic_cast<const std::runtime_error*>(&e)) return 0;
    if (dynamic_cast<const std::bad_exception*>(&e)) return 18;
    return 99;
  }
  catch (int) { return 3; } catch (const FailPlain&) { return 4; } catch (const boost::thread_interrupted&) { return 17; }
  catch (const char*) { return 20; } catch (const std::string& s) { if (msg) *msg = s; return 21; } catch (...) { return 98; }
}
// types every transport of exceptions between threads must know; the others may arrive as something else
inline bool transportable(int kind) { return kind != 3 && kind != 4 && kind != 14 && kind != 15 && kind != 17 && kind < 20; }
// what a failed allocation arrives as: at worst there was no memory to hand the failure over between threads either
inline bool lack_of_memory(int kind) { return kind == 1 || kind == 18 || kind == 99; }
inline bool has_message(int kind) { return kind == 0 || kind == 2 || (kind >= 5 && kind <= 11); }
#include <algorithm>

// Bytes that repeating the same history leaves behind time and again; 0: none.
// What an object keeps differs from time to time; what is lost only adds up.
template <class Once> uint64_t heap_growth(Once& once, int warm = 3, int first = 6, int more = 60) {
  uint64_t before = 0, now = 0; int grew = 0;
  for (int k = 0; k < warm; k++) before = once();
  uint64_t base = before;
  for (int k = 0; k < first; k++) { now = once(); if (now > before) grew++; before = now; }
  if (grew < 2 || now <= base) return 0;
  uint64_t most = 0, least = ~0ull;
  for (int k = 0; k < more; k++) { now = once(); if (k < more / 2) most = std::max(most, now); else least = std::min(least, now); }
  sim_probe("growth_examined", 1);
  return least > most ? now - base : 0;
}
#endif
