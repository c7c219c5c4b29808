// helpers shared by the harnesses
#pragma once
#include "osym.h"
#include "Omega_h_array.hpp"
#include "Omega_h_array_ops.hpp"
#include <vector>
#define H(name) extern "C" void name()
namespace hh {
using namespace Omega_h;
template <class T> struct Sym;
template <> struct Sym<I8> { static I8 any(char const* n) { return (I8)osym_u8(n); } static I8 in(char const* n, I64 lo, I64 hi) { return (I8)osym_i32(n, lo, hi); } };
template <> struct Sym<I32> { static I32 any(char const* n) { return osym_i32(n, INT32_MIN, INT32_MAX); } static I32 in(char const* n, I64 lo, I64 hi) { return osym_i32(n, lo, hi); } };
template <> struct Sym<I64> { static I64 any(char const* n) { return osym_i64(n, INT64_MIN, INT64_MAX); } static I64 in(char const* n, I64 lo, I64 hi) { return osym_i64(n, lo, hi); } };
template <> struct Sym<Real> { static Real any(char const* n) { return osym_f64(n); } static Real in(char const* n, I64 lo, I64 hi) { return osym_fint(n, (int)lo, (int)hi); } };
// arbitrary values
template <class T> Write<T> anys(char const* n, LO size) { Write<T> w(size); for (LO i = 0; i < size; ++i) w[i] = Sym<T>::any(n); return w; }
template <class T> Write<T> ranged(char const* n, LO size, I64 lo, I64 hi) { Write<T> w(size); for (LO i = 0; i < size; ++i) w[i] = Sym<T>::in(n, lo, hi); return w; }
// values explored one by one
template <class T> Write<T> chosen(char const* n, LO size, I64 lo, I64 hi) { Write<T> w(size); for (LO i = 0; i < size; ++i) w[i] = (T)osym_choose(n, lo, hi); return w; }
inline int param(char const* n, int d) { return (int)osym_param(n, d); }
inline int size_upto(char const* n, int d) { return (int)osym_choose("n", 0, osym_param(n, d)); }
template <class A> void obs(char const* n, A const& a) { osym_observe(n, (uint64_t)(int64_t)a.size()); for (LO i = 0; i < a.size(); ++i) osym_observe(n, (uint64_t)(int64_t)a[i]); }
inline void obsr(char const* n, Reals a) { osym_observe(n, (uint64_t)a.size()); for (LO i = 0; i < a.size(); ++i) osym_observe_f64(n, a[i]); }
// a symbolic fan: 0 = o[0] <= o[1] <= ... <= o[n], every degree in [0, maxdeg]; degrees explored one by one
inline LOs fan(char const* n, LO na, int maxdeg) { Write<LO> w(na + 1); w[0] = 0; for (LO i = 0; i < na; ++i) w[i + 1] = w[i] + (LO)osym_choose(n, 0, maxdeg); return w; }
}
using namespace hh;
