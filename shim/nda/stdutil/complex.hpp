#pragma once
#include <complex>
#include <type_traits>
// arithmetic between complex<double> and the other arithmetic types, as in nda/stdutil
#define SHIM_CX_OP(OP)                                                                                                                               \
  template <typename T> requires(std::is_arithmetic_v<T> && !std::is_same_v<T, double>) std::complex<double> operator OP(std::complex<double> const &a, T const &b) { return a OP double(b); } \
  template <typename T> requires(std::is_arithmetic_v<T> && !std::is_same_v<T, double>) std::complex<double> operator OP(T const &a, std::complex<double> const &b) { return double(a) OP b; }
namespace std {
  SHIM_CX_OP(+)
  SHIM_CX_OP(-)
  SHIM_CX_OP(*)
  SHIM_CX_OP(/)
} // namespace std
namespace nda::stdutil {
  template <typename A> auto product(A const &a) {
    long r = 1;
    for (auto x : a) r *= x;
    return r;
  }
  template <typename A> auto sum(A const &a) {
    long r = 0;
    for (auto x : a) r += x;
    return r;
  }
} // namespace nda::stdutil
