#pragma once
#include <array>
#include <sstream>
#include <ostream>
// componentwise arithmetic of std::array, as in nda/stdutil
#define SHIM_ARR_OP(OP)                                                                                                                              \
  template <typename T, size_t R> constexpr std::array<T, R> operator OP(std::array<T, R> const &a, std::array<T, R> const &b) {                     \
    std::array<T, R> r;                                                                                                                              \
    for (size_t i = 0; i < R; ++i) r[i] = a[i] OP b[i];                                                                                              \
    return r;                                                                                                                                        \
  }
namespace std {
  SHIM_ARR_OP(+)
  SHIM_ARR_OP(-)
  SHIM_ARR_OP(*)
  template <typename T, size_t R> constexpr std::array<T, R> operator-(std::array<T, R> const &a) {
    std::array<T, R> r;
    for (size_t i = 0; i < R; ++i) r[i] = -a[i];
    return r;
  }
  template <typename T, size_t R> constexpr std::array<T, R> operator*(T s, std::array<T, R> const &a) {
    std::array<T, R> r;
    for (size_t i = 0; i < R; ++i) r[i] = s * a[i];
    return r;
  }
  template <typename T, size_t R> ostream &operator<<(ostream &out, std::array<T, R> const &a) {
    out << "(";
    for (size_t i = 0; i < R; ++i) out << (i ? " " : "") << a[i];
    return out << ")";
  }
  template <typename T, size_t R> std::string to_string(std::array<T, R> const &a) {
    std::stringstream s;
    s << a;
    return s.str();
  }
} // namespace std

namespace nda::stdutil {
  template <typename T, size_t R> constexpr T product(std::array<T, R> const &a) {
    T r = 1;
    for (auto const &x : a) r *= x;
    return r;
  }
  template <int N, typename T, size_t R> constexpr std::array<T, R - N> front_mpop(std::array<T, R> const &a) {
    std::array<T, R - N> r;
    for (size_t i = 0; i < R - N; ++i) r[i] = a[i + N];
    return r;
  }
  template <int N, typename T, size_t R> constexpr std::array<T, R - N> mpop(std::array<T, R> const &a) {
    std::array<T, R - N> r;
    for (size_t i = 0; i < R - N; ++i) r[i] = a[i];
    return r;
  }
  template <typename T, size_t R> constexpr std::array<T, R - 1> front_pop(std::array<T, R> const &a) { return front_mpop<1>(a); }
  template <typename T, size_t R> constexpr std::array<T, R + 1> front_append(std::array<T, R> const &a, T const &x) {
    std::array<T, R + 1> r;
    r[0] = x;
    for (size_t i = 0; i < R; ++i) r[i + 1] = a[i];
    return r;
  }
  template <typename T, typename U, size_t R> constexpr std::array<T, R + 1> append(std::array<T, R> const &a, U const &x) {
    std::array<T, R + 1> r;
    for (size_t i = 0; i < R; ++i) r[i] = a[i];
    r[R] = x;
    return r;
  }
  template <typename T, size_t R, size_t S> constexpr std::array<T, R + S> join(std::array<T, R> const &a, std::array<T, S> const &b) {
    std::array<T, R + S> r;
    for (size_t i = 0; i < R; ++i) r[i] = a[i];
    for (size_t i = 0; i < S; ++i) r[R + i] = b[i];
    return r;
  }
} // namespace nda::stdutil
