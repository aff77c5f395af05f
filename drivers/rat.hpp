#pragma once
// recognises the rational number with a small denominator which a floating point number stands for
#include <cmath>
#include <complex>
#include <vector>
namespace drv {
  using VL = std::vector<long>;
  // p/q in lowest terms, q > 0; 0/0 if there is none with q <= maxden
  inline VL rat(double v, long maxden = 1000000, double tol = 2e-13) {
    if (!std::isfinite(v) || std::abs(v) > 1e9) return {0, 0};
    double x = v;
    long p0 = 0, q0 = 1, p1 = 1, q1 = 0;
    for (int it = 0; it < 40; ++it) {
      double a = std::floor(x);
      if (std::abs(a) > 2e9) break;
      long p2 = long(a) * p1 + p0, q2 = long(a) * q1 + q0;
      if (q2 > maxden) break;
      p0 = p1; q0 = q1; p1 = p2; q1 = q2;
      if (std::abs(v - double(p1) / double(q1)) <= tol * std::max(1., std::abs(v))) {
        if (std::abs(p1) > 2000000000) return {0, 0};
        return {p1, q1};
      }
      x = 1. / (x - a);
      if (!std::isfinite(x)) break;
    }
    return {0, 0};
  }
  inline std::string list(std::vector<VL> const &v) {
    std::string s = "[";
    for (auto &x : v) {
      if (s.size() > 1) s += ",";
      s += "[";
      for (size_t i = 0; i < x.size(); ++i) s += (i ? "," : "") + std::to_string(x[i]);
      s += "]";
    }
    return s + "]";
  }
} // namespace drv
