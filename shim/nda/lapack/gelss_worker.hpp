#pragma once
#include <nda/nda.hpp>
#include <stdexcept>
// Least squares solvers: declared only, the tail fits which need them are not exercised.
namespace nda::lapack {
  template <typename T> struct gelss_worker {
    long m = 0;
    std::vector<double> s;
    template <typename M> gelss_worker(M const &a) : m(a.shape()[1]) {}
    long n_var() const { return m; }
    std::vector<double> const &S_vec() const { return s; }
    template <typename... A> std::pair<nda::matrix<std::complex<double>>, double> operator()(A const &...) const { throw std::runtime_error("no least squares solver"); }
  };
  struct gelss_worker_hermitian : gelss_worker<std::complex<double>> {
    using gelss_worker::gelss_worker;
  };
} // namespace nda::lapack
