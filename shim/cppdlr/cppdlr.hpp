// Stand-in for the discrete Lehmann representation library: the kernels, and nodes which are plain grids.
#pragma once
#include <nda/nda.hpp>
#include <h5/h5.hpp>
#include <complex>
#include <cmath>
#include <vector>
namespace cppdlr {
  enum statistic_t { Boson = 0, Fermion = 1 };
  inline double k_it(double t, double om) { // t in [0, 1] or relative to 1 if negative
    if (t < 0) t += 1;
    return om >= 0 ? -std::exp(-t * om) / (1 + std::exp(-om)) : -std::exp((1 - t) * om) / (1 + std::exp(om));
  }
  inline double k_it(double t, double om, double beta) { return k_it(t, om * beta); }
  inline std::complex<double> k_if(long n, double om, statistic_t s) {
    std::complex<double> iw{0, (2 * n + (s == Fermion ? 1 : 0)) * M_PI};
    if (s == Fermion) return 1. / (iw - om);
    if (n == 0 && om == 0) return -0.5;
    return std::tanh(om / 2) / (iw - om);
  }
  inline std::complex<double> k_if(long n, double om, statistic_t s, double beta) { return beta * k_if(n, beta * om, s); }
  inline nda::vector<double> build_dlr_rf(double lambda, double eps) {
    long r = 2 + long(std::log10(1 / eps)) / 3;
    nda::vector<double> w(r);
    for (long i = 0; i < r; ++i) w(i) = lambda * (2. * double(i) / double(r - 1) - 1);
    return w;
  }
  struct imtime_ops {
    double lambda = 1;
    nda::vector<double> rf, nodes;
    imtime_ops() = default;
    imtime_ops(double l, nda::vector<double> const &w) : lambda(l), rf(w), nodes(w.size()) {
      for (long i = 0; i < w.size(); ++i) nodes(i) = double(i) / double(w.size());
    }
    long rank() const { return rf.size(); }
    nda::vector<double> const &get_itnodes() const { return nodes; }
    double get_itnodes(long i) const { return nodes(i); }
    friend void h5_write(h5::group g, std::string const &n, imtime_ops const &o) { auto gr = g.create_group(n); h5::write(gr, "l", o.lambda); h5::write(gr, "rf", o.rf); h5::write(gr, "nodes", o.nodes); }
    friend void h5_read(h5::group g, std::string const &n, imtime_ops &o) { auto gr = g.open_group(n); h5::read(gr, "l", o.lambda); h5::read(gr, "rf", o.rf); h5::read(gr, "nodes", o.nodes); }
  };
  struct imfreq_ops {
    double lambda = 1;
    nda::vector<double> rf;
    nda::vector<long> nodes;
    imfreq_ops() = default;
    imfreq_ops(double l, nda::vector<double> const &w, statistic_t) : lambda(l), rf(w), nodes(w.size()) {
      for (long i = 0; i < w.size(); ++i) nodes(i) = 2 * i - w.size();
    }
    long rank() const { return rf.size(); }
    nda::vector<long> const &get_ifnodes() const { return nodes; }
    long get_ifnodes(long i) const { return nodes(i); }
    friend void h5_write(h5::group g, std::string const &n, imfreq_ops const &o) { auto gr = g.create_group(n); h5::write(gr, "l", o.lambda); h5::write(gr, "rf", o.rf); h5::write(gr, "nodes", o.nodes); }
    friend void h5_read(h5::group g, std::string const &n, imfreq_ops &o) { auto gr = g.open_group(n); h5::read(gr, "l", o.lambda); h5::read(gr, "rf", o.rf); h5::read(gr, "nodes", o.nodes); }
  };
} // namespace cppdlr
