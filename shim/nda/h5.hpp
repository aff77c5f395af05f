#pragma once
#include <h5/h5.hpp>
#include <nda/nda.hpp>
namespace nda {
  template <ShimArr A> void h5_write(h5::group g, std::string const &name, A const &a, bool = true) {
    if constexpr (is_scalar_v<typename A::value_type>) {
      std::vector<typename A::value_type> v(a.begin(), a.end());
      h5::write_array(g, name, v.data(), std::vector<long>(a.shape().begin(), a.shape().end()));
    } else {
      auto gr = g.create_group(name);
      h5::h5_write(gr, "shape", std::vector<long>(a.shape().begin(), a.shape().end()));
      long i = 0;
      for (auto const &x : a) h5::write(gr, std::to_string(i++), x);
    }
  }
  template <typename T, int R, char Al> void h5_read(h5::group g, std::string const &name, arr_<T, R, Al> &a) {
    std::vector<T> v;
    std::vector<long> sh;
    if constexpr (is_scalar_v<T>) {
      std::tie(v, sh) = h5::read_array<T>(g, name);
    } else {
      auto gr = g.open_group(name);
      h5::h5_read(gr, "shape", sh);
      long n = 1;
      for (auto s : sh) n *= s;
      for (long i = 0; i < n; ++i) v.push_back(h5::h5_read<T>(gr, std::to_string(i)));
    }
    if (sh.size() != R) throw std::runtime_error("h5: rank mismatch (array)");
    std::array<long, R> s;
    std::copy(sh.begin(), sh.end(), s.begin());
    if (a.shape() != s) a.resize(s);
    std::copy(v.begin(), v.end(), a.begin());
  }
  template <typename T, int R, char Al> void h5_read(h5::group g, std::string const &name, arrv_<T, R, Al> a) {
    auto [v, sh] = h5::read_array<T>(g, name);
    if (!std::equal(sh.begin(), sh.end(), a.shape().begin(), a.shape().end())) throw std::runtime_error("h5: shape mismatch (view)");
    std::copy(v.begin(), v.end(), a.begin());
  }
} // namespace nda
