// C30: coefficients of many-body operators (operators/util/extractors.hpp).
#include "drv.hpp"
#include <triqs/utility/first_include.hpp>
#include <triqs/operators/many_body_operator.hpp>
#include <triqs/operators/util/extractors.hpp>
using namespace triqs::operators;
using namespace triqs::operators::utils;
using triqs::hilbert_space::fundamental_operator_set;
using triqs::utility::real_or_complex;
using dcomplex = std::complex<double>;
static indices_t ind(J const &j) {
  indices_t r;
  for (auto const &x : j.a)
    if (x.k == J::Str) r.push_back(x.s); else r.push_back(long(x.l()));
  return r;
}
static dcomplex z(double x) { return x; }
static dcomplex z(dcomplex x) { return x; }
static dcomplex z(real_or_complex x) { return dcomplex(x); }
static std::vector<indices_t> names;
static long mode(indices_t const &t) {
  for (size_t i = 0; i < names.size(); ++i) if (names[i] == t) return i + 1;
  return 9999;
}
template <typename T> std::string num(T const &x) { auto c = z(x); return std::to_string(drv::L(c.real() * 4)) + "," + std::to_string(drv::L(c.imag() * 4)); }
template <typename O> drv::raw terms(O const &op) {
  std::string r = "[";
  for (auto const &t : op) {
    if (r.size() > 1) r += ",";
    std::vector<long> m;
    for (auto const &x : t.monomial) m.push_back(x.dagger ? mode(x.indices) : -mode(x.indices));
    r += "[" + drv::js(m) + "," + num(t.coef) + "]";
  }
  return {r + "]"};
}
template <typename D> drv::raw table(D const &d) {
  std::string r = "[";
  for (auto const &[k, v] : d) {
    if (r.size() > 1) r += ",";
    std::vector<long> m;
    std::apply([&](auto const &...x) { (m.push_back(mode(x)), ...); }, k);
    r += "[" + drv::js(m) + "," + num(v) + "]";
  }
  return {r + "]"};
}
template <typename A> drv::raw flat(A const &a) {
  std::string r = "[";
  nda::for_each(a.shape(), [&](auto... i) { r += (r.size() > 1 ? ",[" : "[") + num(a(i...)) + "]"; });
  return {r + "]"};
}
template <typename F> bool throws(F f) {
  try { f(); } catch (triqs::exception const &) { return true; }
  return false;
}
template <typename S> S sc(J const &o) {
  if constexpr (std::is_same_v<S, double>) return o[1].d();
  else if constexpr (std::is_same_v<S, dcomplex>) return dcomplex(o[1].d(), o[2].d());
  else return o[2].l() == 0 && o[3].t() ? real_or_complex(o[1].d()) : real_or_complex(dcomplex(o[1].d(), o[2].d()));
}
template <typename S> void run(J const &o) {
  using Op = many_body_operator_generic<S>;
  Op H;
  for (auto const &t : o["terms"].a) {
    Op m = Op(sc<S>(t));
    for (auto x : t[0].longs()) m = m * Op::make_canonical(x > 0, names[std::abs(x) - 1]);
    H += m;
  }
  bool ign = o["ign"].t();
  dict2_t<S> h, u2; dict4_t<S> u4;
  bool th = throws([&] { h = extract_h_dict(H, ign); }), t2 = throws([&] { u2 = extract_U_dict2(H, ign); }), t4 = throws([&] { u4 = extract_U_dict4(H, ign); });
  // with the default argument nothing irrelevant is tolerated
  bool dh = throws([&] { extract_h_dict(H); }), d2 = throws([&] { extract_U_dict2(H); }), d4 = throws([&] { extract_U_dict4(H); });
  E("Extract")("src", terms(H))("ign", ign)("h", table(h))("th", th)("u2", table(u2))("t2", t2)("u4", table(u4))("t4", t4)("dh", dh)("d2", d2)("d4", d4);
  E("Filter")("src", terms(H))("quad", terms(quadratic_terms(H)))("quart", terms(quartic_terms(H)))("k", o["k"].l())("len", terms(filter_op(H, o["k"].l())));
  // the matrix of a table over a set of operators
  fundamental_operator_set fs;
  for (auto k : o["fs"].longs()) fs.insert_from_indices_t(names[k - 1]);
  std::vector<long> order;
  for (auto const &t : fs.data()) order.push_back(mode(t));
  auto mats = [&](char const *w, auto const &d) {
    std::vector<long> shape;
    drv::raw fl{"[]"};
    bool cx = false, realT = true;
    auto put = [&](auto const &a) { shape.assign(a.shape().begin(), a.shape().end()); fl = flat(a); };
    bool t = throws([&] {
      if constexpr (std::is_same_v<S, real_or_complex>) {
        auto v = dict_to_variant_matrix(d, fs);
        cx = v.index() == 1;
        std::visit(put, v);
      } else { cx = std::is_same_v<S, dcomplex>; put(dict_to_matrix<S>(d, fs)); }
    });
    if constexpr (std::is_same_v<S, real_or_complex>) { for (auto const &kv : d) realT = realT && kv.second.is_real(); } else realT = !cx || t;
    E("Matrix")("w", w)("d", table(d))("order", order)("thrown", t)("cx", cx)("realT", realT)("shape", shape)("flat", fl);
  };
  if (o["ranks"].l() & 1) mats("h", h);
  if (o["ranks"].l() & 2) mats("u2", u2);
  if (o["ranks"].l() & 4) mats("u4", u4);
  if constexpr (not std::is_same_v<S, real_or_complex>) if (o.has("gf")) {
    triqs::hilbert_space::gf_struct_t g;
    for (auto const &b : o["gf"].a) g.emplace_back(b[0].s, b[1].l());
    nda::array<nda::matrix<S>, 1> M;
    bool bt = throws([&] { M = block_matrix_from_op(H, g, ign); }), bd = throws([&] { block_matrix_from_op(H, g); });
    std::string bl = "[";
    Op back;
    if (!bt) { for (auto const &m : M) bl += (bl.size() > 1 ? "," : "") + flat(m).s; back = op_from_block_matrix(M, g); }
    std::vector<std::vector<long>> gm;   // the modes of each block
    for (auto const &[n_, s_] : g) { gm.emplace_back(); for (long i = 0; i < s_; ++i) gm.back().push_back(mode({n_, i})); }
    E("Blocks")("src", terms(H))("ign", ign)("gm", gm)("thrown", bt)("bd", bd)("M", drv::raw{bl + "]"})("back", terms(back));
  }
}
int main() {
  return drv::main_loop([](J const &h) {
    E("Reset")("kind", "extract");
    for (auto const &o : h["ops"].a) {
      names.clear();
      for (auto const &t : o["names"].a) names.push_back(ind(t));
      auto const &s = o["scalar"].s;
      if (s == "double") run<double>(o); else if (s == "complex") run<dcomplex>(o); else run<real_or_complex>(o);
    }
  });
}
