// Meshes: indices, data positions, values, closest points and evaluation (triqs/mesh/*.hpp).
#include "drv.hpp"
#include "rat.hpp"
#include <h5/h5.hpp>
#include <optional>
#include <mutex>
#include <variant>
#include <triqs/mesh/imfreq.hpp>
#include <triqs/mesh/imtime.hpp>
#include <triqs/mesh/retime.hpp>
#include <triqs/mesh/refreq.hpp>
#include <triqs/mesh/legendre.hpp>
#include <triqs/mesh/discrete.hpp>
#include <triqs/mesh/cyclat.hpp>
#include <triqs/mesh/brzone.hpp>
#include <triqs/mesh/prod.hpp>
#include <triqs/mesh/evaluate.hpp>
using namespace triqs::mesh;
using triqs::lattice::bravais_lattice;
using triqs::lattice::brillouin_zone;
using drv::VL;
using P1 = prod<imfreq, imtime>;
using P2 = prod<brzone, imfreq>;
using P3 = prod<imfreq, cyclat, discrete>;
using P4 = prod<legendre, brzone>;
using P5 = prod<imtime, imtime>;
using P6 = prod<cyclat, retime>;
using MV = std::variant<imfreq, imtime, retime, refreq, legendre, discrete, cyclat, brzone, P1, P2, P3, P4, P5, P6>;

static double q(J const &j) { return double(j[0].l()) / double(j[1].l()); }
static drv::raw jraw(J const &j) {
  if (j.k == J::Arr) { std::string s = "["; for (auto &x : j.a) s += (s.size() > 1 ? "," : "") + jraw(x).s; return {s + "]"}; }
  if (j.k == J::Obj) { std::string s = "{"; for (auto &[k, x] : j.o) s += (s.size() > 1 ? "," : "") + drv::quote(k) + ":" + jraw(x).s; return {s + "}"}; }
  if (j.k == J::Str) return {drv::quote(j.s)};
  if (j.k == J::Bool) return {j.b ? "true" : "false"};
  return {std::to_string(j.l())};
}
// an index or position as a list of integers
static void flat(VL &o, long x) { o.push_back(x); }
static void flat(VL &o, std::array<long, 3> const &x) { o.insert(o.end(), x.begin(), x.end()); }
template <typename... T> static void flat(VL &o, std::tuple<T...> const &t) { std::apply([&](auto const &...x) { (flat(o, x), ...); }, t); }
template <typename T> static VL flat(T const &x) { VL o; flat(o, x); return o; }
static void unflat(VL const &v, size_t &p, long &x) { x = v.at(p++); }
static void unflat(VL const &v, size_t &p, std::array<long, 3> &x) { for (auto &y : x) y = v.at(p++); }
template <typename... T> static void unflat(VL const &v, size_t &p, std::tuple<T...> &t) { std::apply([&](auto &...x) { (unflat(v, p, x), ...); }, t); }
template <typename T> static T unflat(VL const &v) { T x; size_t p = 0; unflat(v, p, x); return x; }
static std::string pl(VL const &v) { return drv::list({v}).substr(1, drv::list({v}).size() - 2); }

static bravais_lattice lat(J const &u) {
  long n = long(u.a.size());
  nda::matrix<double> m(n, n);
  for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) m(i, j) = double(u.a[i].a[j].l());
  return bravais_lattice{m};
}
static statistic_enum st(J const &p) { return p["s"].s == "F" ? Fermion : Boson; }
static MV make(J const &p) {
  auto t = p["t"].s;
  if (t == "imfreq") return imfreq(q(p["beta"]), st(p), p["n"].l(), p["pos"].t() ? imfreq::option::positive_frequencies_only : imfreq::option::all_frequencies);
  if (t == "imtime") return imtime(q(p["beta"]), st(p), p["n"].l());
  if (t == "retime") return p["win"].t() ? retime(std::pair{q(p["a"]), q(p["b"])}, int(p["n"].l())) : retime(q(p["a"]), q(p["b"]), p["n"].l());
  if (t == "refreq") return p["win"].t() ? refreq(std::pair{q(p["a"]), q(p["b"])}, int(p["n"].l())) : refreq(q(p["a"]), q(p["b"]), p["n"].l());
  if (t == "legendre") return legendre(q(p["beta"]), st(p), p["n"].l());
  if (t == "discrete") return discrete(p["n"].l());
  auto d = p["d"].longs();
  std::array<long, 3> dims{d[0], d[1], d[2]};
  auto how = p["how"].s;
  nda::matrix<long> pm(3, 3);
  pm() = 0;
  for (int i = 0; i < 3; ++i) pm(i, i) = d[i];
  if (t == "cyclat") {
    if (how == "n") return cyclat(lat(p["u"]), d[0]);
    if (how == "pm") return cyclat(lat(p["u"]), pm);
    if (how == "cubic") return cyclat(d[0], d[1], d[2]);
    return cyclat(lat(p["u"]), dims);
  }
  if (how == "n") return brzone(brillouin_zone{lat(p["u"])}, d[0]);
  if (how == "pm") return brzone(brillouin_zone{lat(p["u"])}, pm);
  return brzone(brillouin_zone{lat(p["u"])}, dims);
}

// values: Matsubara frequencies in units of pi, momenta in units of 2 pi
static std::vector<VL> vec(nda::vector<double> const &v, double unit = 1) { std::vector<VL> o; for (auto x : v) o.push_back(drv::rat(x / unit)); return o; }
template <typename M> static std::vector<VL> value(M const &m, typename M::mesh_point_t const &mp) {
  if constexpr (std::is_same_v<M, imfreq>) return {drv::rat(dcomplex(mp).real()), drv::rat(dcomplex(mp.value()).imag() / M_PI)};
  else if constexpr (std::is_same_v<M, cyclat>) return vec(nda::vector<double>(mp.value()));
  else if constexpr (std::is_same_v<M, brzone>) return vec(mp.value(), 2 * M_PI);
  else if constexpr (requires { mp.value(); }) return {drv::rat(mp.value())};
  else return {};
}
template <typename M> static std::vector<VL> ivalue(M const &m, typename M::index_t const &i) {
  if constexpr (std::is_same_v<M, imfreq>) return {drv::rat(dcomplex(m.to_value(i)).real()), drv::rat(dcomplex(m.to_value(i)).imag() / M_PI)};
  else if constexpr (std::is_same_v<M, cyclat>) return vec(nda::vector<double>(m.to_value(i)));
  else if constexpr (std::is_same_v<M, brzone>) return vec(m.to_value(i), 2 * M_PI);
  else if constexpr (requires { m.to_value(i); }) return {drv::rat(m.to_value(i))};
  else return {};
}

template <typename M> static void obs(long id, M const &m, bool vals) {
  std::string pts = "[", vs = "[";
  bool hash = true;
  for (auto const &mp : m) {
    auto i = mp.index();
    auto d = mp.data_index();
    auto a = m[d];
    auto b = m(i);
    if (pts.size() > 1) pts += ",";
    pts += "[" + pl(flat(i)) + "," + pl(flat(d)) + "," + pl(flat(m.to_index(d))) + "," + pl(flat(m.to_data_index(i))) + "," + pl(flat(a.index())) + "," + pl(flat(a.data_index())) + "," + pl(flat(b.index())) + "," + pl(flat(b.data_index())) + "]";
    if constexpr (requires { m.mesh_hash(); }) hash = hash && mp.mesh_hash() == m.mesh_hash() && a.mesh_hash() == m.mesh_hash() && b.mesh_hash() == m.mesh_hash();
    if constexpr (!is_product<M>) if (vals) {
      if (vs.size() > 1) vs += ",";
      vs += "[" + drv::list(value(m, mp)) + "," + drv::list(value(m, b)) + "," + drv::list(ivalue(m, i)) + "]";
    }
  }
  E e("Obs");
  e("id", id)("size", long(m.size()))("pts", drv::raw{pts + "]"})("hash", hash)("hasvals", vals && !is_product<M>)("vals", drv::raw{vs + "]"});
  VL c;
  if constexpr (is_product<M>) { for (auto x : m.size_of_components()) c.push_back(x); } else c.push_back(m.size());
  e("comp", c);
  VL ends;
  if constexpr (requires { m.first_index(); }) ends = {m.first_index(), m.last_index()};
  e("ends", ends);
}
// the single meshes of a product
template <typename F, typename M> static void each(M const &m, F f) {
  if constexpr (is_product<M>) std::apply([&](auto const &...x) { (f(x), ...); }, m.components()); else f(m);
}
// arguments of an evaluation: [kind, ...]
using arg1 = nda::vector<double>;
template <typename M, typename K> static void with_arg(std::map<long, MV> const &all, M const &m, J const &a, K k) {
  auto kind = a[0].s;
  if (kind == "of") return k(std::get<M>(all.at(a[1].l()))[a[2].l()]); // a point of another mesh
  if (kind == "pt") return k(m[a[1].l()]);
  if (kind == "idx") return k(unflat<typename M::index_t>(a[1].longs()));
  if constexpr (std::is_same_v<M, imfreq>) return k(matsubara_freq{a[1].l(), m.beta(), m.statistic()});
  else if constexpr (std::is_same_v<M, brzone>) {
    arg1 v(3);
    for (int i = 0; i < 3; ++i) v(i) = 2 * M_PI * q(a[1].a[i]);
    if (kind == "close") return k(closest_mesh_pt(v));
    return k(v);
  } else if constexpr (std::is_same_v<M, cyclat>) {
    bravais_lattice::point_t p{unflat<std::array<long, 3>>(a[1].longs()), &m.lattice()};
    return k(p);
  } else if constexpr (std::is_base_of_v<details::linear<M, double>, M>) {
    if (kind == "close") return k(closest_mesh_pt(q(a[1])));
    return k(q(a[1]));
  } else if constexpr (std::is_same_v<M, legendre>) return k(q(a[1]) * m.beta());
}
template <typename M> static void eval(std::map<long, MV> const &all, long id, M const &m, J const &o) {
  auto const &x = o["x"];
  std::vector<double> dat;
  for (auto &x : o["f"].a) dat.push_back(double(x.l()));
  auto at = [&](auto const &...i) -> double { // row-major data
    long pos = 0;
    std::vector<long> sz;
    each(m, [&](auto const &x) { sz.push_back(x.size()); });
    size_t c = 0;
    double nrm = 1;
    auto step = [&](auto const &mm, auto const &ix) {
      long d;
      if constexpr (requires { ix.data_index(); }) d = ix.data_index(); else d = mm.to_data_index(ix);
      if (d < 0 || d >= sz[c]) throw std::runtime_error("data position out of range");
      if (std::is_same_v<std::decay_t<decltype(mm)>, legendre> && x.a[c].a[0].s == "val") nrm = std::sqrt(2. * double(d) + 1);
      pos = pos * sz[c++] + d;
    };
    if constexpr (is_product<M>) std::apply([&](auto const &...x) { (step(x, i), ...); }, m.components()); else (step(m, i), ...);
    return dat.at(pos) / nrm;
  };
  double r = 0;
  if constexpr (!is_product<M>) {
    with_arg(all, m, x[0], [&](auto const &a) { if constexpr (requires { evaluate(m, at, a); }) r = evaluate(m, at, a); });
  } else if constexpr (std::tuple_size_v<M> == 2) {
    with_arg(all, std::get<0>(m.components()), x[0], [&](auto const &a) {
      with_arg(all, std::get<1>(m.components()), x[1], [&](auto const &b) { if constexpr (requires { evaluate(m, at, a, b); }) r = evaluate(m, at, a, b); });
    });
  }
  E("Eval")("id", id)("f", o["f"].longs())("x", jraw(x))("r", drv::rat(r));
}
template <typename M> static void closest(std::map<long, MV> const &all, long id, M const &m, J const &o) {
  if constexpr (!is_product<M>)
    with_arg(all, m, o["x"], [&](auto const &a) {
      if constexpr (requires { m.to_index(a); m.to_data_index(a); a.value; })
        E("Closest")("id", id)("x", jraw(o["x"]))("i", flat(m.to_index(a)))("d", flat(m.to_data_index(a)))("p", flat(m[m.to_data_index(a)].index()));
    });
}
static void kexpr(long id, brzone const &m, J const &o) {
  auto a = m[o["a"].l()], b = m[o["b"].l()], c = m[o["c"].l()];
  long n = o["n"].l();
  std::vector<double> dat;
  for (auto &x : o["f"].a) dat.push_back(double(x.l()));
  auto f = [&](brzone::index_t const &i) { return dat.at(m.to_data_index(i)); };
  std::string s = "[";
  auto put = [&](auto const &e) { auto idx = m.index_modulo(e.index()); auto v = nda::make_regular(e.value()); s += (s.size() > 1 ? "," : "") + std::string("[") + pl(flat(idx)) + "," + std::to_string(m.to_data_index(e)) + "," + drv::list(vec(v, 2 * M_PI)) + "," + pl(drv::rat(evaluate(m, f, e))) + "," + pl(flat(m.closest_index(e))) + "]"; };
  put(a + b);
  put(a - b);
  put(-a);
  put(n * a);
  put(a + b - c);
  put(n * (a - b) + c);
  put(-(a - n * b));
  E("KExpr")("id", id)("a", o["a"].l())("b", o["b"].l())("c", o["c"].l())("n", n)("f", o["f"].longs())("r", drv::raw{s + "]"});
}
template <typename P> static bool try_prod(std::map<long, MV> &d, J const &o, long id) {
  return [&]<typename... Ms>(std::type_identity<prod<Ms...>>) {
    auto ids = o["a"].longs();
    if (ids.size() != sizeof...(Ms)) return false;
    return [&]<size_t... I>(std::index_sequence<I...>) {
      if (!(std::holds_alternative<Ms>(d.at(ids[I])) && ...)) return false;
      std::tuple<Ms...> t{std::get<Ms>(d.at(ids[I]))...};
      auto how = o["how"].l();
      std::optional<P> p;
      if (how == 0) p = P{std::get<I>(t)...};
      else if (how == 1) p = P{t};
      else if constexpr (sizeof...(Ms) == 2) p = std::get<0>(t) * std::get<1>(t);
      else if (how == 2) p = (std::get<0>(t) * std::get<1>(t)) * std::get<2>(t);
      else p = std::get<0>(t) * (std::get<1>(t) * std::get<2>(t));
      d[id] = *p;
      return true;
    }(std::index_sequence_for<Ms...>{});
  }(std::type_identity<P>{});
}
static void run(J const &h) {
  std::map<long, MV> d;
  E("Reset")("w", 1l);
  for (auto const &o : h["ops"].a) {
    auto op = o["op"].s;
    long id = o["id"].l(), j = o["j"].l(), k = o["k"].l();
    if (op == "new") { d[id] = make(o["p"]); E("New")("id", id)("p", jraw(o["p"])); }
    else if (op == "prod") {
      if (!(try_prod<P1>(d, o, id) || try_prod<P2>(d, o, id) || try_prod<P3>(d, o, id) || try_prod<P4>(d, o, id) || try_prod<P5>(d, o, id) || try_prod<P6>(d, o, id))) throw std::runtime_error("no such product");
      E("Prod")("id", id)("a", o["a"].longs());
    } else if (op == "copy") {
      if (o["how"].l() && d.count(id)) { auto c = d.at(j); d[id] = c; } else { MV c{d.at(j)}; d.erase(id); d.emplace(id, c); }
      E("Copy")("id", id)("j", j);
    } else if (op == "h5") {
      std::visit([&](auto &m) {
        using M = std::decay_t<decltype(m)>;
        h5::file fl("m.h5", 'w');
        h5_write(h5::group(fl), "m", m);
        M r = m;
        if (o["how"].l() == 0) r = M{};
        else if (d.count(k) && std::holds_alternative<M>(d.at(k))) r = std::get<M>(d.at(k));
        h5_read(h5::group(fl), "m", r);
        d[id] = r;
      }, d.at(j));
      E("Copy")("id", id)("j", j);
    } else if (op == "eq") {
      if (d.at(j).index() == d.at(k).index())
        std::visit([&](auto const &m) { using M = std::decay_t<decltype(m)>; auto const &n = std::get<M>(d.at(k)); E("Eq")("j", j)("k", k)("r", m == n)("nr", m != n); }, d.at(j));
    } else if (op == "pos") {
      auto p = std::get<imfreq>(d.at(j)).get_positive_freq();
      d[id] = p;
      E("Positive")("id", id)("j", j);
    } else if (op == "valid")
      std::visit([&](auto const &m) {
        using M = std::decay_t<decltype(m)>;
        E e("Valid");
        std::string s = "[";
        for (auto &x : o["x"].a) {
          auto ix = unflat<typename M::index_t>(x.longs());
          s += (s.size() > 1 ? "," : "") + std::string(m.is_index_valid(ix) ? "true" : "false");
        }
        e("id", id)("x", jraw(o["x"]))("r", drv::raw{s + "]"});
      }, d.at(id));
    else if (op == "eval") std::visit([&](auto const &m) { eval(d, id, m, o); }, d.at(id));
    else if (op == "close") std::visit([&](auto const &m) { closest(d, id, m, o); }, d.at(id));
    else if (op == "kexpr") kexpr(id, std::get<brzone>(d.at(id)), o);
    if (op == "obs" || o["obs"].t()) std::visit([&](auto const &m) { obs(id, m, h["vals"].t()); }, d.at(id));
  }
}
int main() { return drv::main_loop(run); }
