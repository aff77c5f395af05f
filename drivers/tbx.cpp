// Bravais lattices, Brillouin zones and tight-binding models (triqs/lattice).
#include "drv.hpp"
#include "rat.hpp"
#include <h5/h5.hpp>
#include <optional>
#include <variant>
#include <triqs/lattice/tight_binding.hpp>
namespace triqs::lattice {
  nda::array<dcomplex, 3> hopping_stack(tight_binding const &TB, nda::array_const_view<double, 2> k_stack);
  nda::array<double, 2> energies_on_bz_path(tight_binding const &TB, k_t const &K1, k_t const &K2, int n_pts);
  nda::array<dcomplex, 3> energy_matrix_on_bz_path(tight_binding const &TB, k_t const &K1, k_t const &K2, int n_pts);
  nda::array<double, 2> energies_on_bz_grid(tight_binding const &TB, int n_pts);
}
using namespace triqs::lattice;
using dcomplex = std::complex<double>;
using drv::VL;
using Obj = std::variant<bravais_lattice, brillouin_zone, tight_binding>;
static double q(J const &j) { return double(j[0].l()) / double(j[1].l()); }
static drv::raw jraw(J const &j) {
  if (j.k == J::Arr) { std::string s = "["; for (auto &x : j.a) s += (s.size() > 1 ? "," : "") + jraw(x).s; return {s + "]"}; }
  if (j.k == J::Obj) { std::string s = "{"; for (auto &[k, x] : j.o) s += (s.size() > 1 ? "," : "") + drv::quote(k) + ":" + jraw(x).s; return {s + "}"}; }
  if (j.k == J::Str) return {drv::quote(j.s)};
  if (j.k == J::Bool) return {j.b ? "true" : "false"};
  return {std::to_string(j.l())};
}
template <typename R, typename F> static drv::raw jlist(R const &r, F f) {
  std::string s = "[";
  for (auto const &x : r) s += (s.size() > 1 ? "," : "") + f(x);
  return {s + "]"};
}
static std::string fix(double x) { return std::isfinite(x) && std::fabs(x) < 2000 ? std::to_string(std::lround(x * 1e6)) : "2000000001"; }
static std::string pl(VL const &v) { std::string s = "["; for (auto x : v) s += (s.size() > 1 ? "," : "") + std::to_string(x); return s + "]"; }
static std::string rt(double x) { return pl(drv::rat(x)); }
template <typename V> static std::string rvec(V const &v, double unit = 1) {
  std::string s = "[";
  for (long i = 0; i < long(v.size()); ++i) s += (i ? "," : "") + rt(v[i] / unit);
  return s + "]";
}
template <typename M> static std::string cmat(M const &m) {
  std::string s = "[";
  for (long i = 0; i < m.shape()[0]; ++i) {
    s += i ? ",[" : "[";
    for (long j = 0; j < m.shape()[1]; ++j) s += (j ? ",[" : "[") + fix(std::real(dcomplex(m(i, j)))) + "," + fix(std::imag(dcomplex(m(i, j)))) + "]";
    s += "]";
  }
  return s + "]";
}
static r_t vec3(J const &j) { r_t r(3); for (int i = 0; i < 3; ++i) r(i) = q(j.a[i]); return r; }
static nda::vector<double> kvec(J const &j, long n) { nda::vector<double> r(n); for (long i = 0; i < n; ++i) r(i) = double(j.a[i].l()) / 24; return r; }
static std::array<long, 3> i3(J const &j) { auto v = j.longs(); return {v[0], v[1], v[2]}; }
static bravais_lattice lat(J const &o) {
  auto &u = o["u"].a;
  long n = long(u.size());
  nda::matrix<double> m(n, n);
  for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) m(i, j) = double(u[i].a[j].l());
  std::vector<r_t> pos;
  std::vector<std::string> nm;
  for (auto &x : o["pos"].a) pos.push_back(vec3(x));
  for (auto &x : o["nm"].a) nm.push_back(x.s);
  return o["defnames"].t() ? bravais_lattice{m, pos} : bravais_lattice{m, pos, nm};
}
static void obs(int id, Obj &x) {
  E e("Obs");
  e("id", id);
  bravais_lattice bl = std::visit([](auto &o) -> bravais_lattice { if constexpr (requires { o.lattice(); }) return o.lattice(); else return o; }, x);
  e("kind", std::string(x.index() == 0 ? "bl" : x.index() == 1 ? "bz" : "tb"))("ndim", bl.ndim())("norb", bl.n_orbitals());
  std::string s = "[", g = "[";
  for (int i = 0; i < bl.ndim(); ++i) s += (i ? "," : "") + rvec(bl.units()(i, nda::range(bl.ndim())));
  for (int i = 0; i < 3; ++i) { nda::vector<double> gr(3); for (int j = 0; j < 3; ++j) { gr(j) = 0; for (int k = 0; k < 3; ++k) gr(j) += bl.units()(i, k) * bl.units()(j, k); } g += (i ? "," : "") + rvec(gr); }
  e("u", drv::raw{s + "]"})("gram", drv::raw{g + "]"});
  e("pos", jlist(bl.orbital_positions(), [](auto &p) { return rvec(p); }))("nm", jlist(bl.orbital_names(), [](auto &n) { return drv::quote(n); }));
  std::string dual = "[", k = "[";
  if (x.index() == 1) {
    auto &bz = std::get<1>(x);
    for (int i = 0; i < bz.ndim(); ++i) k += (i ? "," : "") + rvec(bz.units()(i, nda::range(3)), 2 * M_PI);
    for (int i = 0; i < 3; ++i) { nda::vector<double> gr(3); for (int j = 0; j < 3; ++j) { gr(j) = 0; for (int l = 0; l < 3; ++l) gr(j) += bz.reciprocal_matrix()(i, l) * bl.units()(j, l) / (2 * M_PI); } dual += (i ? "," : "") + rvec(gr); }
    if (bz.ndim() != bl.ndim()) dual += ",0";
  }
  e("k", drv::raw{k + "]"})("dual", drv::raw{dual + "]"});
  std::string h = "[";
  if (x.index() == 2) {
    auto &tb = std::get<2>(x);
    std::string h2 = "[";
    for (size_t i = 0; i < tb.displ_vec().size(); ++i) {
      VL d; for (long j = 0; j < tb.displ_vec()[i].size(); ++j) d.push_back(tb.displ_vec()[i](j));
      h += std::string(i ? "," : "") + "{\"r\":" + pl(d) + ",\"m\":" + cmat(tb.overlap_mat_vec()[i]) + "}";
    }
    int n = 0;
    foreach (tb, [&](auto const &d, auto const &m) { VL v; for (long j = 0; j < d.size(); ++j) v.push_back(d(j)); h2 += std::string(n++ ? "," : "") + "{\"r\":" + pl(v) + ",\"m\":" + cmat(m) + "}"; });
    if (h2 != h) h += ",{}";
  }
  e("h", drv::raw{h + "]"});
}
static std::string point(bravais_lattice::point_t const &p) {
  auto i = p.index();
  r_t r = r_t(p);
  bool ok = r_t(p) == r;
  for (int d = 0; d < 3; ++d) ok = ok && p[d] == r(d);
  return "{\"i\":" + pl(VL{i[0], i[1], i[2]}) + ",\"r\":" + rvec(r) + ",\"ok\":" + (ok ? "true" : "false") + "}";
}
static nda::array<double, 2> karr(J const &o, bool transposed) {
  auto &ks = o["ks"].a;
  long n = long(ks.size()), m = o["len"].l();
  nda::array<double, 2> a(transposed ? m : n, transposed ? n : m);
  for (long i = 0; i < n; ++i) for (long j = 0; j < m; ++j) (transposed ? a(j, i) : a(i, j)) = double(ks[i].a[j].l()) / 24;
  return a;
}
static nda::vector<double> evec(auto const &v) { nda::vector<double> r(v.size()); for (long i = 0; i < v.size(); ++i) r(i) = v(i); return r; }
template <typename V> static std::string fvec(V const &v) { std::string s = "["; for (long i = 0; i < long(v.size()); ++i) s += (i ? "," : "") + fix(v(i)); return s + "]"; }
static drv::raw fourier(tight_binding const &tb, J const &o) {
  auto via = o["via"].s;
  std::string s = "[";
  auto add = [&](std::string const &x) { s += (s.size() > 1 ? "," : "") + x; };
  auto R = nda::range::all;
  if (via == "one") for (auto &k : o["ks"].a) add(cmat(tb.fourier(kvec(k, o["len"].l()))));
  else if (via == "array") { auto r = tb.fourier(karr(o, false)); for (long i = 0; i < r.shape()[0]; ++i) add(cmat(r(i, R, R))); }
  else if (via == "stack") { auto r = hopping_stack(tb, karr(o, true)); for (long i = 0; i < r.shape()[2]; ++i) add(cmat(r(R, R, i))); }
  else if (via == "path") { auto r = energy_matrix_on_bz_path(tb, kvec(o["K1"], 3), kvec(o["K2"], 3), o["n"].l()); for (long i = 0; i < r.shape()[2]; ++i) add(cmat(r(R, R, i))); }
  else {
    auto g = via == "n" ? tb.fourier(int(o["n"].l())) : tb.fourier(triqs::mesh::brzone(brillouin_zone{tb.lattice()}, i3(o["d"])));
    bool same = true;
    long p = 0;
    for (auto k : g.mesh()) { auto m = cmat(g[k]); if (m != cmat(g.data()(p++, R, R))) same = false; add(m); }
    if (!same) add("[]");
  }
  return {s + "]"};
}
static drv::raw energies(tight_binding const &tb, J const &o) {
  auto via = o["via"].s;
  std::string s = "[";
  auto add = [&](std::string const &x) { s += (s.size() > 1 ? "," : "") + x; };
  auto R = nda::range::all;
  if (via == "one") for (auto &k : o["ks"].a) add(fvec(tb.dispersion(kvec(k, o["len"].l()))));
  else if (via == "array") { auto r = tb.dispersion(karr(o, false)); for (long i = 0; i < r.shape()[0]; ++i) add(fvec(r(i, R))); }
  else if (via == "path") { auto r = energies_on_bz_path(tb, kvec(o["K1"], 3), kvec(o["K2"], 3), o["n"].l()); for (long i = 0; i < r.shape()[1]; ++i) add(fvec(r(R, i))); }
  else if (via == "grid") { auto r = energies_on_bz_grid(tb, o["n"].l()); for (long i = 0; i < r.shape()[1]; ++i) add(fvec(r(R, i))); }
  else {
    auto g = via == "n" ? tb.dispersion(int(o["n"].l())) : tb.dispersion(triqs::mesh::brzone(brillouin_zone{tb.lattice()}, i3(o["d"])));
    for (auto k : g.mesh()) add(fvec(g[k]));
  }
  return {s + "]"};
}
int main() {
  return drv::main_loop([](J const &H) {
    E("Reset");
    std::map<int, Obj> ls;
    std::map<int, int> kept;
    h5::file file("x", 'w');
    int nh = 0;
    for (auto &o : H["ops"].a) {
      auto op = o["op"].s;
      int id = int(o["id"].l()), j = int(o["j"].l());
      bool changed = true;
      auto put = [&](Obj x) { ls.erase(id); ls.emplace(id, std::move(x)); };
      if (op != "bl" && !(op == "bz" && o.has("def")) && !ls.count(j)) continue;
      if (op == "bl") {
        bool ok = true;
        try { auto b = o.has("def") ? bravais_lattice{} : lat(o); put(b); } catch (triqs::runtime_error const &) { ok = false; }
        E("NewLattice")("id", id)("u", jraw(o["u"]))("pos", jraw(o["pos"]))("nm", jraw(o["nm"]))("ok", ok);
        changed = ok;
      } else if (op == "bz" && o.has("def")) {
        // the default zone is that of the default lattice
        put(brillouin_zone{});
        E("NewLattice")("id", id)("u", jraw(o["u"]))("pos", jraw(o["pos"]))("nm", jraw(o["nm"]))("ok", true);
        E("NewZone")("id", id)("j", id);
      } else if (op == "bz") {
        if (ls.at(j).index() != 0) continue;
        put(brillouin_zone{std::get<0>(ls.at(j))});
        E("NewZone")("id", id)("j", j);
      } else if (op == "tb") {
        if (ls.at(j).index() != 0) continue;
        std::vector<nda::vector<long>> d;
        std::vector<nda::matrix<dcomplex>> m;
        for (auto &t : o["h"].a) {
          auto v = t["r"].longs();
          nda::vector<long> r(v.size());
          for (size_t i = 0; i < v.size(); ++i) r(i) = v[i];
          d.push_back(r);
          auto &ma = t["m"].a;
          nda::matrix<dcomplex> mm(long(ma.size()), long(ma.at(0).size()));
          for (long a = 0; a < mm.shape()[0]; ++a) for (long b = 0; b < mm.shape()[1]; ++b) mm(a, b) = dcomplex(double(ma[a].a[b].a[0].l()), double(ma[a].a[b].a[1].l()));
          m.push_back(mm);
        }
        for (long i = long(m.size()); i < o["nm"].l(); ++i) m.push_back(m.empty() ? nda::matrix<dcomplex>(1, 1) : m[0]);
        m.resize(o["nm"].l());
        bool ok = true;
        try { auto t = tight_binding{std::get<0>(ls.at(j)), d, m}; put(t); } catch (triqs::runtime_error const &) { ok = false; }
        E("NewModel")("id", id)("j", j)("h", jraw(o["h"]))("nm", o["nm"].l())("ok", ok);
        changed = ok;
      } else if (op == "copy") {
        auto how = o["how"].l();
        if (how == 0) put(Obj(ls.at(j)));
        else if (how == 1) { Obj c(ls.at(j)); Obj d(std::move(c)); put(d); }
        else {
          auto nm = "x" + std::to_string(nh++);
          h5::group g(file);
          std::visit([&](auto const &x) { h5_write(g, nm, x); }, ls.at(j));
          if (ls.at(j).index() == 0) {
            bravais_lattice b;
            if (how == 3 && ls.count(id) && ls.at(id).index() == 0) b = std::get<0>(ls.at(id));
            h5_read(g, nm, b);
            put(b);
          } else if (ls.at(j).index() == 1) {
            brillouin_zone b;
            if (how == 3 && ls.count(id) && ls.at(id).index() == 1) b = std::get<1>(ls.at(id));
            h5_read(g, nm, b);
            put(b);
          } else put(tight_binding::h5_read_construct(g, nm));
        }
        E("Copy")("id", id)("j", j);
      } else if (op == "eq") {
        changed = false;
        int k = int(o["k"].l());
        if (!ls.count(k) || ls.at(j).index() != ls.at(k).index()) continue;
        bool r = ls.at(j) == ls.at(k);
        bool ne = std::visit([&](auto const &x) { return x != std::get<std::decay_t<decltype(x)>>(ls.at(k)); }, ls.at(j));
        E("Eq")("j", j)("k", k)("r", r)("nr", ne);
      } else if (op == "conv") {
        changed = false;
        auto &x = ls.at(j);
        auto inv = o["inv"].t();
        if (inv && x.index() == 2) continue;
        auto r = jlist(o["x"].a, [&](J const &v) {
          r_t a = vec3(v);
          if (x.index() == 1) {
            auto &bz = std::get<1>(x);
            if (o["len"].l() < 3) { r_t b(bz.ndim()); for (long i = 0; i < b.size(); ++i) b(i) = a(i); a = b; }
            if (inv) { a *= 2 * M_PI; return rvec(bz.real_to_lattice_coordinates(a)); }
            return rvec(bz.lattice_to_real_coordinates(a), 2 * M_PI);
          }
          if (x.index() == 2) return rvec(std::get<2>(x).lattice_to_real_coordinates(a));
          return rvec(inv ? std::get<0>(x).real_to_lattice_coordinates(a) : std::get<0>(x).lattice_to_real_coordinates(a));
        });
        E("Conv")("j", j)("inv", inv)("x", jraw(o["x"]))("r", r);
      } else if (op == "pt") {
        changed = false;
        if (ls.at(j).index() != 0) continue;
        auto &bl = std::get<0>(ls.at(j));
        bravais_lattice::point_t a{i3(o["a"]), &bl}, b{i3(o["b"]), &bl};
        if (o["warm"].t()) { (void)r_t(a); (void)r_t(b); }
        auto s = a + b, d = a - b, n = -a, c = a;
        E("Point")("j", j)("a", jraw(o["a"]))("b", jraw(o["b"]))("r", drv::raw{"[" + point(a) + "," + point(b) + "," + point(s) + "," + point(d) + "," + point(n) + "," + point(c) + "]"});
      } else if (op == "fourier" || op == "disp") {
        changed = false;
        if (ls.at(j).index() != 2) continue;
        auto &tb = std::get<2>(ls.at(j));
        E e(op == "fourier" ? "Fourier" : "Energies");
        e("j", j)("via", o["via"].s);
        for (auto k : {"ks", "K1", "K2", "d"}) if (o.has(k)) e(k, jraw(o[k]));
        e("n", o["n"].l())("r", op == "fourier" ? fourier(tb, o) : energies(tb, o));
      } else if (op == "dos" || op == "patch") {
        changed = false;
        if (ls.at(j).index() != 2) continue;
        auto &tb = std::get<2>(ls.at(j));
        int nb = int(o["nb"].l());
        E e(op == "dos" ? "Dos" : "Patch");
        bool ok = true;
        try {
          if (op == "dos") {
            auto [eps, rho] = dos(tb, int(o["n"].l()), nb);
            double de = nb > 1 ? eps(1) - eps(0) : 0;
            std::string c = "[";
            nda::array<double, 1> s(nb);
            double tot = 0;
            for (int a = 0; a < nb; ++a) { s(a) = 0; for (int k = 0; k < rho.shape()[1]; ++k) s(a) += rho(a, k); }
            double nk = std::pow(o["n"].l(), tb.lattice().ndim());
            double cum = 0;
            std::string per = "[";
            for (int k = 0; k < rho.shape()[1]; ++k) { double t = 0; for (int a = 0; a < nb; ++a) t += rho(a, k); per += (k ? "," : "") + fix(t * de); }
            for (int a = 0; a < nb; ++a) { cum += s(a) * de * nk; c += (a ? "," : "") + std::to_string(std::lround(cum * 1e4)); }
            e("eps", drv::raw{fvec(eps)})("cum", drv::raw{c + "]"})("per", drv::raw{per + "]"});
          } else {
            long nt = o["tri"].size();
            nda::array<double, 2> t(nt, 2);
            for (long i = 0; i < nt; ++i) for (int x = 0; x < 2; ++x) t(i, x) = double(o["tri"].a[i].a[x].l()) / 24;
            auto [eps, rho] = dos_patch(tb, t, nb, int(o["n"].l()));
            double de = nb > 1 ? (eps(nb - 1) - eps(0)) / nb : 0;
            double cum = 0;
            std::string c = "[";
            // areas in units of the area of the triangle (0,0), (1/24,0), (0,1/24) divided by n * n
            double unit = 0.5 / (24. * 24.) / (o["n"].l() * o["n"].l());
            for (int a = 0; a < nb; ++a) { cum += rho(a) * de / unit; c += (a ? "," : "") + std::to_string(std::lround(cum * 1e4)); }
            e("eps", drv::raw{fvec(eps)})("cum", drv::raw{c + "]"});
          }
        } catch (triqs::runtime_error const &) { ok = false; }
        e("j", j)("ok", ok)("n", o["n"].l())("nb", nb);
        if (op == "patch") e("tri", jraw(o["tri"]));
      } else continue;
      if (changed) obs(id, ls.at(id));
    }
    for (auto &[i, x] : ls) obs(i, x);
  });
}
