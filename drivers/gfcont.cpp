// Programs on gf, gf_view, block_gf and block_gf_view (GfContainer.tla): every operation of a history is executed on the real containers,
// and the complete contents of all live objects are reported after it.
#include "drv.hpp"
#include "rat.hpp"
#include <mpi/mpi.hpp>
#include <triqs/gfs.hpp>
#include <triqs/gfs/legacy_for_python_api.hpp>
#include <h5/h5.hpp>
#include <optional>
#include <thread>
#include <memory>
using namespace triqs::gfs;
using namespace triqs;
using C  = std::complex<double>;
using nda::range;
using mv = matrix_valued;
using sv = scalar_valued;

static C cx(J const &j) { return {double(j[0][0].l()) / j[0][1].l(), double(j[1][0].l()) / j[1][1].l()}; }
static std::string num(C z) {
  auto a = drv::rat(z.real(), 100000, 1e-10), b = drv::rat(z.imag(), 100000, 1e-10);
  auto w = [](auto &v) { return "[" + std::to_string(v[0]) + "," + std::to_string(v[1]) + "]"; };
  return "[" + w(a) + "," + w(b) + "]";
}
static std::string echo(J const &j) {
  switch (j.k) {
    case J::Null: return "null";
    case J::Bool: return j.b ? "true" : "false";
    case J::Num: return std::to_string(j.i);
    case J::Str: return drv::quote(j.s);
    case J::Arr: { std::string s = "["; for (auto &x : j.a) s += (s.size() > 1 ? "," : "") + echo(x); return s + "]"; }
    default: { std::string s = "{"; for (auto &[k, x] : j.o) s += (s.size() > 1 ? "," : "") + drv::quote(k) + ":" + echo(x); return s + "}"; }
  }
}

// ------------------------------------------------ meshes
template <typename M> M mk(int k);
template <> mesh::imfreq mk<mesh::imfreq>(int k) {
  auto opt = k > 3 ? mesh::imfreq::option::positive_frequencies_only : mesh::imfreq::option::all_frequencies;
  int j    = (k - 1) % 3 + 1;
  return {j == 3 ? 3.0 : 2.0, j == 2 ? Boson : Fermion, 2, opt};
}
template <> mesh::imtime mk<mesh::imtime>(int k) { return {2.0, k == 1 ? Fermion : Boson, k == 3 ? 2 : 3}; }
template <> mesh::refreq mk<mesh::refreq>(int k) { return k == 1 ? mesh::refreq{-1.0, 1.0, 3} : k == 2 ? mesh::refreq{0.0, 1.0, 3} : mesh::refreq{-1.0, 1.0, 2}; }
template <typename M> constexpr int n_meshes = std::is_same_v<M, mesh::imfreq> ? 6 : 3;
template <typename M> int mesh_no(M const &m) {
  for (int k = 1; k <= n_meshes<M>; ++k)
    if (m == mk<M>(k)) return k;
  return -1;
}

// ------------------------------------------------ values, read through the data array
template <typename D> std::string values(D const &d) { // d of rank 1 or 3
  std::string s = "[";
  auto put      = [&](C z) { s += (s.size() > 1 ? "," : "") + num(z); };
  if constexpr (std::decay_t<D>::rank == 1) {
    for (long i = 0; i < d.shape()[0]; ++i) put(d(i));
  } else {
    for (long i = 0; i < d.shape()[0]; ++i)
      for (long j = 0; j < d.shape()[1]; ++j)
        for (long k = 0; k < d.shape()[2]; ++k) put(d(i, j, k));
  }
  return s + "]";
}
template <typename G> std::string show(G const &g) {
  std::string sh = "[";
  for (auto x : g.target_shape()) sh += (sh.size() > 1 ? "," : "") + std::to_string(x);
  if (g.data_shape()[0] != g.mesh().size()) sh += (sh.size() > 1 ? ",-1" : "-1"); // values which do not belong to the mesh
  return "{\"m\":" + std::to_string(mesh_no(g.mesh())) + ",\"sh\":" + sh + "],\"v\":" + values(g.data()) + "}";
}
template <typename D> void put_values(D &&d, J const &v) {
  long n = 0;
  if constexpr (std::decay_t<D>::rank == 1) {
    for (long i = 0; i < d.shape()[0]; ++i) d(i) = cx(v.a.at(n++));
  } else {
    for (long i = 0; i < d.shape()[0]; ++i)
      for (long j = 0; j < d.shape()[1]; ++j)
        for (long k = 0; k < d.shape()[2]; ++k) d(i, j, k) = cx(v.a.at(n++));
  }
}
static nda::matrix<C> mat(J const &v, long n, long q) {
  nda::matrix<C> r(n, q);
  for (long i = 0; i < n; ++i)
    for (long j = 0; j < q; ++j) r(i, j) = cx(v.a.at(i * q + j));
  return r;
}

// ------------------------------------------------ expressions; Full: with products and quotients of operands
template <bool Scalar, bool Block, typename G, typename F> void expr(int f, G const &a, G const &b, G const &c, C k, C q, F &&use) {
  switch (f) {
    case 0: use(a + b); return;
    case 1: use(a - b); return;
    case 2: use(a * b); return;
    case 3: use(k * a); return;
    case 4: use(a * k); return;
    case 5: use(a / k); return;
    case 6: use(-a); return;
    case 7: use(a + b - c); return;
    case 9: use(k * a + b * q); return;
    case 12: use(-(a - k * b)); return;
  }
  if constexpr (!Block) switch (f) {
      case 8: use(a - (b - c)); return;
      case 10: use((a + b) * c); return;
      case 11: use(a * b - b * a); return;
    }
  if constexpr (Scalar) switch (f) {
      case 13: use(a / b); return;
      case 14: use(k / a); return;
    }
  throw std::logic_error("form");
}

template <typename M> struct World {
  gf<M, mv> A[3];
  gf<M, sv> S[2];
  std::optional<gf_view<M, mv>> V[2];
  std::optional<gf_view<M, sv>> T[2];
  block_gf<M, mv> B[2];
  std::optional<block_gf_view<M, mv>> W[2];
  static constexpr bool imf = std::is_same_v<M, mesh::imfreq>, imt = std::is_same_v<M, mesh::imtime>, ref = std::is_same_v<M, mesh::refreq>;

  static bool scalar(std::string const &x) { return x[0] == 'S' || x[0] == 'T'; }
  static bool owner(std::string const &x) { return x[0] == 'A' || x[0] == 'S' || x[0] == 'B'; }
  static int no(std::string const &x, int p = 1) { return x.at(p) - '1'; }
  static bool part(std::string const &x) { return x.size() > 2; }
  // the gf called x
  gf<M, mv> &mg(std::string const &x) { return x[0] == 'A' ? A[no(x)] : B[no(x)][no(x, 3)]; }
  gf<M, sv> &sg(std::string const &x) { return S[no(x)]; }
  // a view of the object called x
  gf_view<M, mv> mview(std::string const &x) {
    if (x[0] == 'V') return *V[no(x)];
    if (x[0] == 'W') return (*W[no(x)])[no(x, 3)];
    return mg(x)();
  }
  gf_view<M, sv> sview(std::string const &x) {
    if (x[0] == 'T') return *T[no(x)];
    return sg(x)();
  }
  gf_const_view<M, mv> mc(std::string const &x) { return mview(x); }
  gf_const_view<M, sv> sc(std::string const &x) { return sview(x); }
  template <typename F> void view(std::string const &x, F f) { if (scalar(x)) f(sview(x)); else f(mview(x)); }
  template <typename F> void own(std::string const &x, F f) { if (scalar(x)) f(sg(x)); else f(mg(x)); }
  block_gf_view<M, mv> bv(std::string const &x) { return x[0] == 'B' ? B[no(x)]() : *W[no(x)]; }
  block_gf_const_view<M, mv> bc(std::string const &x) { return bv(x); }
  // ---- put the result r (a gf) into the gf called d
  template <typename R> void give(std::string const &d, R &&r) {
    if constexpr (std::decay_t<R>::target_t::rank == 0) sg(d) = std::forward<R>(r); else mg(d) = std::forward<R>(r);
  }

  template <typename G> void assign_to(std::string const &d, int how, int f, G const &a, G const &b, G const &c, C k, C q) {
    constexpr bool Sc = G::target_t::rank == 0;
    if (owner(d)) {
      auto &g = [&]() -> auto & { if constexpr (Sc) return sg(d); else return mg(d); }();
      expr<Sc, false>(f, a, b, c, k, q, [&](auto const &e) { g = e; });
    } else {
      auto v = [&]() { if constexpr (Sc) return sview(d); else return mview(d); }();
      expr<Sc, false>(f, a, b, c, k, q, [&](auto const &e) { v = e; });
    }
  }
  template <typename G> void compound(G &g, int f, auto const &b, C k) {
    switch (f) {
      case 0: g += b; return;
      case 1: g -= b; return;
      case 2: g *= b; return;
      case 4: g *= k; return;
      case 5: g /= k; return;
    }
    if constexpr (G::target_t::rank == 0) { if (f == 13) { g /= b; return; } }
    throw std::logic_error("form");
  }

  std::string ans = "[]";
  void run(J const &op) {
    auto o = op["o"].s, d = op["d"].s, a = op["a"].s, b = op["b"].s, c = op["c"].s;
    long how = op["how"].l();
    auto K = [&] { return cx(op["k"]); };
    auto Q = [&] { return cx(op["q"]); };
    ans = "[]";
    if (o == "new") {
      auto m = mk<M>(op["m"].l());
      if (scalar(d)) {
        nda::array<C, 1> dat(m.size());
        put_values(dat, op["v"]);
        if (how == 0) sg(d) = gf<M, sv>{m, dat};
        else { gf<M, sv> g{m}; put_values(g.data(), op["v"]); if (how == 1) sg(d) = std::move(g); else { sg(d) = gf<M, sv>{}; sg(d) = g; } }
      } else {
        long n = op["sh"][0].l(), q = op["sh"][1].l();
        nda::array<C, 3> dat(m.size(), n, q);
        put_values(dat, op["v"]);
        if (how == 0) mg(d) = gf<M, mv>{m, dat};
        else { gf<M, mv> g{m, {n, q}}; put_values(g.data(), op["v"]); if (how == 1) mg(d) = std::move(g); else { mg(d) = gf<M, mv>{}; mg(d) = g; } }
      }
    } else if (o == "copy") {
      if (a == d) return;
      auto cp = [&](auto &dst, auto v, auto cv) { // the memory of dst is new
        using G = std::decay_t<decltype(dst)>;
        if (how == 0) { G t{v}; dst = std::move(t); }
        else if (how == 1) { G t{cv}; dst = std::move(t); }
        else if (how == 2) { G t; t = v; dst = std::move(t); }
        else { G t{v}; G u{t}; dst = std::move(u); }
      };
      if (scalar(d)) cp(sg(d), sview(a), sc(a)); else cp(mg(d), mview(a), mc(a));
    } else if (o == "assign") {
      if (scalar(d)) assign_to(d, how, op["f"].l(), sc(a), sc(b), sc(c), K(), Q());
      else assign_to(d, how, op["f"].l(), mc(a), mc(b), mc(c), K(), Q());
    } else if (o == "comp") {
      int f = op["f"].l();
      if (scalar(d)) { if (owner(d)) compound(sg(d), f, sc(b), K()); else { auto v = sview(d); compound(v, f, sc(b), K()); } }
      else { if (owner(d)) compound(mg(d), f, mc(b), K()); else { auto v = mview(d); compound(v, f, mc(b), K()); } }
    } else if (o == "from") {
      auto fr = [&](auto &g, auto v) { g = v; };
      if (scalar(d)) { if (owner(d)) sg(d) = sview(a); else { auto v = sview(d); v = sc(a); } }
      else { if (owner(d)) mg(d) = mview(a); else { auto v = mview(d); v = mc(a); } }
    } else if (o == "rebind") {
      if (scalar(d)) { auto v = sview(a); if (T[no(d)]) T[no(d)]->rebind(v); else T[no(d)].emplace(v); }
      else { auto v = mview(a); if (V[no(d)]) V[no(d)]->rebind(v); else V[no(d)].emplace(v); }
    } else if (o == "slice") {
      auto r = op["r"].longs();
      auto v = slice_target(mview(a), range(r[0] - 1, r[1]), range(r[2] - 1, r[3]));
      V[no(d)].reset();
      V[no(d)].emplace(v);
    } else if (o == "elem") {
      auto r = op["r"].longs();
      auto v = slice_target_to_scalar(mview(a), r[0] - 1, r[1] - 1);
      T[no(d)].reset();
      T[no(d)].emplace(v);
    } else if (o == "asmat") {
      auto v = reinterpret_scalar_valued_gf_as_matrix_valued(sview(a));
      V[no(d)].reset();
      V[no(d)].emplace(v);
    } else if (o == "pos") {
      if constexpr (imf) {
        if (scalar(d)) { auto v = positive_freq_view(sview(a)); T[no(d)].reset(); T[no(d)].emplace(v); }
        else { auto v = positive_freq_view(mview(a)); V[no(d)].reset(); V[no(d)].emplace(v); }
      }
    } else if (o == "fill") {
      C k = K();
      view(d, [&](auto v) { v = k; });
    } else if (o == "set") {
      C k = K();
      long p = op["p"].l() - 1, t = op["t"].l() - 1;
      if (scalar(d)) {
        auto v = sview(d);
        if (how == 0) v.data()(p) = k;
        else if (how == 1) { long n = 0; for (auto w : v.mesh()) if (n++ == p) v[w] = k; }
        else { auto it = v.mesh().to_index(p); v[it] = k; }
      } else {
        auto v = mview(d);
        long q = v.target_shape()[1], i = t / q, j = t % q;
        if (how == 0) v.data()(p, i, j) = k;
        else if (how == 1) { long n = 0; for (auto w : v.mesh()) if (n++ == p) v[w](i, j) = k; }
        else { auto it = v.mesh().to_index(p); v[it](i, j) = k; }
      }
    } else if (o == "point") {
      long p = op["p"].l() - 1, n = 0;
      if (scalar(d)) { auto v = sview(d); for (auto w : v.mesh()) if (n++ == p) v[w] = cx(op["v"][0]); }
      else { auto v = mview(d); auto x = mat(op["v"], v.target_shape()[0], v.target_shape()[1]); for (auto w : v.mesh()) if (n++ == p) v[w] = x; }
    } else if (o == "fun") {
      C k = K(), q = Q();
      if (scalar(d)) { auto v = sview(d); clef_auto_assign(v, [&](auto const &w) { return k * double(w.data_index() + 1) + q; }); }
      else {
        auto v = mview(d);
        auto f = [&](auto const &w) { nda::matrix<C> r(v.target_shape()); long t = 1; for (long i = 0; i < r.shape()[0]; ++i) for (long j = 0; j < r.shape()[1]; ++j) r(i, j) = k * double(w.data_index() + 1) + q * double(t++); return r; };
        clef_auto_assign(v, f);
      }
    } else if (o == "conj") {
      if (scalar(d)) give(d, gf<M, sv>{conj(sview(a))}); else give(d, gf<M, mv>{conj(mview(a))});
    } else if (o == "mulL") {
      long n = op["n"].l();
      give(d, mat(op["l"], n, n) * gf<M, mv>{mview(a)});
    } else if (o == "mulR") {
      long n = op["n"].l();
      give(d, gf<M, mv>{mview(a)} * mat(op["l"], n, n));
    } else if (o == "lgr") {
      long n = op["n"].l();
      if constexpr (imf or imt or ref) set_from_gf(d, a, mat(op["l"], n, n), mat(op["r"], n, n));
    } else if (o == "inv") {
      give(d, how ? gf<M, mv>{inverse(mview(a))} : gf<M, mv>{inverse(gf<M, mv>{mview(a)})});
    } else if (o == "invip") {
      invert_in_place(mview(d));
    } else if (o == "mkherm") {
      if constexpr (imf or imt) {
        if (scalar(d)) give(d, gf<M, sv>{make_hermitian(gf_const_view<M, sv>{sview(a)})}); else give(d, gf<M, mv>{make_hermitian(gf_const_view<M, mv>{mview(a)})});
      }
    } else if (o == "mkreal") {
      if constexpr (imf) {
        if (scalar(d)) give(d, gf<M, sv>{make_real_in_tau(sc(a))}); else give(d, gf<M, mv>{make_real_in_tau(mc(a))});
      }
    } else if (o == "full") {
      if constexpr (imf) {
        if (scalar(d)) give(d, gf<M, sv>{make_gf_from_real_gf(sc(a))}); else give(d, gf<M, mv>{make_gf_from_real_gf(mc(a))});
      }
    } else if (o == "h5") {
      h5::file fi("x.h5", 'w');
      if (scalar(d)) {
        if (how % 2) h5_write(fi, "g", sview(a)); else h5_write(fi, "g", sc(a));
        gf<M, sv> t;
        if (how > 1) t = sview(a) + sview(a);
        h5_read(fi, "g", t);
        give(d, std::move(t));
      } else {
        if (how % 2) h5_write(fi, "g", mview(a)); else h5_write(fi, "g", mc(a));
        gf<M, mv> t;
        if (how > 1) t = mview(a) + mview(a);
        h5_read(fi, "g", t);
        give(d, std::move(t));
      }
    } else if (o == "shift") {
      C k = K();
      if constexpr (!imt) {
        if (scalar(d)) { if (how) sview(d) += k; else sview(d) -= -k; }
        else { if (how) mview(d) += k; else mview(d) -= -k; }
      }
    } else if (o == "shiftm") {
      if constexpr (!imt) {
        auto v = mview(d);
        auto x = mat(op["l"], v.target_shape()[0], v.target_shape()[1]);
        if (how) v += x; else v -= nda::matrix<C>(-x);
      }
    } else if (o == "isherm") {
      if constexpr (imf or imt) ans = (scalar(a) ? is_gf_hermitian(sc(a), 1e-9) : is_gf_hermitian(mc(a), 1e-9)) ? "true" : "false";
    } else if (o == "isrtau") {
      if constexpr (imf) ans = (scalar(a) ? is_gf_real_in_tau(sc(a), 1e-9) : is_gf_real_in_tau(mc(a), 1e-9)) ? "true" : "false";
    } else if (o == "isreal") {
      ans = (scalar(a) ? is_gf_real(sc(a), 1e-9) : is_gf_real(mc(a), 1e-9)) ? "true" : "false";
    } else if (o == "parts") {
      view(a, [&](auto v) { auto re = real(v); auto im = imag(v); ans = "{\"re\":" + values(re.data()) + ",\"im\":" + values(im.data()) + "}"; });
    } else if (o == "reduce") {
      reduce(d, a, op["n"].l(), how);
    } else if (o[0] == 'b')
      block(op, o, d, a, b, c, how);
    else
      throw std::logic_error("unknown " + o);
  }
  void set_from_gf(std::string const &d, std::string const &a, nda::matrix<C> l, nda::matrix<C> r) {
    auto v = mview(d);
    auto w = mc(a);
    if (!(v.mesh() == w.mesh())) return;
    set_from_L_G_R(v, l, w, r);
  }
  // the sum over n ranks which all hold the same
  void reduce(std::string const &d, std::string const &a, int n, int how) {
    mpi::sim::world w(n);
    mpi::sim::env = true;
    if (scalar(d)) reduce1<sv>(d, sc(a), n, how, w); else reduce1<mv>(d, mc(a), n, how, w);
  }
  template <typename T1> void reduce1(std::string const &d, gf_const_view<M, T1> v, int n, int how, mpi::sim::world &w);

  // ------------------------------------------------ blocks
  void block(J const &op, std::string const &o, std::string const &d, std::string const &a, std::string const &b, std::string const &c, long how) {
    auto K = [&] { return cx(op["k"]); };
    int f  = op["f"].l();
    if (o == "bnew") {
      std::vector<std::string> nm;
      std::vector<gf<M, mv>> v;
      for (auto &x : op["names"].a) nm.push_back(x.s);
      for (auto &x : op["a"].a) v.push_back(gf<M, mv>{mview(x.s)});
      if (how) B[no(d)] = make_block_gf(nm, v); else B[no(d)] = block_gf<M, mv>{nm, std::move(v)};
    } else if (o == "bcopy") {
      if (how) { block_gf<M, mv> t{bv(a)}; B[no(d)] = std::move(t); }
      else if (a[0] == 'B') { block_gf<M, mv> t{B[no(a)]}; B[no(d)] = std::move(t); }
      else { block_gf<M, mv> t{bc(a)}; B[no(d)] = std::move(t); }
    } else if (o == "bview") {
      auto v = bv(a);
      if (W[no(d)]) W[no(d)]->rebind(v); else W[no(d)].emplace(v);
    } else if (o == "bassign") {
      auto x = bc(a), y = bc(b), z = bc(c);
      if (d[0] == 'B') expr<false, true>(f, x, y, z, K(), cx(op["q"]), [&](auto const &e) { B[no(d)] = e; });
      else { auto v = bv(d); auto &w = *W[no(d)]; expr<false, true>(f, x, y, z, K(), cx(op["q"]), [&](auto const &e) { w = e; }); }
    } else if (o == "bfrom") {
      if (d[0] == 'B') B[no(d)] = bv(a);
      else if (a[0] == 'B') *W[no(d)] = B[no(a)];
      else *W[no(d)] = *W[no(a)];
    } else if (o == "bcomp") {
      auto go = [&](auto &g) {
        switch (f) {
          case 0: g += bc(b); return;
          case 1: g -= bc(b); return;
          case 4: g *= K(); return;
          case 5: g /= K(); return;
        }
      };
      if (d[0] == 'B') go(B[no(d)]); else go(*W[no(d)]);
    } else if (o == "bfill") {
      *W[no(d)] = K();
    } else if (o == "bmap") {
      auto r   = map_block_gf([](auto const &g) { return gf<M, mv>{conj(g)}; }, bv(a));
      B[no(d)] = std::move(r);
    } else if (o == "bh5") {
      h5::file fi("x.h5", 'w');
      if (a[0] == 'B' && how) h5_write(fi, "g", B[no(a)]); else h5_write(fi, "g", bv(a));
      block_gf<M, mv> t;
      if (how) t = bv(a);
      h5_read(fi, "g", t);
      B[no(d)] = std::move(t);
    } else if (o == "biter") {
      ans    = "[";
      auto v = bv(a);
      for (auto const &g : v) ans += (ans.size() > 1 ? "," : "") + values(g.data());
      ans += "]";
    } else
      throw std::logic_error("unknown " + o);
  }

  std::string dump(J const &live) {
    std::string s = "{";
    for (auto &x : live.a) {
      s += (s.size() > 1 ? "," : "") + drv::quote(x.s) + ":";
      if (scalar(x.s)) s += show(sview(x.s)); else s += show(mview(x.s));
    }
    return s + "}";
  }
  std::string names(J const &bl) {
    std::string s = "{";
    for (auto &x : bl.a) {
      auto v = bv(x.s);
      s += (s.size() > 1 ? "," : "") + drv::quote(x.s) + ":" + drv::js(v.block_names());
      if (int(v.block_names().size()) != v.size()) s.back() = '!';
    }
    return s + "}";
  }
  void history(J const &h) {
    for (auto &st : h["ops"].a) {
      auto const &op = st["op"];
      bool ok        = true;
      std::string err;
      try { run(op); } catch (std::logic_error const &e) { ok = false; err = std::string("logic ") + e.what(); } catch (std::exception const &e) { ok = false; err = e.what(); }
      std::string post = "{}", nm = "{}";
      try { post = dump(st["live"]); nm = names(st["bl"]); } catch (std::exception const &e) { err += std::string("dump ") + e.what(); }
      E ev("Op");
      ev("op", drv::raw{echo(op)})("ok", ok)("ans", drv::raw{ans})("post", drv::raw{post})("names", drv::raw{nm});
      if (!ok) ev("err", err.substr(0, 160));
    }
  }
};
template <typename M> template <typename T1> void World<M>::reduce1(std::string const &d, gf_const_view<M, T1> v, int n, int how, mpi::sim::world &w) {
  std::vector<gf<M, T1>> res(n);
  std::vector<std::thread> th;
  std::exception_ptr ep;
  for (int r = 0; r < n; ++r)
    th.emplace_back([&, r] {
      mpi::sim::w = &w;
      mpi::sim::rank_ = r;
      gf<M, T1> x{v};
      mpi::communicator com;
      try {
        if (how == 0) res[r] = mpi::all_reduce(x, com);
        else if (how == 1) { gf<M, T1> y{v}; y = mpi::all_reduce(x, com); res[r] = y; }
        else if (how == 2) { res[r] = x; res[r] = mpi::reduce(x, com, n - 1); }
        else { gf<M, T1> y{mpi::all_reduce(x, com)}; res[r] = y; }
      } catch (...) { ep = std::current_exception(); }
    });
  for (auto &t : th) t.join();
  mpi::sim::env = false;
  if (ep) std::rethrow_exception(ep);
  give(d, std::move(res[n - 1]));
}

int main() {
  return drv::main_loop([](J const &h) {
    if (h.has("K") == false) return;
    auto k = h["K"].s;
    E("Reset")("K", k);
    if (k == "imfreq") World<mesh::imfreq>{}.history(h);
    else if (k == "imtime") World<mesh::imtime>{}.history(h);
    else World<mesh::refreq>{}.history(h);
  });
}
