// C13: exact diagonalisation of atomic problems. Eigenvectors are not unique, so that everything is shown in the Fock basis.
#include "drv.hpp"
#include "rat.hpp"
#include <memory>
#include <h5/h5.hpp>
#include <triqs/utility/first_include.hpp>
#include <triqs/gfs.hpp>
#include <triqs/atom_diag/atom_diag.hpp>
#include <triqs/atom_diag/functions.hpp>
#include <triqs/atom_diag/gf.hpp>
using namespace triqs::operators;
using namespace triqs::hilbert_space;
using namespace triqs::atom_diag;
using namespace triqs::gfs;
using dcomplex = std::complex<double>;
using CM = std::vector<std::vector<dcomplex>>;

static indices_t ind(J const &j) {
  indices_t r;
  for (auto const &x : j.a)
    if (x.k == J::Str) r.push_back(x.s); else r.push_back(long(x.l()));
  return r;
}
static std::vector<int> bits(fock_state_t f) {
  std::vector<int> r;
  for (int i = 0; i < 64; ++i) if ((f >> i) & 1) r.push_back(i);
  return r;
}
static fock_state_t unbits(J const &j) {
  fock_state_t f = 0;
  for (auto x : j.longs()) f |= uint64_t(1) << x;
  return f;
}
static std::string num(dcomplex c, double unit = 1) { return "[" + std::to_string(drv::L(c.real() * unit)) + "," + std::to_string(drv::L(c.imag() * unit)) + "]"; }
template <typename V, typename F> std::string lst(V const &v, F f) {
  std::string s;
  for (auto const &x : v) s += (s.empty() ? "" : ",") + f(x);
  return "[" + s + "]";
}
static std::string mat(CM const &m, double unit = 1) { return lst(m, [&](auto const &r) { return lst(r, [&](dcomplex c) { return num(c, unit); }); }); }
template <typename M> CM cm(M const &m) {
  CM r(m.shape()[0], std::vector<dcomplex>(m.shape()[1]));
  for (size_t i = 0; i < r.size(); ++i) for (size_t j = 0; j < r[i].size(); ++j) r[i][j] = m(i, j);
  return r;
}
static CM mul(CM const &a, CM const &b) {
  CM r(a.size(), std::vector<dcomplex>(b.empty() ? 0 : b[0].size()));
  for (size_t i = 0; i < r.size(); ++i) for (size_t j = 0; j < r[i].size(); ++j) for (size_t k = 0; k < b.size(); ++k) r[i][j] += a[i][k] * b[k][j];
  return r;
}
static CM dag(CM const &a) {
  CM r(a.empty() ? 0 : a[0].size(), std::vector<dcomplex>(a.size()));
  for (size_t i = 0; i < r.size(); ++i) for (size_t j = 0; j < r[i].size(); ++j) r[i][j] = std::conj(a[j][i]);
  return r;
}
static long micro(double x) { return std::abs(x) < 2000 ? std::lround(x * 1e6) : 2147480000; }

template <bool C> struct machine {
  using AD = atom_diag<C>;
  using S = typename AD::scalar_t;
  using Op = typename AD::many_body_op_t;
  std::vector<indices_t> names;
  fundamental_operator_set fops;
  std::vector<int> pos;
  std::unique_ptr<AD> ad;
  std::vector<CM> U;

  Op op(J const &terms) const {
    Op r;
    for (auto const &t : terms.a) {
      monomial_t m;
      for (auto x : t[0].longs()) m.push_back({x > 0, names[std::abs(x) - 1]});
      S c;
      if constexpr (C) c = dcomplex(t[1].d(), t[2].d()); else c = t[1].d();
      r += Op(c, m);
    }
    return r;
  }
  static drv::raw echo(J const &terms) {
    return {lst(terms.a, [](J const &t) { return "[" + drv::js(t[0].longs()) + "," + std::to_string(t[1].l()) + "," + std::to_string(t[2].l()) + "]"; })};
  }
  // U_to m U_from^+
  CM back(int to, CM const &m, int from) const { return mul(mul(U[to], m), dag(U[from])); }
  std::string amps(typename AD::full_hilbert_space_state_t const &v) const {
    std::string s;
    for (int b = 0; b < ad->n_subspaces(); ++b)
      for (int i = 0; i < ad->get_subspace_dim(b); ++i) {
        dcomplex x = 0;
        for (int k = 0; k < ad->get_subspace_dim(b); ++k) x += U[b][i][k] * v(ad->flatten_subspace_index(b, k));
        if (std::abs(x) > 1e-9) s += (s.empty() ? "[" : ",[") + drv::js(bits(ad->get_fock_states(b)[i])) + "," + num(x).substr(1);
      }
    return "[" + s + "]";
  }
  void show(E &ev) {
    auto &a = *ad;
    U.clear();
    for (int b = 0; b < a.n_subspaces(); ++b) U.push_back(cm(a.get_unitary_matrix(b)));
    std::string blocks, hm, es, ens, flat;
    bool un = a.get_unitary_matrices().size() == U.size() && a.get_fock_states().size() == U.size();
    double gs = a.get_gs_energy();
    auto en = a.get_energies();
    std::vector<long> dims;
    for (int b = 0; b < a.n_subspaces(); ++b) {
      auto c = b ? "," : "";
      blocks += c + lst(a.get_fock_states(b), [](auto f) { return drv::js(bits(f)); });
      un = un && a.get_fock_states()[b] == a.get_fock_states(b);
      int n = a.get_subspace_dim(b);
      dims.push_back(n);
      CM D(n, std::vector<dcomplex>(n));
      for (int i = 0; i < n; ++i) D[i][i] = a.get_eigenvalue(b, i) + gs;
      hm += c + mat(back(b, D, b));
      auto I = mul(dag(U[b]), U[b]);
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) un = un && std::abs(I[i][j] - double(i == j)) < 1e-9;
      std::vector<long> e1, e2, fl;
      for (int i = 0; i < n; ++i) { e1.push_back(micro(a.get_eigenvalue(b, i))); e2.push_back(micro(en.at(b).at(i))); fl.push_back(a.flatten_subspace_index(b, i)); }
      un = un && long(en[b].size()) == n && a.index_range_of_subspace(b).first() == fl.front() && a.index_range_of_subspace(b).last() == fl.back() + 1;
      es += c + drv::js(e1); ens += c + drv::js(e2); flat += c + drv::js(fl);
    }
    auto conn = [&](bool dagger) {
      std::vector<int> modes(names.size());
      std::iota(modes.begin(), modes.end(), 0);
      std::vector<int> bl(a.n_subspaces());
      std::iota(bl.begin(), bl.end(), 0);
      return lst(modes, [&](int k) {
        int n = fops[names[k]];
        return lst(bl, [&](int b) {
          long to = dagger ? a.cdag_connection(n, b) : a.c_connection(n, b);
          std::string m = "[]";
          if (to >= 0 && to < a.n_subspaces()) {
            auto const &M = dagger ? a.cdag_matrix(n, b) : a.c_matrix(n, b);
            if (M.shape()[0] == a.get_subspace_dim(to) && M.shape()[1] == a.get_subspace_dim(b)) m = mat(back(to, cm(M), b));
          }
          return "{\"to\":" + std::to_string(to) + ",\"m\":" + m + "}";
        });
      });
    };
    ev("blocks", drv::raw{"[" + blocks + "]"})("hm", drv::raw{"[" + hm + "]"})("un", un)("es", drv::raw{"[" + es + "]"})("ens", drv::raw{"[" + ens + "]"})("flat", drv::raw{"[" + flat + "]"})
      ("dims", dims)("dims2", a.get_subspace_dims())("full", a.get_full_hilbert_space_dim())("gs", micro(gs))("c", drv::raw{conn(false)})("cd", drv::raw{conn(true)})("vi", a.get_vacuum_subspace_index())
      ("vac", drv::raw{amps(a.get_vacuum_state())})
      ("qn", drv::raw{lst(a.get_quantum_numbers(), [](auto const &v) { return lst(v, [](double x) { return std::to_string(drv::L(x)); }); })});
  }
  std::string energies() const {
    return lst(ad->get_energies(), [](auto const &v) { return lst(v, [](double x) { return std::to_string(micro(x)); }); });
  }
  static double maxdiff(auto const &a, auto const &b) {
    double d = 0;
    for (size_t i = 0; i < a.size(); ++i) {
      auto x = a[i].data(); auto y = b[i].data();
      if (x.shape() != y.shape()) return 1e9;
      for (long n = 0; n < x.size(); ++n) d = std::max(d, std::abs(x.data()[n] - y.data()[n]));
    }
    return d;
  }
  gf_struct_t gs(J const &o) const {
    gf_struct_t s;
    for (auto const &b : o["gf"].a) s.emplace_back(b[0].s, b[1].l());
    return s;
  }
  int mode(std::string const &b, long i) const {
    for (size_t k = 0; k < names.size(); ++k) if (names[k] == indices_t{b, i}) return k + 1;
    return 0;
  }
  excluded_states_t excluded(J const &o) const { // Fock states, each the only component of an eigenstate
    excluded_states_t ex;
    for (auto const &f : o["ex"].a)
      for (int b = 0; b < ad->n_subspaces(); ++b)
        for (int i = 0; i < ad->get_subspace_dim(b); ++i)
          if (ad->get_fock_states(b)[i] == unbits(f))
            for (int k = 0; k < ad->get_subspace_dim(b); ++k)
              if (std::abs(U[b][i][k]) > 0.999) ex.emplace_back(b, k);
    return ex;
  }
  void thermal(J const &o) {
    auto &a = *ad;
    drv::not_integer = 0;
    int k = o["k"].l();
    double beta = std::log(2.) * k, D = o["D"].d();
    double emax = 0;
    for (auto const &v : a.get_energies()) for (double e : v) emax = std::max(emax, e);
    double Z = partition_function(a, beta), Zi = Z * std::exp2(k * emax);
    auto dm = atomic_density_matrix(a, beta);
    std::string rho, X;
    bool diag = true;
    for (int b = 0; b < a.n_subspaces(); ++b) {
      auto m = cm(dm[b]);
      for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < m.size(); ++j) if (i != j && m[i][j] != 0.) diag = false;
      rho += (b ? "," : "") + mat(back(b, m, b), Zi * D);
    }
    for (int j = 0; j <= k; ++j) {
      std::string s;
      for (int b = 0; b < a.n_subspaces(); ++b) {
        int n = a.get_subspace_dim(b);
        CM E(n, std::vector<dcomplex>(n));
        for (int i = 0; i < n; ++i) E[i][i] = std::exp2(j * (emax - a.get_eigenvalue(b, i)));
        s += (b ? "," : "") + mat(back(b, E, b), D);
      }
      X += (j ? ",[" : "[") + s + "]";
    }
    auto G = gs(o);
    auto ex = excluded(o);
    auto lh = atomic_g_lehmann(a, beta, G, ex);
    int nb = 0;
    std::string L, T, Lg;
    auto gt = atomic_g_tau(a, beta, G, k + 1, ex);
    auto gl = atomic_g_l(a, beta, G, 60, ex);
    bool same = maxdiff(gt, atomic_g_tau<C>(lh, G, triqs::mesh::imtime{beta, Fermion, k + 1})) < 1e-12
       && maxdiff(gl, atomic_g_l<C>(lh, G, triqs::mesh::legendre{beta, Fermion, 60})) < 1e-12
       && maxdiff(atomic_g_iw(a, beta, G, 4, ex), atomic_g_iw<C>(lh, G, triqs::mesh::imfreq{beta, Fermion, 4})) < 1e-12
       && maxdiff(atomic_g_w(a, beta, G, {-2.25, 3.}, 6, 0.125, ex), atomic_g_w<C>(lh, G, triqs::mesh::refreq{-2.25, 3., 6}, 0.125)) < 1e-12;
    bool mesh = gt[0].mesh().beta() == beta && gt[0].mesh().size() == k + 1 && gl[0].mesh().size() == 60 && gt.size() == long(G.size()) && lh.size() == G.size();
    for (size_t b = 0; b < G.size(); ++b) {
      mesh = mesh && gt.block_names()[b] == G[b].first && gl.block_names()[b] == G[b].first;
      for (long i = 0; i < G[b].second; ++i)
        for (long j = 0; j < G[b].second; ++j) {
          std::map<long, dcomplex> pr;
          for (auto const &[p, r] : lh[b](i, j)) pr[drv::L(p)] += r;
          auto head = "[" + std::to_string(mode(G[b].first, i)) + "," + std::to_string(mode(G[b].first, j)) + ",";
          auto c = nb++ ? "," : "";
          std::string s;
          for (auto const &[p, r] : pr) s += (s.empty() ? "[" : ",[") + std::to_string(p) + "," + num(r, Zi * D) + "]";
          L += c + head + "[" + s + "]]";
          std::string t, l;
          for (int x = 0; x <= k; ++x) {
            t += (x ? "," : "") + num(gt[b].data()(x, i, j), Zi * D * D);
            // the Legendre series
            double y = 2. * x / k - 1, p0 = 1, p1 = y;
            dcomplex sum = 0;
            for (int n = 0; n < 60; ++n) {
              double p = n == 0 ? 1 : p1;
              sum += std::sqrt(2. * n + 1) / beta * p * gl[b].data()(n, i, j);
              if (n > 0) { double p2 = ((2 * n + 1) * y * p1 - n * p0) / (n + 1); p0 = p1; p1 = p2; }
            }
            l += (x ? "," : "") + num(sum, Zi * D * D);
          }
          T += c + head + "[" + t + "]]";
          Lg += c + head + "[" + l + "]]";
        }
    }
    std::vector<std::string> exs;
    for (auto const &f : o["ex"].a) exs.push_back(drv::js(bits(unbits(f))));
    E("Thermal")("es", drv::raw{energies()})("k", k)("D", o["D"].l())("Z", drv::L(Zi))("rho", drv::raw{"[" + rho + "]"})("diag", diag)("X", drv::raw{"[" + X + "]"})("nex", ex.size())("ex", drv::raw{lst(exs, [](auto s) { return s; })})
      ("L", drv::raw{"[" + L + "]"})("T", drv::raw{"[" + T + "]"})("G", drv::raw{"[" + Lg + "]"})("same", same)("mesh", mesh)("bad", drv::not_integer);
  }
  // Green's functions of given pole-residue lists: one block of size n
  void poles(J const &o) {
    long n = o["n"].l(), nm = o["nm"].l();
    gf_struct_t G{{"b", n}};
    gf_lehmann_t<C> lh;
    lh.emplace_back(n, n);
    for (auto const &t : o["t"].a) {
      S r;
      if constexpr (C) r = dcomplex(t[3].d() / 8, t[4].d() / 8); else r = t[3].d() / 8;
      lh[0](t[0].l(), t[1].l()).emplace_back(t[2].d() / 2, r);
    }
    auto rows = [&](auto const &g) {
      std::string s;
      for (auto m : g[0].mesh())
        for (long i = 0; i < n; ++i)
          for (long j = 0; j < n; ++j) {
            dcomplex v = g[0].data()(m.data_index(), i, j);
            auto a = drv::rat(v.real(), 100000, 1e-13), b = drv::rat(v.imag(), 100000, 1e-13);
            s += (s.empty() ? "[" : ",[") + drv::js(a) + "," + drv::js(b) + "]";
          }
      return drv::raw{"[" + s + "]"};
    };
    auto echo = lst(o["t"].a, [](J const &t) { return drv::js(t.longs()); });
    if (o["via"].s == "iw") {
      auto m = o["pos"].t() ? triqs::mesh::imfreq{M_PI, Fermion, nm, triqs::mesh::imfreq::option::positive_frequencies_only} : triqs::mesh::imfreq{M_PI, Fermion, nm};
      E("Poles")("via", "iw")("n", n)("nm", nm)("pos", o["pos"].t())("t", drv::raw{echo})("r", rows(atomic_g_iw<C>(lh, G, m)));
    } else {
      double w0 = o["w0"].d() / 4, dw = o["dw"].d() / 4;
      E("Poles")("via", "w")("n", n)("nm", nm)("w0", o["w0"].l())("dw", o["dw"].l())("eta", o["eta"].l())("t", drv::raw{echo})
        ("r", rows(atomic_g_w<C>(lh, G, triqs::mesh::refreq{w0, w0 + dw * (nm - 1), nm}, o["eta"].d() / 4)));
    }
  }
  void run(J const &h) {
    for (auto const &t : h["names"].a) names.push_back(ind(t));
    for (auto k : h["order"].longs()) fops.insert_from_indices_t(names[k - 1]);
    for (auto const &t : names) pos.push_back(fops[t]);
    E("Reset")("n", names.size())("pos", pos)("cplx", C);
    for (auto const &o : h["ops"].a) {
      auto const &w = o["op"].s;
      if (w == "diag") {
        auto const &ct = o["ctor"].s;
        auto H = op(o["h"]);
        E ev("Diag");
        ev("ctor", ct)("h", echo(o["h"]))("hyb", echo(o["hyb"]))("nmin", o["nmin"].l())("nmax", o["nmax"].l())("qns", drv::raw{lst(o["qns"].a, [](J const &t) { return echo(t).s; })});
        bool ok = true;
        std::unique_ptr<AD> x;
        try {
          if (ct == "hyb") x = std::make_unique<AD>(H, op(o["hyb"]), fops);
          else if (ct == "filter") x = std::make_unique<AD>(H, fops, int(o["nmin"].l()), int(o["nmax"].l()));
          else if (ct == "qn") {
            std::vector<Op> q;
            for (auto const &t : o["qns"].a) q.push_back(op(t));
            x = std::make_unique<AD>(H, fops, q);
          } else x = std::make_unique<AD>(H, fops);
        } catch (std::exception const &) { ok = false; }
        ev("ok", ok);
        if (ok) { ad = std::move(x); ev("hok", (ad->get_h_atomic() - H).is_zero() && ad->get_fops() == fops); show(ev); }
        continue;
      }
      if (!ad && w != "poles") continue;
      auto &a = *ad;
      auto nsp = ad ? a.n_subspaces() : 0;
      if (w == "mono") {
        int B = o["B"].l() % nsp;
        monomial_t m;
        for (auto x : o["m"].longs()) m.push_back({x > 0, names[std::abs(x) - 1]});
        auto [to, M] = a.get_matrix_element_of_monomial(m, B);
        E("Mono")("m", o["m"].longs())("B", B)("to", to)("r", drv::raw{to < 0 ? "[]" : mat(back(to, cm(M), B))});
      } else if (w == "opmat") {
        E ev("OpMat");
        ev("t", echo(o["t"]));
        try {
          auto M = a.get_op_mat(op(o["t"]));
          std::string s;
          bool sz = M.n_blocks() == nsp;
          for (int b = 0; b < nsp; ++b) {
            int to = M.connection(b);
            s += (b ? ",{" : "{") + std::string("\"to\":") + std::to_string(to) + ",\"m\":" + (to < 0 ? "[]" : mat(back(to, cm(M.block_mat[b]), b))) + "}";
          }
          ev("ok", true)("sz", sz)("r", drv::raw{"[" + s + "]"});
        } catch (std::exception const &) { ev("ok", false); }
      } else if (w == "act") {
        typename AD::full_hilbert_space_state_t v(a.get_full_hilbert_space_dim());
        v() = 0;
        for (auto const &t : o["psi"].a)
          for (int b = 0; b < nsp; ++b)
            for (int i = 0; i < a.get_subspace_dim(b); ++i)
              if (a.get_fock_states(b)[i] == unbits(t[0]))
                for (int k = 0; k < a.get_subspace_dim(b); ++k) {
                  auto z = std::conj(U[b][i][k]) * dcomplex(t[1].d(), t[2].d());
                  if constexpr (C) v(a.flatten_subspace_index(b, k)) += z; else v(a.flatten_subspace_index(b, k)) += z.real();
                }
        auto r = act(op(o["t"]), v, a);
        E("Act")("t", echo(o["t"]))("psi", drv::raw{lst(o["psi"].a, [](J const &t) { return "[" + drv::js(bits(unbits(t[0]))) + "," + std::to_string(t[1].l()) + "," + std::to_string(t[2].l()) + "]"; })})
          ("v", drv::raw{amps(v)})("r", drv::raw{amps(r)})("size", r.size() == v.size());
      } else if (w == "rho") {
        typename AD::block_matrix_t R;
        for (int b = 0; b < nsp; ++b) {
          int n = a.get_subspace_dim(b);
          CM F(n, std::vector<dcomplex>(n));
          for (auto const &t : o["R"].a) { // |f><g|
            int i = -1, j = -1;
            for (int x = 0; x < n; ++x) {
              if (a.get_fock_states(b)[x] == unbits(t[0])) i = x;
              if (a.get_fock_states(b)[x] == unbits(t[1])) j = x;
            }
            if (i >= 0 && j >= 0) F[i][j] += dcomplex(t[2].d(), t[3].d());
          }
          auto m = mul(mul(dag(U[b]), F), U[b]);
          typename AD::matrix_t M(n, n);
          for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if constexpr (C) M(i, j) = m[i][j]; else M(i, j) = m[i][j].real();
          R.push_back(M);
        }
        int bad = o["bad"].l();
        if (bad == 1) R.pop_back();
        if (bad == 2) R[0].resize(a.get_subspace_dim(0) + 1, a.get_subspace_dim(0) + 1), R[0]() = 0;
        if (bad == 3) R.push_back(R[0]);
        E ev("Rho");
        ev("t", echo(o["t"]))("bad", bad)("R", drv::raw{lst(o["R"].a, [](J const &t) { return "[" + drv::js(bits(unbits(t[0]))) + "," + drv::js(bits(unbits(t[1]))) + "," + std::to_string(t[2].l()) + "," + std::to_string(t[3].l()) + "]"; })});
        try { dcomplex z = trace_rho_op(R, op(o["t"]), a); ev("ok", true)("r", drv::raw{num(z)}); } catch (std::exception const &) { ev("ok", false); }
      } else if (w == "qn") {
        bool ck = o["checked"].t();
        E ev("Qn");
        ev("t", echo(o["t"]))("checked", ck)("es", drv::raw{energies()});
        try {
          auto q = ck ? quantum_number_eigenvalues_checked(op(o["t"]), a) : quantum_number_eigenvalues(op(o["t"]), a);
          std::string s;
          std::vector<long> tr;
          for (int b = 0; b < nsp; ++b) {
            int n = a.get_subspace_dim(b);
            CM D(n, std::vector<dcomplex>(n));
            double t = 0;
            for (int i = 0; i < n; ++i) { D[i][i] = q.at(b).at(i); t += q[b][i]; }
            auto B = back(b, D, b);
            bool integer = true; // the unchecked values depend on the basis of degenerate levels
            s += (b ? "," : "") + (ck ? mat(B) : "[]");
            tr.push_back(drv::L(t));
          }
          ev("ok", q.size() == size_t(nsp))("r", drv::raw{"[" + s + "]"})("tr", tr);
        } catch (std::exception const &) { ev("ok", false); }
      } else if (w == "h5") {
        auto f = h5::file{};
        h5_write(f, "ad", a);
        AD b;
        if (o["over"].t()) b = AD(op(o["h"]), fops); // reading replaces what was there
        h5_read(f, "ad", b);
        bool eq = b == a;
        *ad = b;
        E ev("H5");
        ev("eq", eq);
        show(ev);
      } else if (w == "thermal") thermal(o);
      else if (w == "poles") poles(o);
    }
  }
};
int main() {
  return drv::main_loop([](J const &H) {
    if (H["cplx"].t()) machine<true>{}.run(H); else machine<false>{}.run(H);
  });
}
