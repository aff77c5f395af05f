// C10 action of operators on states, C12 partition of a Hilbert space.
#include "drv.hpp"
#include <memory>
#include <h5/h5.hpp>
#include <triqs/utility/first_include.hpp>
#include <triqs/operators/many_body_operator.hpp>
#include <triqs/hilbert_space/hilbert_space.hpp>
#include <triqs/hilbert_space/state.hpp>
#include <triqs/hilbert_space/imperative_operator.hpp>
#include <triqs/hilbert_space/space_partition.hpp>
using namespace triqs::operators;
using namespace triqs::hilbert_space;
using FullHS = triqs::hilbert_space::hilbert_space;
using dcomplex = std::complex<double>;

static indices_t ind(J const &j) {
  indices_t r;
  for (auto const &x : j.a)
    if (x.k == J::Str) r.push_back(x.s); else r.push_back(long(x.l()));
  return r;
}
static std::vector<int> bits(fock_state_t f) {
  std::vector<int> r;
  for (int i = 0; i < 64; ++i) if ((f >> i) & 1) r.push_back(i);
  return r;
}
static fock_state_t unbits(J const &j) {
  fock_state_t f = 0;
  for (auto x : j.longs()) f |= uint64_t(1) << x;
  return f;
}
static dcomplex z(double x) { return x; }
static dcomplex z(dcomplex x) { return x; }
template <typename S> S sc(J const &o) {
  if constexpr (std::is_same_v<S, double>) return o["re"].d(); else return dcomplex(o["re"].d(), o["im"].d());
}
static std::string amp(fock_state_t f, dcomplex c, double unit = 1) {
  return "[" + drv::js(bits(f)) + "," + std::to_string(drv::L(c.real() * unit)) + "," + std::to_string(drv::L(c.imag() * unit)) + "]";
}
struct setup {
  std::vector<indices_t> names;
  fundamental_operator_set fops;
  std::vector<int> pos; // position of each mode
  setup(J const &h) {
    for (auto const &t : h["names"].a) names.push_back(ind(t));
    for (int i = 0; i < h["padlow"].l(); ++i) fops.insert("padlow", i);
    for (auto k : h["order"].longs()) fops.insert_from_indices_t(names[k - 1]);
    for (int i = 0; i < h["pad"].l(); ++i) fops.insert("pad", i); // orbitals no operator acts on
    for (auto const &t : names) pos.push_back(fops[t]);
  }
  template <typename S> many_body_operator_generic<S> op(J const &terms) const {
    many_body_operator_generic<S> r;
    for (auto const &t : terms.a) {
      monomial_t m;
      for (auto x : t[0].longs()) m.push_back({x > 0, names[std::abs(x) - 1]});
      S c;
      if constexpr (std::is_same_v<S, double>) c = t[1].d(); else c = dcomplex(t[1].d(), t[2].d());
      r += many_body_operator_generic<S>(c, m);
    }
    return r;
  }
  static drv::raw echo(J const &terms) {
    std::string s = "[";
    for (auto const &t : terms.a) s += (s.size() > 1 ? ",[" : "[") + drv::js(t[0].longs()) + "," + std::to_string(t[1].l()) + "," + std::to_string(t[2].l()) + "]";
    return {s + "]"};
  }
};

// ------------------------------------------------------------------------------------------------ C10
template <typename HS, typename S, bool Map> struct machine {
  using St = state<HS, S, Map>;
  static constexpr bool sub = std::is_same_v<HS, sub_hilbert_space>;
  setup su;
  FullHS full;
  std::vector<sub_hilbert_space> spaces;
  std::vector<St> R;
  machine(J const &h) : su(h), full(sub ? FullHS{} : FullHS{su.fops}) {}
  HS const &hs(int sp) const {
    if constexpr (sub) return spaces[sp]; else return full;
  }
  fock_state_t idx(HS const &s, fock_state_t f) const { return s.get_state_index(f); }
  template <typename T> static std::vector<std::string> amps(T const &st, double unit = 1) {
    std::vector<std::string> r;
    foreach (st, [&](auto i, auto a) { if (z(a) != 0.0) r.push_back(amp(st.get_hilbert().get_fock_state(i), a, unit)); });
    return r;
  }
  static drv::raw join(std::vector<std::string> const &v) {
    std::string s;
    for (auto const &x : v) s += (s.empty() ? "" : ",") + x;
    return {"[" + s + "]"};
  }
  std::vector<std::vector<std::vector<int>>> listed() const {
    std::vector<std::vector<std::vector<int>>> v;
    for (auto const &s : spaces) {
      v.emplace_back();
      for (auto f : s.get_all_fock_states()) v.back().push_back(bits(f));
    }
    return v;
  }
  int spof(St const &s) const {
    if constexpr (sub) return s.get_hilbert().get_index(); else return 0;
  }
  void out(char const *e, J const &o) {
    int d = o["d"].l();
    E(e)("d", d)("a", o["a"].l())("b", o["b"].l())("re", o["re"].l())("im", o["im"].l())("sp", spof(R[d]))("r", join(amps(R[d])));
  }
  template <typename I> St apply(I const &I_, St const &s) { return I_(s); }
  void run(J const &h) {
    for (auto const &sp : h["spaces"].a) {
      spaces.emplace_back(int(spaces.size()));
      for (auto const &f : sp.a) spaces.back().add_fock_state(unbits(f));
    }
    R.assign(4, St(hs(0)));
    E("Reset")("kind", "states")("pos", su.pos)("sub", sub)("map", Map)("cplx", !std::is_same_v<S, double>)("n", su.fops.size())("spaces", listed());
    for (auto const &o : h["ops"].a) {
      auto const &op = o["op"].s;
      int d = o["d"].l(), a = o["a"].l(), b = o["b"].l(), how = o["how"].l(), sp = o["sp"].l();
      if (op == "zero") { R[d] = St(hs(sp)); out("ZeroState", o);
      } else if (op == "mkzero") { R[d] = make_zero_state(R[a]); out("MkZero", o);
      } else if (op == "basis") {
        R[d] = St(hs(sp), idx(hs(sp), unbits(o["f"])));
        E ev("Basis");
        ev("d", d)("f", bits(unbits(o["f"])))("sp", spof(R[d]))("size", bits(R[d].size()))("hsize", bits(hs(sp).size()))("r", join(amps(R[d])));
      } else if (op == "set" || op == "inc") { // one amplitude; ignored when the state is not in the space
        auto const &s = R[d].get_hilbert();
        if (!s.has_state(unbits(o["f"]))) continue;
        if (op == "set") R[d](idx(s, unbits(o["f"]))) = sc<S>(o); else R[d](idx(s, unbits(o["f"]))) += sc<S>(o);
        E ev(op == "set" ? "SetAmp" : "IncAmp");
        ev("d", d)("f", bits(unbits(o["f"])))("re", o["re"].l())("im", o["im"].l())("r", join(amps(R[d])));
      } else if (op == "add" || op == "sub") {
        if (&R[a].get_hilbert() != &R[b].get_hilbert()) continue; // states of different spaces are not combined
        if (op == "add") { if (how && d == a) R[d] += R[b]; else R[d] = R[a] + R[b]; } else { if (how && d == a) R[d] -= R[b]; else R[d] = R[a] - R[b]; }
        out(op == "add" ? "AddState" : "SubState", o);
      } else if (op == "muls") { if (how == 1 && d == a) R[d] *= sc<S>(o); else if (how == 2) R[d] = sc<S>(o) * R[a]; else R[d] = R[a] * sc<S>(o); out("MulState", o);
      } else if (op == "divs") {
        auto x = R[a];
        if (how) x /= sc<S>(o); else x = R[a] / sc<S>(o);
        E("DivState")("a", a)("re", o["re"].l())("im", o["im"].l())("r", join(amps(x, 4)));
      } else if (op == "dot") {
        if (&R[a].get_hilbert() != &R[b].get_hilbert()) continue;
        dcomplex v = z(dot_product(R[a], R[b]));
        E("Dot")("a", a)("b", b)("v", std::vector<long>{drv::L(v.real()), drv::L(v.imag())});
      } else if (op == "copy") { R[d] = R[a]; out("CopyState", o);
      } else if (op == "act") {
        many_body_operator_generic<S> O;
        if (o.has("left")) O = su.op<S>(o["left"]) * su.op<S>(o["terms"]); else O = su.op<S>(o["terms"]);
        imperative_operator<HS, S, false> I(O, su.fops), none;
        bool empty = I.is_empty(), e0 = none.is_empty();
        if (o.has("times")) { double t = o["times"].d(); I.update([t](S &x) { x *= t; }); }
        R[d] = I(R[a]);
        E ev("Act");
        ev("d", d)("a", a)("op", setup::echo(o["terms"]))("left", setup::echo(o["left"]))("isleft", o.has("left"))("times", o["times"].l(1))("empty", empty)("e0", e0)("sp", spof(R[d]))("r", join(amps(R[d])));
      } else if (op == "actmap") {
        if constexpr (sub) {
          std::vector<int> hm;
          for (auto x : o["map"].longs()) hm.push_back(x);
          imperative_operator<HS, S, true> I(su.op<S>(o["terms"]), su.fops, hm, &spaces);
          int src = spof(R[a]);
          St r = I(R[a]);
          if (hm[src] == -1) { // the result belongs to no space
            r = St(hs(0));
          }
          R[d] = r;
          E ev("ActMap");
          ev("d", d)("a", a)("op", setup::echo(o["terms"]))("src", src)("map", o["map"].longs())("sp", spof(R[d]))("r", join(amps(R[d])));
        }
      } else if (op == "project") { // onto each subspace, and into the full space when it is not too large
        std::vector<std::string> out_;
        for (auto const &s : spaces) {
          auto p = project<state<sub_hilbert_space, S, Map>>(R[a], s);
          auto q = project<state<sub_hilbert_space, S, !Map>>(R[a], s);
          out_.push_back("[" + join(amps(p)).s + "," + join(amps(q)).s + "]");
        }
        E("Project")("a", a)("r", join(out_));
        if (su.fops.size() <= 12) {
          FullHS fl(su.fops);
          auto p = project<state<FullHS, S, Map>>(R[a], fl);
          auto q = project<state<FullHS, S, !Map>>(R[a], fl);
          E("ProjectFull")("a", a)("r", drv::raw{"[" + join(amps(p)).s + "," + join(amps(q)).s + "]"});
        }
      } else if (op == "print") {
        std::ostringstream os;
        os << R[a];
        std::vector<std::string> order;
        bool small = true;
        foreach (R[a], [&](auto i, auto x) {
          auto f = R[a].get_hilbert().get_fock_state(i);
          if (z(x) != 0.0) order.push_back(amp(f, z(x)));
          small &= f < (1ull << 30);
        });
        // amplitudes visited: all of them for a vector, the nonzero ones for a map
        long n = 0;
        foreach (R[a], [&](auto, auto) { ++n; });
        E("PrintState")("a", a)("order", join(order))("small", small)("n", n)("size", R[a].size())("s", os.str());
      } else abort();
    }
  }
};

// ------------------------------------------------------------------------------------------------ C12
template <typename S, bool Map> void partition(J const &h) {
  setup su(h);
  using St = state<FullHS, S, Map>;
  using Op = imperative_operator<FullHS, S, false>;
  using SP = space_partition<St, Op>;
  FullHS full(su.fops);
  E("Reset")("kind", "partition")("pos", su.pos)("n", su.fops.size());
  std::unique_ptr<SP> sp;
  auto index = [&] {
    std::vector<int> v;
    foreach (*sp, [&](auto i, auto n) { if (size_t(i) != v.size()) abort(); v.push_back(n); });
    for (size_t i = 0; i < v.size(); ++i) if (int(sp->lookup_basis_state(i)) != v[i]) v[i] = -7;
    return v;
  };
  auto elems = [](auto const &m) {
    std::vector<std::vector<long>> v;
    for (auto const &[k, x] : m) v.push_back({long(k.first), long(k.second), drv::L(z(x).real()), drv::L(z(x).imag())});
    return v;
  };
  for (auto const &o : h["ops"].a) {
    auto const &op = o["op"].s;
    if (op == "part") {
      Op H(su.op<S>(o["terms"]), su.fops);
      bool hyb = o.has("hyb"), store = o["store"].t();
      if (hyb) sp = std::make_unique<SP>(St(full), H, store, Op(su.op<S>(o["hyb"]), su.fops));
      else if (store && o["how"].l()) sp = std::make_unique<SP>(St(full), H);
      else sp = std::make_unique<SP>(St(full), H, store);
      E("Part")("op", setup::echo(o["terms"]))("hyb", setup::echo(o["hyb"]))("store", store)("n", int(sp->n_subspaces()))("ix", index())("el", elems(sp->get_matrix_elements()));
    } else if (op == "copy") { sp = std::make_unique<SP>(*sp); E("Still")("ix", index())("n", int(sp->n_subspaces()));
    } else if (op == "merge") {
      Op Cd(su.op<S>(o["terms"]), su.fops), C(su.op<S>(o["conj"]), su.fops);
      auto [a, b] = sp->merge_subspaces(Cd, C, o["store"].t());
      E("Merge")("op", setup::echo(o["terms"]))("conj", setup::echo(o["conj"]))("store", o["store"].t())("n", int(sp->n_subspaces()))("ix", index())("el", elems(a))("elc", elems(b));
    } else if (op == "find") {
      std::vector<std::pair<int, int>> v;
      for (auto const &x : sp->find_mappings(Op(su.op<S>(o["terms"]), su.fops), o["diag"].t())) v.push_back({int(x.first), int(x.second)});
      E("Find")("op", setup::echo(o["terms"]))("diag", o["diag"].t())("v", v);
    } else abort();
  }
}

int main() {
  return drv::main_loop([](J const &h) {
    bool cplx = h["scalar"].s == "complex", map = h["map"].t(), sub = h["sub"].t();
    auto go = [&](auto hs, auto s) {
      using H = decltype(hs);
      using S = decltype(s);
      if (map) machine<H, S, true>(h).run(h); else machine<H, S, false>(h).run(h);
    };
    if (h["kind"].s == "partition") {
      if (cplx) { if (map) partition<dcomplex, true>(h); else partition<dcomplex, false>(h); }
      else { if (map) partition<double, true>(h); else partition<double, false>(h); }
    } else if (sub) { if (cplx) go(sub_hilbert_space{}, dcomplex{}); else go(sub_hilbert_space{}, double{}); }
    else { if (cplx) go(FullHS{}, dcomplex{}); else go(FullHS{}, double{}); }
  });
}
