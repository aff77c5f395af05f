// C08 fundamental operator sets, C09 Hilbert spaces, C11 many-body operators (register machines).
#include "drv.hpp"
#include <memory>
#include <h5/h5.hpp>
#include <triqs/utility/first_include.hpp>
#include <triqs/operators/many_body_operator.hpp>
#include <triqs/hilbert_space/hilbert_space.hpp>
using namespace triqs::operators;
using triqs::hilbert_space::fundamental_operator_set;
using triqs::hilbert_space::hilbert_space;
using triqs::hilbert_space::sub_hilbert_space;
using triqs::hilbert_space::fock_state_t;
using triqs::utility::real_or_complex;
using dcomplex = std::complex<double>;

static indices_t ind(J const &j) {
  indices_t r;
  for (auto const &x : j.a)
    if (x.k == J::Str) r.push_back(x.s); else r.push_back(long(x.l()));
  return r;
}
struct enc_ { std::string operator()(long i) const { return "i" + std::to_string(i); } std::string operator()(std::string const &s) const { return "s" + s; } };
static std::string enc(indices_t const &t) {
  std::string r;
  for (auto const &x : t) r += "|" + std::visit(enc_{}, x);
  return r;
}
template <typename F> bool throws(F f) {
  try { f(); } catch (triqs::exception const &) { return true; }
  return false;
}
static std::shared_ptr<h5::file> FILE_;
static int fileno_ = 0;
static h5::group fresh() {
  FILE_ = std::make_shared<h5::file>("scratch" + std::to_string(fileno_++), 'w');
  return h5::group(*FILE_);
}

// ------------------------------------------------------------------------------------------------ C08
using FV = std::vector<std::string>;
static FV list(fundamental_operator_set const &f) {
  FV r;
  for (auto const &t : f.data()) r.push_back(enc(t));
  return r;
}
static void c08(J const &h) {
  std::vector<fundamental_operator_set> R(4);
  E("Reset")("kind", "fops");
  for (auto const &o : h["ops"].a) {
    auto const &op = o["op"].s;
    int d = o["d"].l();
    auto &f = R[d];
    if (op == "insert") {
      auto t = ind(o["t"]);
      int how = o["how"].l();
      bool done = false;
      if (how == 1) { // the variadic form
        done = true;
        auto L = [&](int i) { return std::get<long>(t[i]); };
        auto S = [&](int i) { return std::get<std::string>(t[i]); };
        auto isL = [&](int i) { return t[i].index() == 0; };
        if (t.size() == 0) f.insert();
        else if (t.size() == 1 && isL(0)) f.insert(L(0));
        else if (t.size() == 1) f.insert(S(0));
        else if (t.size() == 2 && isL(0) && isL(1)) f.insert(L(0), L(1));
        else if (t.size() == 2 && !isL(0) && isL(1)) f.insert(S(0), L(1));
        else if (t.size() == 2 && isL(0) && !isL(1)) f.insert(L(0), S(1));
        else if (t.size() == 2) f.insert(S(0), S(1));
        else done = false;
      }
      if (!done) f.insert_from_indices_t(t);
      E("Insert")("d", d)("t", enc(t))("v", list(f))("n", f.size());
    } else if (op == "merge") {
      auto src = R[o["a"].l()];
      for (auto const &x : src) f.insert_from_indices_t(x.index);
      E("Merge")("d", d)("a", o["a"].l())("v", list(f));
    } else if (op == "look") {
      auto t = ind(o["t"]);
      int pos = -1;
      bool thrown = throws([&] { pos = f[t]; });
      E("Look")("d", d)("t", enc(t))("has", f.has_indices(t))("thrown", thrown)("pos", pos);
    } else if (op == "walk") {
      std::vector<std::pair<std::string, int>> a, b;
      for (auto const &x : f) a.push_back({enc(x.index), x.linear_index});
      for (auto it = f.cbegin(); it != f.cend(); ++it) b.push_back({enc(it->index), it->linear_index});
      FV conv;
      for (auto const &t : fundamental_operator_set::data_t(f)) conv.push_back(enc(t));
      E("Walk")("d", d)("fwd", a)("cfwd", b)("conv", conv);
    } else if (op == "copy") { R[d] = R[o["a"].l()]; E("Copy")("d", d)("a", o["a"].l())("v", list(f));
    } else if (op == "fromlist") {
      fundamental_operator_set::data_t v; // distinct tuples
      FV g;
      for (auto const &t : o["v"].a) { v.push_back(ind(t)); g.push_back(enc(v.back())); }
      f = fundamental_operator_set(v);
      E("From")("d", d)("how", "list")("given", g)("v", list(f));
    } else if (op == "fromset") {
      FV g;
      if (o["how"].l() == 0) {
        std::set<long> s;
        for (auto const &t : o["v"].a) s.insert(t.l());
        f = fundamental_operator_set(s);
        for (auto x : s) g.push_back("|i" + std::to_string(x));
      } else {
        std::set<std::string> s;
        for (auto const &t : o["v"].a) s.insert("x" + std::to_string(t.l()));
        f = fundamental_operator_set(s);
        for (auto x : s) g.push_back("|s" + x);
      }
      E("From")("d", d)("how", "set")("given", g)("v", list(f));
    } else if (op == "fromints") {
      std::vector<int> v;
      for (auto x : o["v"].longs()) v.push_back(x);
      f = fundamental_operator_set(v);
      E("Ints")("d", d)("sizes", o["v"].longs())("v", list(f));
    } else if (op == "fromgf") {
      triqs::gfs::gf_struct_t g;
      std::vector<std::pair<std::string, long>> gg;
      for (auto const &x : o["v"].a) { g.push_back({x[0].s, x[1].l()}); gg.push_back({x[0].s, x[1].l()}); }
      f = fundamental_operator_set(g);
      E("Gf")("d", d)("blocks", gg)("v", list(f));
    } else if (op == "eq") E("Eq")("d", d)("a", o["a"].l())("eq", f == R[o["a"].l()]);
    else if (op == "h5") {
      auto g = fresh();
      h5_write_attribute(g, "fops", R[o["a"].l()]);
      h5_read_attribute(g, "fops", f);
      E("Copy")("d", d)("a", o["a"].l())("v", list(f));
    } else abort();
  }
}

// ------------------------------------------------------------------------------------------------ C09
static std::vector<int> bits(fock_state_t f) {
  std::vector<int> r;
  for (int i = 0; i < 64; ++i) if ((f >> i) & 1) r.push_back(i);
  return r;
}
static fock_state_t unbits(J const &j) {
  fock_state_t f = 0;
  for (auto x : j.longs()) f |= uint64_t(1) << x;
  return f;
}
template <typename S> static void c09h5(S &x) {
  auto g = fresh();
  h5_write(g, "s", x);
  S y;
  if constexpr (std::is_same_v<S, sub_hilbert_space>) y.add_fock_state(12345); // reading must replace what was there
  h5_read(g, "s", y);
  x = y;
}
static void c09(J const &h) {
  E("Reset")("kind", "spaces");
  fundamental_operator_set fops;
  std::unique_ptr<hilbert_space> full;
  std::vector<sub_hilbert_space> sub(3);
  for (auto const &o : h["ops"].a) {
    auto const &op = o["op"].s;
    int d = o["d"].l();
    if (op == "full") {
      fops = {};
      int n = o["n"].l();
      for (int i = 0; i < n; ++i) { if (i % 2) fops.insert("x", i); else fops.insert(i); }
      full = std::make_unique<hilbert_space>(fops);
      E("Full")("n", n)("size", full->size());
    } else if (op == "fhas") E("FHas")("f", bits(unbits(o["f"])))("has", full->has_state(unbits(o["f"])));
    else if (op == "findex") {
      long i = -1;
      bool t = throws([&] { i = full->get_state_index(unbits(o["f"])); });
      E("FIndex")("f", bits(unbits(o["f"])))("thrown", t)("i", bits(t ? 0 : i));
    } else if (op == "ffock") {
      fock_state_t f = 0;
      auto i = unbits(o["i"]);
      bool t = throws([&] { f = full->get_fock_state(int(i)); });
      E("FFock")("i", bits(i))("thrown", t)("f", bits(f));
    } else if (op == "fgen") { // Fock state with the given operators occupied; with sub: on a larger set of operators
      std::set<indices_t> s;
      for (auto p : o["p"].longs()) s.insert(p % 2 ? indices_t{"x", long(p)} : indices_t{long(p)});
      auto g = fops;
      if (o["sub"].t()) for (int i = fops.size(); i < o["n"].l(); ++i) { if (i % 2) g.insert("x", i); else g.insert(i); }
      fock_state_t f = 0;
      bool t = throws([&] { f = full->get_fock_state(g, s); });
      E("FGen")("p", o["p"].longs())("n", g.size())("thrown", t)("f", bits(f));
    } else if (op == "feq") {
      fundamental_operator_set g;
      for (int i = 0; i < o["n"].l(); ++i) g.insert(i, i);
      hilbert_space b(g);
      E("FEq")("n", o["n"].l())("eq", *full == b)("ne", *full != b);
    } else if (op == "fh5") { c09h5(*full); E("FSize")("size", full->size());
    } else if (op == "new") { sub[d] = sub_hilbert_space(o["i"].l()); E("New")("d", d)("i", o["i"].l());
    } else if (op == "new0") { sub[d] = sub_hilbert_space(); E("New")("d", d)("i", -1);
    } else if (op == "setindex") { sub[d].set_index(o["i"].l()); E("SetIndex")("d", d)("i", o["i"].l());
    } else if (op == "add") { sub[d].add_fock_state(unbits(o["f"])); E("Add")("d", d)("f", bits(unbits(o["f"])))("size", sub[d].size());
    } else if (op == "has") E("Has")("d", d)("f", bits(unbits(o["f"])))("has", sub[d].has_state(unbits(o["f"])));
    else if (op == "index") E("Index")("d", d)("f", bits(unbits(o["f"])))("i", sub[d].get_state_index(unbits(o["f"])));
    else if (op == "fock") E("Fock")("d", d)("i", o["i"].l())("f", bits(sub[d].get_fock_state(o["i"].l())));
    else if (op == "all") {
      std::vector<std::vector<int>> v;
      std::vector<int> ix;
      for (auto f : sub[d].get_all_fock_states()) { v.push_back(bits(f)); ix.push_back(sub[d].get_state_index(f)); }
      E("All")("d", d)("v", v)("ix", ix)("size", sub[d].size())("i", sub[d].get_index());
    } else if (op == "copy") { sub[d] = sub[o["a"].l()]; E("SCopy")("d", d)("a", o["a"].l());
    } else if (op == "h5") { sub[d] = sub[o["a"].l()]; c09h5(sub[d]); E("SCopy")("d", d)("a", o["a"].l());
    } else if (op == "eq") E("SEq")("d", d)("a", o["a"].l())("eq", sub[d] == sub[o["a"].l()])("ne", sub[d] != sub[o["a"].l()]);
    else abort();
  }
}

// ------------------------------------------------------------------------------------------------ C11
template <typename S> struct machine {
  using Op = many_body_operator_generic<S>;
  std::vector<indices_t> names;
  std::vector<Op> R = std::vector<Op>(5);
  static S sc(J const &o) {
    if constexpr (std::is_same_v<S, double>) return o["re"].d();
    else if constexpr (std::is_same_v<S, dcomplex>) return dcomplex(o["re"].d(), o["im"].d());
    else return o["im"].l() == 0 && o["real"].t() ? real_or_complex(o["re"].d()) : real_or_complex(dcomplex(o["re"].d(), o["im"].d()));
  }
  static dcomplex z(double x) { return x; }
  static dcomplex z(dcomplex x) { return x; }
  static dcomplex z(real_or_complex x) { return dcomplex(x); }
  static bool isreal(real_or_complex const &x) { return x.is_real(); }
  static bool isreal(double) { return true; }
  static bool isreal(dcomplex) { return false; }
  long mode(indices_t const &t) const {
    for (size_t i = 0; i < names.size(); ++i) if (names[i] == t) return i + 1;
    return 9999;
  }
  std::vector<long> mono(monomial_t const &m) const {
    std::vector<long> r;
    for (auto const &x : m) r.push_back(x.dagger ? mode(x.indices) : -mode(x.indices));
    return r;
  }
  template <typename O> drv::raw terms(O const &op, double unit = 1) const {
    std::string r = "[";
    for (auto const &t : op) {
      if (r.size() > 1) r += ",";
      auto c = z(t.coef);
      r += "[" + drv::js(mono(t.monomial)) + "," + std::to_string(drv::L(c.real() * unit)) + "," + std::to_string(drv::L(c.imag() * unit)) + "," + (isreal(t.coef) ? "true" : "false") + "]";
    }
    return {r + "]"};
  }
  monomial_t monomial(J const &m) const {
    monomial_t r;
    for (auto x : m.longs()) r.push_back({x > 0, names[std::abs(x) - 1]});
    return r;
  }
  Op canon(bool dag, indices_t const &t, int how) const {
    auto isL = [&](int i) { return t[i].index() == 0; };
    auto L = [&](int i) { return std::get<long>(t[i]); };
    auto St = [&](int i) { return std::get<std::string>(t[i]); };
    if (how == 1) {
      if (t.size() == 0) return dag ? c_dag<S>() : c<S>();
      if (t.size() == 1 && isL(0)) return dag ? c_dag<S>(L(0)) : c<S>(L(0));
      if (t.size() == 1) return dag ? c_dag<S>(St(0)) : c<S>(St(0));
      if (t.size() == 2 && isL(0) && isL(1)) return dag ? c_dag<S>(L(0), L(1)) : c<S>(L(0), L(1));
      if (t.size() == 2 && !isL(0) && isL(1)) return dag ? c_dag<S>(St(0), L(1)) : c<S>(St(0), L(1));
    }
    return Op::make_canonical(dag, t);
  }
  Op num(indices_t const &t) const {
    auto isL = [&](int i) { return t[i].index() == 0; };
    if (t.size() == 1 && isL(0)) return n<S>(std::get<long>(t[0]));
    if (t.size() == 1) return n<S>(std::get<std::string>(t[0]));
    if (t.size() == 2 && !isL(0) && isL(1)) return n<S>(std::get<std::string>(t[0]), std::get<long>(t[1]));
    return Op::make_canonical(true, t) * Op::make_canonical(false, t);
  }
  void out(char const *e, J const &o) {
    int d = o["d"].l();
    E ev(e);
    ev("d", d)("a", o["a"].l())("b", o["b"].l())("k", o["k"].l())("re", o["re"].l())("im", o["im"].l())("real", isreal(sc(o)))("r", terms(R[d]));
  }
  void run(J const &h) {
    for (auto const &t : h["names"].a) names.push_back(ind(t));
    FV text;
    for (auto const &t : names) {
      std::ostringstream os; // how a name is expected to print
      int u = 0;
      for (auto const &x : t) { if (u++) os << ","; if (x.index() == 0) os << std::get<long>(x); else os << "'" << std::get<std::string>(x) << "'"; }
      text.push_back("(" + os.str() + ")");
    }
    E("Reset")("kind", "ops")("scalar", h["scalar"].s)("names", text);
    for (auto const &o : h["ops"].a) {
      auto const &op = o["op"].s;
      int d = o["d"].l(), a = o["a"].l(), b = o["b"].l(), how = o["how"].l();
      if (op == "c" || op == "cdag") { R[d] = canon(op == "cdag", names[o["k"].l() - 1], how); out(op == "c" ? "C" : "Cdag", o);
      } else if (op == "n") { R[d] = num(names[o["k"].l() - 1]); out("N", o);
      } else if (op == "scalar") { R[d] = Op(sc(o)); out("Scalar", o);
      } else if (op == "mono") {
        R[d] = Op(sc(o), monomial(o["m"]));
        E ev("Mono");
        ev("d", d)("m", o["m"].longs())("re", o["re"].l())("im", o["im"].l())("real", isreal(sc(o)))("r", terms(R[d]));
      } else if (op == "add") { if (how && d == a) R[d] += R[b]; else R[d] = R[a] + R[b]; out("Add", o);
      } else if (op == "sub") { if (how && d == a) R[d] -= R[b]; else R[d] = R[a] - R[b]; out("Sub", o);
      } else if (op == "mul") { if (how && d == a) R[d] *= R[b]; else R[d] = R[a] * R[b]; out("Mul", o);
      } else if (op == "adds") { if (how == 1 && d == a) R[d] += sc(o); else if (how == 2) R[d] = sc(o) + R[a]; else R[d] = R[a] + sc(o); out("AddS", o);
      } else if (op == "subs") { if (how == 1 && d == a) R[d] -= sc(o); else R[d] = R[a] - sc(o); out("SubS", o);
      } else if (op == "rsub") { R[d] = sc(o) - R[a]; out("RSub", o);
      } else if (op == "muls") { if (how == 1 && d == a) R[d] *= sc(o); else if (how == 2) R[d] = sc(o) * R[a]; else R[d] = R[a] * sc(o); out("MulS", o);
      } else if (op == "divs") { // the divisor is +-2^k i^l, the result is given times 4
        auto x = how ? R[a] : R[a] / sc(o);
        if (how) x /= sc(o);
        E("DivS")("a", a)("re", o["re"].l())("im", o["im"].l())("r", terms(x, 4));
      } else if (op == "neg") { R[d] = -R[a]; out("Neg", o);
      } else if (op == "dag") { R[d] = dagger(R[a]); out("Dag", o);
      } else if (op == "real") { R[d] = real(R[a]); out("Real", o);
      } else if (op == "imag") { R[d] = imag(R[a]); out("Imag", o);
      } else if (op == "copy") { if (how == 0) R[d] = R[a]; else if (how == 1) { Op x(R[a]); R[d] = std::move(x); } else { Op x; x = R[a]; Op y(std::move(x)); R[d] = y; } out("Copy", o);
      } else if (op == "conv") { // through the other scalar types and back
        if constexpr (std::is_same_v<S, double>) { many_body_operator x(R[a]); R[d] = Op(x); }
        else if constexpr (std::is_same_v<S, dcomplex>) { if (how) { many_body_operator x(R[a]); R[d] = x; } else { many_body_operator x; x = R[a]; R[d] = Op(x); } }
        else { many_body_operator_complex x(R[a]); E("Conv")("a", a)("r", terms(x)); R[d] = many_body_operator(x); }
        out("Copy", o);
      } else if (op == "toreal") { // conversion of a runtime scalar operator to a real one: refused if a coefficient is complex
        if constexpr (std::is_same_v<S, real_or_complex>) {
          many_body_operator_real x;
          bool t = throws([&] { x = many_body_operator_real(R[a]); });
          E("ToReal")("a", a)("src", terms(R[a]))("thrown", t)("r", terms(t ? many_body_operator_real{} : x));
        }
      } else if (op == "transform") { // multiplies by (length - k)
        long k = o["k"].l();
        R[d] = transform(R[a], [k](monomial_t const &m, S c) { return c * S(double(long(m.size()) - k)); });
        out("Transform", o);
      } else if (op == "rebuild") { // sum over the terms
        Op x;
        for (auto const &t : R[a]) x += Op(t);
        R[d] = x;
        out("Copy", o);
      } else if (op == "fops") {
        std::vector<long> v;
        auto f = R[a].make_fundamental_operator_set();
        for (auto const &x : f) v.push_back(mode(x.index));
        E("Fops")("a", a)("v", v);
      } else if (op == "query") {
        auto z0 = R[a].is_zero();
        bool close = !throws([&] { assert_operators_are_close(R[a], R[b], 1e-10); });
        E("Query")("a", a)("b", b)("eq", R[a] == R[b])("ne", R[a] != R[b])("zero", z0)("azero", R[a].is_almost_zero())("herm", is_op_hermitian(R[a]))("close", close);
      } else if (op == "print") {
        std::ostringstream os;
        os << R[a];
        std::vector<std::pair<std::string, std::vector<long>>> v;
        int len = 0;
        for (auto it = R[a].cbegin(); it != R[a].cend(); ++it) ++len;
        std::vector<std::vector<long>> pairs; // the conversion used by the Python iterator
        for (auto t : R[a]) {
          std::pair<std::vector<std::pair<bool, indices_t>>, S> p = t;
          std::vector<long> m;
          for (auto const &[dg, i] : p.first) m.push_back(dg ? mode(i) : -mode(i));
          m.push_back(drv::L(z(p.second).real()));
          pairs.push_back(m);
        }
        E("Print")("a", a)("r", terms(R[a]))("n", len)("s", os.str())("pairs", pairs);
      } else if (op == "h5") {
        auto g = fresh();
        bool big = false;
        for (auto const &t : R[a]) big |= t.monomial.size() > 4;
        bool t = false;
        if constexpr (std::is_same_v<S, real_or_complex>) {
          if (how == 1) { // with an explicit larger set of operators, read back with the set
            fundamental_operator_set f, f2;
            for (auto it = names.rbegin(); it != names.rend(); ++it) f.insert_from_indices_t(*it);
            t = throws([&] { h5_write(g, "op", R[a], f); });
            if (!t) { h5_read(g, "op", R[d], f2); if (!(f == f2)) R[d] += Op(17.0); }
          } else {
            t = throws([&] { h5_write(g, "op", R[a]); });
            if (!t) h5_read(g, "op", R[d]);
          }
        } else {
          many_body_operator x(R[a]);
          t = throws([&] { h5_write(g, "op", x); });
          if (!t) h5_read(g, "op", R[d]);
        }
        E ev("H5");
        ev("d", d)("a", a)("thrown", t)("r", terms(R[d]));
      } else abort();
    }
  }
};

int main() {
  return drv::main_loop([](J const &h) {
    auto k = h["kind"].s;
    if (k == "fops") c08(h);
    else if (k == "spaces") c09(h);
    else if (h["scalar"].s == "double") machine<double>{}.run(h);
    else if (h["scalar"].s == "complex") machine<dcomplex>{}.run(h);
    else machine<real_or_complex>{}.run(h);
  });
}
