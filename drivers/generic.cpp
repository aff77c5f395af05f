// Tuple tools, real_or_complex, numeric helpers, iterators, factories, Legendre polynomials.
#include "drv.hpp"
#include <list>
#include <triqs/utility/first_include.hpp>
#include <triqs/utility/dressed_iterator.hpp>
#include <triqs/utility/factory.hpp>
#include <triqs/utility/kronecker.hpp>
#include <triqs/utility/lazy_bracket.hpp>
#include <triqs/utility/legendre.hpp>
#include <triqs/utility/numeric_ops.hpp>
#include <triqs/utility/real_or_complex.hpp>
#include <triqs/utility/tuple_tools.hpp>
#include <triqs/utility/variant_extensions.hpp>
namespace tt = triqs::tuple;
using VL     = std::vector<long>;
template <typename T> VL vec(T const &t) { return std::apply([](auto... x) { return VL{long(x)...}; }, t); }
struct H { VL v; template <typename... T> H(T... x) : v{long(x)...} {} };
struct horner { template <typename... T> long operator()(T... x) const { long r = 0; ((r = 10 * r + x), ...); return r; } };
template <typename R> VL revec(R const &) { return {}; }

template <size_t N, size_t... Is> auto mk_(VL const &v, std::index_sequence<Is...>) {
  // alternate the element types
  return std::make_tuple(std::conditional_t<Is % 2, int, long>(v[Is])...);
}
template <size_t N> auto mk(VL const &v) { return mk_<N>(v, std::make_index_sequence<N>()); }

template <size_t N> void tuples(VL const &a, VL const &b) {
  auto t = mk<N>(a);
  auto u = mk<N>(b);
  VL foreach_, rev, rep;
  std::vector<VL> en, zip;
  tt::for_each(t, [&](auto x) { foreach_.push_back(x); });
  tt::for_each_enumerate(t, [&](int n, auto x) { en.push_back({n, long(x)}); });
  tt::for_each_zip([&](auto x, auto y) { zip.push_back({long(x), long(y)}); }, t, u);
  tt::for_each(std::reverse(t), [&](auto x) { rev.push_back(x); });
  long fold  = tt::fold([](long x, long r) { return 3 * r + x; }, t, 7l);
  long fold2 = tt::fold([](long x, long y, long r) { return 3 * r + x - 2 * y; }, t, u, 7l);
  std::stringstream os;
  os << t;
  auto map    = vec(tt::map([](auto x) { return 2 * x + 1; }, t));
  auto mapzip = vec(tt::map_on_zip([](auto x, auto y) { return long(x - 5 * y); }, t, u));
  VL pop;
  if constexpr (N > 1) pop = vec(tt::pop_front(t));
  E("Tuple")("t", a)("u", b)("apply", tt::apply(horner{}, t))("construct", tt::apply_construct_parenthesis<H>(t).v)("called", tt::called_on_tuple(horner{})(t))(
     "foreach", foreach_)("enumerate", en)("zip", zip)("map", map)("mapzip", mapzip)("fold", fold)("fold2", fold2)("rev", rev)("push_back", vec(tt::push_back(t, 99)))(
     "push_front", vec(tt::push_front(t, 99)))("pop_front", pop)("str", os.str())("rep", vec(tt::make_tuple_repeat<3>(std::get<0>(t))))("after", vec(t));
}
template <int... I> void select(VL const &a) {
  auto t = mk<4>(a);
  auto l = std::make_tuple(a[0], a[1], a[2], a[3]);
  VL out;
  if constexpr (sizeof...(I) < 4) out = vec(tt::filter_out<I...>(t));
  E("Select")("t", a)("I", VL{I...})("filter", vec(tt::filter<size_t(I)...>(t)))("out", out)("replace", vec(tt::replace<I...>(l, -1l)));
}
using triqs::utility::real_or_complex;
static real_or_complex num(J const &j) { return j["real"].t() ? real_or_complex(j["re"].d()) : real_or_complex(std::complex<double>(j["re"].d(), j["im"].d())); }
static drv::raw out(real_or_complex const &x) {
  std::complex<double> z(x);
  return {"{\"re\":" + std::to_string(drv::L(z.real())) + ",\"im\":" + std::to_string(drv::L(z.imag())) + ",\"real\":" + (x.is_real() ? "true" : "false") + "}"};
}
struct dress { long const &first; long scaled; dress(std::list<std::pair<long, long>>::iterator const &it, long *aux) : first(it->first), scaled(it->second * *aux) {} };
struct dress0 { long first, second; dress0(std::list<std::pair<long, long>>::iterator const &it) : first(it->first), second(it->second) {} };

template <typename Op> void bin(char const *name, J const &o, Op op) {
  real_or_complex a = num(o["a"]), b = num(o["b"]);
  std::complex<double> zb(b);
  int how = o["how"].l();
  real_or_complex r;
  auto cplx = [](std::complex<double> z) { return real_or_complex(z); };
  if (how == 0) r = op(a, b);
  else if (how == 1) r = b.is_real() ? op(a, double(b)) : op(a, zb);
  else r = a.is_real() ? real_or_complex(op(double(a), b)) : real_or_complex(op(std::complex<double>(a), b));
  E("Bin")("o", name)("a", out(a))("b", out(b))("r", out(r));
}
static void history(J const &h) {
  E("Reset");
  for (auto const &o : h["ops"].a) {
    auto const &op = o["op"].s;
    VL a = o["t"].k == J::Arr && o["t"].size() && o["t"][0].k == J::Num ? o["t"].longs() : VL{}, b = o["u"].longs();
    if (op == "tuple") {
      if (a.size() == 1) tuples<1>(a, b);
      if (a.size() == 2) tuples<2>(a, b);
      if (a.size() == 3) tuples<3>(a, b);
      if (a.size() == 4) tuples<4>(a, b);
      if (a.size() == 5) tuples<5>(a, b);
    } else if (op == "select") {
      select<0>(a); select<1>(a); select<3>(a); select<0, 2>(a); select<1, 3>(a); select<0, 1, 3>(a); select<1, 2>(a); select<2, 3>(a); select<0, 3>(a); select<0, 1, 2, 3>(a); select<0, 1, 2>(a); select<1, 2, 3>(a);
    } else if (op == "bracket") {
      using triqs::utility::make_lazy_bracket;
      long r = 0;
      if (a.size() == 1) r = make_lazy_bracket<1>(horner{}, a[0]);
      if (a.size() == 2) r = make_lazy_bracket<2>(horner{}, a[0])[a[1]];
      if (a.size() == 3) r = make_lazy_bracket<3>(horner{}, a[0])[a[1]][a[2]];
      if (a.size() == 4) r = make_lazy_bracket<4>(horner{}, a[0])[a[1]][a[2]][a[3]];
      E("Bracket")("t", a)("r", r);
    } else if (op == "factory") {
      std::vector<std::vector<int>> v;
      for (auto const &x : o["t"].a) { v.emplace_back(); for (auto y : x.longs()) v.back().push_back(int(y)); }
      using VVL = std::vector<VL>;
      VVL r;
      if (o["how"].l() == 0) r = triqs::utility::factory<VVL>(v);
      else if (o["how"].l() == 1) r = triqs::utility::factory<VVL>(std::vector<std::vector<int>>(v));
      else { auto const &cv = v; r = triqs::utility::factory<VVL>(cv); }
      E("Factory")("t", v)("r", r);
    } else if (op == "dressed") {
      std::list<std::pair<long, long>> l;
      std::vector<VL> in, seen, back;
      for (auto const &x : o["t"].a) { l.emplace_back(x[0].l(), x[1].l()); in.push_back(x.longs()); }
      long aux = o["aux"].l(1);
      bool conv = true;
      if (aux != 1) {
        using It = triqs::utility::dressed_iterator<std::list<std::pair<long, long>>::iterator, dress, long>;
        It i(l.begin(), &aux), e(l.end(), &aux);
        for (; i != e; ++i) seen.push_back({(*i).first, i->scaled});
        It k; k = i; It m(k); It n; n = std::move(m);
        for (It s(l.begin(), &aux); n != s;) { --n; back.push_back({n->first, n->scaled}); }
        conv = n.get_aux() == &aux && n.get() == l.begin() && std::list<std::pair<long, long>>::iterator(n) == l.begin();
      } else {
        using It = triqs::utility::dressed_iterator<std::list<std::pair<long, long>>::iterator, dress0>;
        It i(l.begin()), e(l.end());
        for (; i != e; i++) seen.push_back({i->first, (*i).second});
        It k; k = i; It m(k); It n; n = std::move(m);
        for (It s(l.begin()); n != s;) { --n; back.push_back({n->first, n->second}); }
        conv = n.get() == l.begin();
      }
      E("Dressed")("t", in)("aux", aux)("seen", seen)("back", back)("conv", conv);
    } else if (op == "variant") {
      std::vector<std::variant<long, std::string>> v;
      std::string t = "[";
      std::vector<std::string> each;
      for (auto const &x : o["t"].a) {
        if (t.size() > 1) t += ",";
        if (x.k == J::Num) { v.emplace_back(x.l()); t += drv::quote(std::to_string(x.l())); } else { v.emplace_back(x.s); t += drv::quote(x.s); }
        each.push_back(std::to_string(v.back()));
      }
      std::stringstream os;
      std::operator<<(os, v);
      E("Variant")("t", drv::raw{t + "]"})("str", os.str())("each", each);
    } else if (op == "+") bin("+", o, [](auto const &x, auto const &y) { return x + y; });
    else if (op == "-") bin("-", o, [](auto const &x, auto const &y) { return x - y; });
    else if (op == "*") bin("*", o, [](auto const &x, auto const &y) { return x * y; });
    else if (op == "/") bin("/", o, [](auto const &x, auto const &y) { return x / y; });
    else if (op == "un") {
      auto x = num(o["a"]);
      std::stringstream os;
      os << x;
      bool thrown = false;
      double d = 0;
      try { d = double(x); } catch (triqs::runtime_error const &) { thrown = true; }
      double m = abs(x);
      E("Un")("a", out(x))("neg", out(-x))("conj", out(conj(x)))("cre", drv::L(real(x)))("cim", drv::L(imag(x)))("zero", is_zero(x))("thrown", thrown)("dbl", drv::L(d))("str", os.str())("abs2", drv::L(m * m));
    } else if (op == "eq") {
      auto x = num(o["a"]), y = num(o["b"]);
      E("Eq")("a", out(x))("b", out(y))("eq", x == y)("ne", x != y);
    } else if (op == "zero") {
      namespace tu = triqs::utility;
      long x = o["x"].l(), y = o["y"].l(), tol = o["tol"].l();
      bool r = tu::is_zero(x / 1024.0, tol / 1024.0) && tu::is_zero(float(x / 1024.0), float(tol / 1024.0));
      bool r2 = tu::is_zero(x / 1024.0, tol / 1024.0) || tu::is_zero(float(x / 1024.0), float(tol / 1024.0));
      E("Zero")("x", x)("y", y)("tol", tol)("r", r)("c", tu::is_zero(std::complex<double>(x / 1024.0, y / 1024.0), tol / 1024.0))("i", tu::is_zero(x) && tu::is_zero(int(x)) && (x != 0 || tu::is_zero(0.0)) && tu::is_zero(x / 1024.0));
      if (r != r2) E("Zero")("x", x)("y", y)("tol", tol)("r", r2)("c", false)("i", false);
      std::complex<double> z(x, y);
      using drv::L;
      E("Parts")("x", x)("y", y)("r", VL{tu::real(x), tu::imag(x), tu::conj(x), L(tu::real(double(x))), L(tu::imag(double(x))), L(tu::conj(double(x))), L(std::complex<double>(tu::real(z)).real()), L(std::complex<double>(tu::imag(z)).real()), L(tu::conj(z).real()), L(tu::conj(z).imag())});
      E("Kron")("x", x)("y", y)("r", tu::kronecker(x, y));
      E("Kron")("x", x)("y", x)("r", tu::kronecker(double(x), x));
    } else if (op == "leg") {
      long a = o["a"].l(), n = o["n"].l();
      triqs::utility::legendre_generator g;
      VL q;
      if (o["how"].l()) { g.reset(0.7); g.next(); g.next(); g.next(); }
      g.reset(a / 2.0);
      for (int k = 0; k < n; ++k) q.push_back(drv::L(std::pow(4.0, k) * g.next()));
      E("Leg")("a", a)("q", q);
    } else if (op == "tlp") {
      long l = o["l"].l(), p = o["p"].l();
      E("Tlp")("l", l)("p", p)("f", drv::L(triqs::utility::legendre_t(l, p) / (2 * std::sqrt(2. * l + 1))));
    }
  }
}
int main() { return drv::main_loop(history); }
