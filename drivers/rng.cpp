// Buffered functions over a counter, and the random number generators by name.
#include "drv.hpp"
#include <triqs/mc_tools/random_generator.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/ranlux.hpp>
#include <boost/random/uniform_real.hpp>
#include <boost/random/variate_generator.hpp>
#include <random>
#include <functional>
#include <optional>
using triqs::mc_tools::random_generator;
using triqs::utility::buffered_function;

// the reference streams
struct textbook_mt { // MT19937 with the multiplicative seeding of the generator called ""
  std::vector<uint32_t> mt;
  size_t k = 624;
  textbook_mt(uint32_t seed) {
    uint32_t x = seed | 1u;
    mt.push_back(x);
    for (int i = 1; i < 624; ++i) mt.push_back(x *= 69069u);
  }
  uint32_t next() {
    // the recurrence x[n+624] = x[n+397] ^ twist(x[n], x[n+1]), kept whole
    size_t n = mt.size() - 624;
    uint32_t y = (mt[n] & 0x80000000u) | (mt[n + 1] & 0x7fffffffu);
    uint32_t z = mt[n + 397] ^ (y >> 1) ^ ((mt[n + 1] & 1u) ? 0x9908b0dfu : 0u);
    mt.push_back(z);
    z ^= z >> 11; z ^= (z << 7) & 0x9d2c5680u; z ^= (z << 15) & 0xefc60000u; z ^= z >> 18;
    return z;
  }
};
template <typename En> std::function<double()> stream(uint32_t seed) {
  auto p = std::make_shared<boost::variate_generator<En, boost::uniform_real<>>>(En(seed), boost::uniform_real<>());
  return [p]() { return (*p)(); };
}
static std::function<double()> reference(std::string const &n, uint32_t seed) {
  if (n == "") {
    auto p = std::make_shared<textbook_mt>(seed);
    return [p]() { return p->next() / 4294967295.0; };
  }
  if (n == "mt19937") {
    auto p = std::make_shared<std::mt19937>(seed);
    return [p]() { return (*p)() / 4294967296.0; };
  }
  std::map<std::string, std::function<std::function<double()>(uint32_t)>> m;
  m["mt11213b"] = stream<boost::mt11213b>;
  m["ranlux3"]  = stream<boost::ranlux3>;
#define LF(N) m["lagged_fibonacci" #N] = stream<boost::lagged_fibonacci##N>;
  LF(607) LF(1279) LF(2281) LF(3217) LF(4423) LF(9689) LF(19937) LF(23209) LF(44497)
  return m.at(n)(seed);
}
static long bits(long double x) { return long(std::floor(x * 1073741824.0L)); }

template <typename B, typename Fresh, typename V> void common(J const &o, std::vector<std::optional<B>> &h, Fresh fresh, V val) {
  auto const &op = o["op"].s;
  int i = o["i"].l(1), j = o["j"].l(1);
  if (op == "draw") {
    long v = val((*h[i])());
    E("Draw")("i", i)("v", v);
  } else if (op == "skip") {
    long k = o["k"].l(), v = 0;
    for (long q = 0; q < k; ++q) v = val((*h[i])());
    E("Skip")("i", i)("k", k)("v", v);
  } else if (op == "preview") {
    long v = val(h[i]->preview());
    E("Preview")("i", i)("v", v);
  } else if (op == "move") {
    if (h[j] && o["assign"].t())
      *h[j] = std::move(*h[i]);
    else
      h[j].emplace(std::move(*h[i]));
    h[i].reset();
    E("Move")("i", i)("j", j);
  } else if (op == "new") {
    h[i].emplace(fresh());
    E("New")("i", i);
  }
}
template <typename T> long drawint(random_generator &g, long n) {
  T r = g(T(n));
  return (double(r) > 2e9 || double(r) < -2e9) ? -7 : long(r);
}

static void history(J const &h) {
  auto kind = h["kind"].s;
  if (kind == "counter") {
    long size = h["size"].l(1);
    using B   = buffered_function<long>;
    auto fresh = [&]() { return B([c = 0l]() mutable { return c++; }, size); };
    std::vector<std::optional<B>> s(4);
    E("Reset")("ref", std::vector<long>{})("H", 3);
    s[1].emplace(fresh());
    for (auto const &o : h["ops"].a) {
      if (o["op"].s == "copy") {
        int i = o["i"].l(), j = o["j"].l();
        if (s[j] && o["assign"].t()) *s[j] = *s[i]; else s[j].emplace(*s[i]);
        E("Copy")("i", i)("j", j);
      } else
        common(o, s, fresh, [](long x) { return x; });
    }
    return;
  }
  if (kind == "names") {
    E("Reset")("ref", std::vector<long>{})("H", 1);
    auto l = triqs::mc_tools::random_generator_names_list();
    auto split = [](std::string s, char sep) {
      std::vector<std::string> r;
      std::stringstream ss(s);
      for (std::string x; std::getline(ss, x, sep);) r.push_back(x);
      return r;
    };
    std::vector<std::string> refused;
    for (auto const &n : l) {
      try { random_generator g(n, 1); g(); } catch (std::exception const &) { refused.push_back(n); }
    }
    std::vector<std::string> doc = {"mt19937", "mt11213b", "lagged_fibonacci607", "lagged_fibonacci1279", "lagged_fibonacci2281", "lagged_fibonacci3217",
                                    "lagged_fibonacci4423", "lagged_fibonacci9689", "lagged_fibonacci19937", "lagged_fibonacci23209", "lagged_fibonacci44497", "ranlux3"};
    E("Names")("listed", l)("joined", split(triqs::mc_tools::random_generator_names(h["sep"].s), h["sep"].s[0]))("documented", doc)("refused", refused);
    for (auto const &n : h["bad"].a) {
      bool refused = false;
      try { random_generator g(n.s, 1); } catch (std::exception const &) { refused = true; }
      E("Unknown")("name", n.s)("refused", refused);
    }
    return;
  }
  auto name     = h["name"].s;
  uint32_t seed = uint32_t(h["seed"].l());
  bool deflt    = h["default"].t();
  auto ref      = reference(deflt ? "mt19937" : name, deflt ? 198 : seed);
  std::vector<long> r;
  for (long k = 0; k < h["len"].l(); ++k) r.push_back(bits(ref()));
  E("Reset")("ref", r)("H", 3)("name", name);
  std::vector<std::optional<random_generator>> s(4);
  auto fresh = [&]() { return deflt ? random_generator() : random_generator(name, seed); };
  s[1].emplace(fresh());
  for (auto const &o : h["ops"].a) {
    int i = o["i"].l(1);
    auto const &op = o["op"].s;
    if (op == "int") {
      long n = o["n"].l(), v;
      auto t = o["t"].l();
      v = t == 0 ? drawint<int>(*s[i], n) : t == 1 ? drawint<long>(*s[i], n) : t == 2 ? drawint<unsigned>(*s[i], n) : t == 3 ? drawint<size_t>(*s[i], n) : drawint<short>(*s[i], n);
      E("DrawInt")("i", i)("n", n)("r", v);
    } else if (op == "upto") {
      double b = o["b"].d();
      double v = (*s[i])(b);
      E("DrawScaled")("i", i)("q", bits((long double)v / b))("inside", v >= 0 && v < b);
    } else if (op == "between") {
      double a = o["a"].d(), b = o["b"].d();
      double v = (*s[i])(a, b);
      E("DrawScaled")("i", i)("q", bits(((long double)v - a) / ((long double)b - a)))("inside", v >= a && v < b);
    } else if (op == "name") {
      E("Name")("got", s[i]->name())("want", deflt ? std::string("mt19937") : name);
    } else
      common(o, s, fresh, [](double x) { return bits(x); });
  }
}
int main() { return drv::main_loop(history); }
