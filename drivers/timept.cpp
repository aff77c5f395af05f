// Time points on the grid of a segment (triqs/utility/time_pt.hpp).
#include "drv.hpp"
#include <cmath>
#include <triqs/utility/first_include.hpp>
#include <triqs/utility/time_pt.hpp>
#include <triqs/mc_tools/random_generator.hpp>
using triqs::utility::time_pt;
using triqs::utility::time_segment;
using VL = std::vector<long>;
static VL bytes(unsigned __int128 x) {
  VL r;
  while (x) { r.push_back(long(x & 255)); x >>= 8; }
  return r;
}
static uint64_t num(J const &j) {
  uint64_t r = 0;
  for (size_t i = j.size(); i-- > 0;) r = (r << 8) + uint64_t(j[i].l());
  return r;
}
// the position on the grid is not accessible: it is read from the printed form, which must agree with the hdf5 output
static uint64_t pos(time_pt const &p) {
  std::stringstream ss;
  ss << p;
  auto s = ss.str();
  auto k = s.rfind("n = ");
  return std::stoull(s.substr(k + 4));
}
static VL shown(time_pt const &p) { return bytes(pos(p)); }
static long sgn(double x) { return x < 0 ? -1 : (x > 0 ? 1 : 0); }
// floor(v * 2^64 * s)
static VL scaled(double v, long s = 1) { return v < 0 ? VL{-1} : bytes((unsigned __int128)(ldexpl((long double)v, 64) * s)); }
struct fixed_rng {
  J const &x; // a fraction num/den of the range, or the last value
  uint64_t operator()(uint64_t n) {
    if (x.k == J::Str) return x.s == "last" ? n - 1 : 0;
    return uint64_t((unsigned __int128)n * x[0].l() / x[1].l());
  }
};
static void run(J const &h) {
  double beta = double(h["p"].l()) / double(h["q"].l());
  time_segment seg(beta);
  std::map<long, time_pt> r;
  E("Reset")("p", bytes(h["p"].l()))("q", bytes(h["q"].l()))("regs", 4);
  for (long i = 1; i <= 4; ++i) r.insert({i, seg.get_lower_pt()});
  triqs::mc_tools::random_generator gen(h.has("rng") ? h["rng"].s : "mt19937", 7);
  for (auto const &o : h["ops"].a) {
    auto op = o["op"].s;
    long i = o["i"].l(), j = o["j"].l(), k = o["k"].l();
    if (op == "put") {
      auto s = o["at"].s;
      if (s == "low") r[i] = seg.get_lower_pt();
      else if (s == "up") r[i] = seg.get_upper_pt();
      else if (s == "eps") r[i] = seg.get_epsilon();
      else if (s == "default") r[i] = time_pt();
      else r[i] = time_pt(num(o["n"]), beta);
      if (s == "default") r[i] = time_pt(0, beta); // keeps the period of the history
      E("Put")("i", i)("at", s)("n", o["n"].longs())("v", shown(r[i]));
    } else if (op == "add") { r[i] = r[j] + r[k]; E("Add")("i", i)("j", j)("k", k)("v", shown(r[i])); }
    else if (op == "sub") { r[i] = r[j] - r[k]; E("Sub")("i", i)("j", j)("k", k)("v", shown(r[i])); }
    else if (op == "neg") { r[i] = -r[j]; E("Neg")("i", i)("j", j)("v", shown(r[i])); }
    else if (op == "copy") { time_pt c(r[j]); r[i] = c; E("Copy")("i", i)("j", j)("v", shown(r[i])); }
    else if (op == "div") { r[i] = div_by_int(r[j], num(o["m"])); E("Div")("i", i)("j", j)("m", o["m"].longs())("v", shown(r[i])); }
    else if (op == "mult") { // only when the product is on the grid
      if (pos(r[j]) != 0 && num(o["m"]) > time_pt::Nmax / pos(r[j])) continue;
      r[i] = mult_by_int(r[j], num(o["m"])); E("Mult")("i", i)("j", j)("m", o["m"].longs())("v", shown(r[i]));
    } else if (op == "floor") { if (pos(r[k])) E("Floor")("j", j)("k", k)("v", bytes(floor_div(r[j], r[k]))); }
    else if (op == "rnd") {
      auto way = o["way"].s;
      bool real = o["x"].k == J::Null;
      fixed_rng f{o["x"]};
      uint64_t a = way == "all" || way == "below" ? 0 : pos(r[j]), b = way == "all" ? time_pt::Nmax : pos(r[k]);
      if (a == b) continue; // empty interval
      if (real && a > b) continue;
      if (way == "all") r[i] = real ? seg.get_random_pt(gen) : seg.get_random_pt(f);
      else if (way == "below") r[i] = real ? seg.get_random_pt(gen, r[k]) : seg.get_random_pt(f, r[k]);
      else r[i] = real ? seg.get_random_pt(gen, r[j], r[k]) : seg.get_random_pt(f, r[j], r[k]);
      E("Random")("i", i)("a", bytes(a))("b", bytes(b))("v", shown(r[i]));
    } else if (op == "cmp") {
      auto const &a = r[j], &b = r[k];
      auto c = a <=> b;
      long cc = c < 0 ? -1 : (c > 0 ? 1 : 0);
      double x(a), y(b);
      E("Compare")("j", j)("k", k)("c", cc)("lt", a < b)("le", a <= b)("gt", a > b)("ge", a >= b)("eq", a == b)("ne", a != b)("d", sgn(x - y));
    } else if (op == "val") {
      double x(r[j]);
      time_pt p = r[j];
      E("Value")("j", j)("t", scaled(x))("zero", x == 0)("top", x == beta)("in", 0 <= x && x <= beta)("mixed",
        VL{p + 1.5 == x + 1.5, 1.5 + p == 1.5 + x, p - 1.5 == x - 1.5, 1.5 - p == 1.5 - x, p * 3. == x * 3., 3. * p == 3. * x, p / 3. == x / 3.,
           p * p == x * x, x == 0 || (3. / p == 3. / x && p / p == 1)});
    } else if (op == "from") { // conversion of a number in [0, beta]: beta * a / b
      double x = beta * double(o["a"].l()) / double(o["b"].l());
      r[i] = seg.make_time_pt(x);
      E("From")("i", i)("x", scaled(x))("low", x == 0)("up", x == beta)("v", shown(r[i]));
    } else if (op == "h5") {
      h5::file f("t.h5", 'w');
      h5_write(h5::group(f), "t", r[j]);
      time_pt t;
      h5_read(h5::group(f), "t", t);
      r[i] = t;
      std::stringstream a, b;
      a << r[j]; b << t;
      E("Stored")("i", i)("j", j)("v", shown(t))("same", double(t) == double(r[j]) && a.str() == b.str());
    }
  }
}
int main() { return drv::main_loop(run); }
