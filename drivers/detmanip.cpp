// Histories of transactions on det_manip objects (triqs/det_manip/det_manip.hpp).
#include "drv.hpp"
#include <complex>
#include <list>
#include <memory>
#include <triqs/det_manip/det_manip.hpp>
using VL = std::vector<long>;
template <typename V> struct fun {
  std::shared_ptr<std::vector<std::vector<V>>> t;
  V operator()(long x, int y) const { return (*t)[x - 1][y - 1]; }
};
// the rational p/q with a small denominator the number is equal to, within rounding errors; 0/0 if there is none
static VL rat(double v) {
  if (!std::isfinite(v) || std::abs(v) > 1e6) return {0, 0};
  double x = v;
  long p0 = 0, q0 = 1, p1 = 1, q1 = 0;
  for (int it = 0; it < 30; ++it) {
    double a = std::floor(x);
    long p2 = long(a) * p1 + p0, q2 = long(a) * q1 + q0;
    if (q2 > 20000) break;
    p0 = p1; q0 = q1; p1 = p2; q1 = q2;
    if (std::abs(v - double(p1) / double(q1)) <= 1e-9 * std::max(1., std::abs(v))) return {p1, q1};
    x = 1. / (x - a);
    if (!std::isfinite(x)) break;
  }
  return {0, 0};
}
static VL rat(std::complex<double> z) {
  auto r = rat(z.real()), i = rat(z.imag());
  return {r[0], r[1], i[0], i[1]};
}
static double mk(double re, double, double *) { return re; }
static std::complex<double> mk(double re, double im, std::complex<double> *) { return {re, im}; }
static drv::raw list(std::vector<VL> const &v) {
  std::string s = "[";
  for (auto &x : v) {
    if (s.size() > 1) s += ",";
    s += "[";
    for (size_t i = 0; i < x.size(); ++i) s += (i ? "," : "") + std::to_string(x[i]);
    s += "]";
  }
  return {s + "]"};
}
template <typename V> struct world {
  using DM = triqs::det_manip::det_manip<fun<V>>;
  using D  = typename DM::RollDirection;
  std::map<long, std::unique_ptr<DM>> d;
  fun<V> f;
  template <typename T> static std::vector<T> vals(J const &j) { std::vector<T> r; for (auto &x : j.a) r.push_back(T(x.l())); return r; }
  static VL thr(double t) { return {long(t < 0 ? -1 : std::lround(2 * t))}; }
  void obs(long id) {
    DM &a = *d.at(id);
    long n = a.size();
    VL xs, ys, gx, gy, xi(a.get_x_internal_order().begin(), a.get_x_internal_order().end()), yi(a.get_y_internal_order().begin(), a.get_y_internal_order().end());
    for (auto x : a.get_x()) gx.push_back(x);
    for (auto y : a.get_y()) gy.push_back(y);
    for (long i = 0; i < n; ++i) xs.push_back(a.get_x(i)), ys.push_back(a.get_y(i));
    std::vector<VL> mat, inv, each, internal;
    auto M = a.matrix();
    auto I = a.inverse_matrix();
    auto II = a.inverse_matrix_internal_order();
    bool same = true, shape = M.extent(0) == n && M.extent(1) == n && I.extent(0) == n && I.extent(1) == n && long(xi.size()) == n && long(yi.size()) == n;
    for (long i = 0; i < n && shape; ++i)
      for (long j = 0; j < n; ++j) {
        mat.push_back(rat(M(i, j)));
        inv.push_back(rat(I(i, j)));
        same = same && I(i, j) == a.inverse_matrix(i, j) && II(i, j) == a.inverse_matrix_internal_order(i, j);
        VL t{xi[j], yi[i]};
        for (auto c : rat(II(i, j))) t.push_back(c);
        internal.push_back(t);
      }
    foreach (a, [&](long x, int y, V m) { VL t{x, long(y)}; for (auto c : rat(m)) t.push_back(c); each.push_back(t); })
      ;
    E("Obs")("id", id)("n", n)("x", xs)("y", ys)("gx", gx)("gy", gy)("mat", list(mat))("inv", list(inv))("each", list(each))("internal", list(internal))("same", same)(
       "shape", shape)("th", thr(a.get_singular_threshold())[0])("nb", drv::L(a.get_n_operations_before_check()))("pw", drv::L(std::round(a.get_precision_warning() * 1e6)));
  }
  // executes a trial; way 0: the general call, 1: the most specific call
  V attempt(DM &a, J const &t, long way) {
    auto k = t["k"].s;
    auto i = t["i"].longs(), j = t["j"].longs();
    auto x = vals<long>(t["x"]);
    auto y = vals<int>(t["y"]);
    if (k == "insert") {
      if (way == 1 && i.size() == 1 && j.size() == 1 && x.size() == 1 && y.size() == 1) return a.try_insert(i[0], j[0], x[0], y[0]);
      if (way == 1 && i.size() == 2 && j.size() == 2 && x.size() == 2 && y.size() == 2) return a.try_insert2(i[0], i[1], j[0], j[1], x[0], x[1], y[0], y[1]);
      return a.try_insert_k(i, j, x, y);
    }
    if (k == "remove") {
      if (way == 1 && i.size() == 1 && j.size() == 1) return a.try_remove(i[0], j[0]);
      if (way == 1 && i.size() == 2 && j.size() == 2) return a.try_remove2(i[0], i[1], j[0], j[1]);
      return a.try_remove_k(i, j);
    }
    if (k == "col") return a.try_change_col(j[0], y[0]);
    if (k == "row") return a.try_change_row(i[0], x[0]);
    if (k == "rowcol") return a.try_change_col_row(i[0], j[0], x[0], y[0]);
    if (way == 1) return a.try_refill(std::list<long>(x.begin(), x.end()), y);
    return a.try_refill(x, y);
  }
  V doit(DM &a, J const &t, long way) {
    auto k = t["k"].s;
    auto i = t["i"].longs(), j = t["j"].longs();
    auto x = vals<long>(t["x"]);
    auto y = vals<int>(t["y"]);
    long n = a.size();
    if (k == "insert" && i.size() == 1) { if (way == 1 && i[0] == n && j[0] == n) return a.insert_at_end(x[0], y[0]); return a.insert(i[0], j[0], x[0], y[0]); }
    if (k == "insert" && i.size() == 2) {
      if (way == 1 && i[0] == n && i[1] == n + 1 && j[0] == n && j[1] == n + 1) return a.insert2_at_end(x[0], x[1], y[0], y[1]);
      return a.insert2(i[0], i[1], j[0], j[1], x[0], x[1], y[0], y[1]);
    }
    if (k == "remove" && i.size() == 1) { if (way == 1 && i[0] == n - 1 && j[0] == n - 1) return a.remove_at_end(); return a.remove(i[0], j[0]); }
    if (k == "remove" && i.size() == 2) {
      if (way == 1 && i[0] == n - 1 && i[1] == n - 2 && j[0] == n - 1 && j[1] == n - 2) return a.remove2_at_end();
      return a.remove2(i[0], i[1], j[0], j[1]);
    }
    if (k == "col") return a.change_col(j[0], y[0]);
    if (k == "row") return a.change_row(i[0], x[0]);
    if (k == "rowcol") return a.change_one_row_and_one_col(i[0], j[0], x[0], y[0]);
    auto r = attempt(a, t, way);
    a.complete_operation();
    return r;
  }
  static drv::raw trial(J const &t) {
    std::string s = "{\"k\":" + drv::quote(t["k"].s);
    for (auto c : {"i", "j", "x", "y"})
      if (t.has(c)) {
        s += std::string(",\"") + c + "\":[";
        bool first = true;
        for (auto v : t[c].longs()) { s += (first ? "" : ",") + std::to_string(v); first = false; }
        s += "]";
      }
    return {s + "}"};
  }
  void step(J const &o) {
    auto op = o["op"].s;
    long id = o["id"].l(), j = o["j"].l(), i = o["i"].l();
    using triqs::runtime_error;
    if (op == "try" || op == "do") {
      try {
        V r = op == "try" ? attempt(*d.at(id), o["t"], o["way"].l()) : doit(*d.at(id), o["t"], o["way"].l());
        E(op == "try" ? "Try" : "Do")("id", id)("t", trial(o["t"]))("r", rat(r));
      } catch (runtime_error const &) { E("Refused")("id", id)("t", trial(o["t"])); }
    } else if (op == "fromf") { // trial of an insertion given by functions, then rejected
      auto x = o["x"].l(); int y = int(o["y"].l());
      try {
        V r = d.at(id)->try_insert_from_function(i, j, [&](long xx) { return f(xx, y); }, [&](int yy) { return f(x, yy); }, f(x, y));
        E("Ratio")("id", id)("t", drv::raw{"{\"k\":\"insert\",\"i\":[" + std::to_string(i) + "],\"j\":[" + std::to_string(j) + "],\"x\":[" + std::to_string(x) + "],\"y\":[" + std::to_string(y) + "]}"})("r", rat(r));
        d.at(id)->reject_last_try();
      } catch (runtime_error const &) { E("Refused")("id", id)("t", drv::raw{"{\"k\":\"insert\",\"i\":[" + std::to_string(i) + "],\"j\":[" + std::to_string(j) + "],\"x\":[" + std::to_string(x) + "],\"y\":[" + std::to_string(y) + "]}"}); }
    } else if (op == "complete") { d.at(id)->complete_operation(); E("Complete")("id", id); }
    else if (op == "reject") { d.at(id)->reject_last_try(); E("Reject")("id", id); }
    else if (op == "swap_row") { d.at(id)->swap_row(i, j); E("SwapRow")("id", id)("i", i)("j", j); }
    else if (op == "swap_col") { d.at(id)->swap_col(i, j); E("SwapCol")("id", id)("i", i)("j", j); }
    else if (op == "roll") {
      auto w = o["way"].s;
      long s = d.at(id)->roll_matrix(w == "up" ? DM::Up : w == "down" ? DM::Down : w == "left" ? DM::Left : w == "right" ? DM::Right : DM::None);
      E("Roll")("id", id)("way", w)("s", s);
    } else if (op == "clear") { d.at(id)->clear(); E("Clear")("id", id); }
    else if (op == "reserve") { d.at(id)->reserve(o["n"].l(), o["k"].l(1)); E("Reserve")("id", id); }
    else if (op == "det") {
      try { V v = d.at(id)->determinant(); E("Det")("id", id)("v", rat(v))("ok", true); } catch (runtime_error const &) { E("Det")("id", id)("v", VL{})("ok", false); }
    } else if (op == "regenerate") {
      try { d.at(id)->regenerate(); E("Regenerate")("id", id)("ok", true); } catch (runtime_error const &) { E("Regenerate")("id", id)("ok", false); }
    } else if (op == "threshold") { d.at(id)->set_singular_threshold(o["n"].l() < 0 ? -1 : o["n"].l() / 2.); E("Threshold")("id", id)("n", o["n"].l()); }
    else if (op == "before") { d.at(id)->set_n_operations_before_check(o["n"].l()); E("Before")("id", id)("n", o["n"].l()); }
    else if (op == "precision") {
      d.at(id)->set_precision_warning(o["n"].l() * 1e-6); E("Precision")("id", id)("n", o["n"].l());
      double e = d.at(id)->get_precision_error();
      d.at(id)->set_precision_error(2 * e);
      if (d.at(id)->get_precision_error() != 2 * e) throw std::runtime_error("precision_error");
      d.at(id)->set_precision_error(e);
    } else if (op == "new") {
      auto x = vals<long>(o["x"]);
      auto y = vals<int>(o["y"]);
      try {
        if (o["empty"].t()) d[id] = std::make_unique<DM>(f, o["size"].l());
        else if (o["way"].l()) d[id] = std::make_unique<DM>(f, std::list<long>(x.begin(), x.end()), y);
        else d[id] = std::make_unique<DM>(f, x, y);
        E("New")("id", id)("x", x)("y", VL(y.begin(), y.end()))("ok", true)("pw", drv::L(std::round(d[id]->get_precision_warning() * 1e6)));
      } catch (runtime_error const &) { E("New")("id", id)("x", x)("y", VL(y.begin(), y.end()))("ok", false)("pw", 0); }
    } else if (op == "copy") { d[id] = std::make_unique<DM>(*d.at(j)); E("Copy")("id", id)("j", j); }
    else if (op == "move") {
      if (o["assign"].t() && d.count(id)) { *d.at(id) = std::move(*d.at(j)); } else { auto p = std::make_unique<DM>(std::move(*d.at(j))); d[id] = std::move(p); }
      d.erase(j);
      E("Move")("id", id)("j", j);
    } else if (op == "swap") { swap(*d.at(id), *d.at(j)); E("Swap")("id", id)("j", j); }
    else if (op == "h5") {
      h5::file fl("d.h5", 'w');
      h5_write(h5::group(fl), "d", *d.at(j));
      if (!d.count(id)) d[id] = std::make_unique<DM>(f, o["size"].l(1));
      h5_read(h5::group(fl), "d", *d.at(id));
      E("Load")("id", id)("j", j)("pw", drv::L(std::round(d.at(id)->get_precision_warning() * 1e6)));
    }
    if (op == "obs" || o["obs"].t()) obs(id);
  }
  void run(J const &h) {
    f.t = std::make_shared<std::vector<std::vector<V>>>();
    std::string tab = "[";
    for (auto &row : h["F"].a) {
      f.t->emplace_back();
      tab += (tab.size() > 1 ? ",[" : "[");
      bool first = true;
      for (auto &c : row.a) {
        f.t->back().push_back(mk(double(c[0].l()), double(c[1].l()), (V *)nullptr));
        tab += (first ? "[" : ",[") + std::to_string(c[0].l()) + "," + std::to_string(c[1].l()) + "]";
        first = false;
      }
      tab += "]";
    }
    E("Reset")("F", drv::raw{tab + "]"})("cplx", !std::is_same_v<V, double>);
    for (auto const &o : h["ops"].a) step(o);
  }
};
static void run(J const &h) {
  if (h["cplx"].t()) world<std::complex<double>>{}.run(h); else world<double>{}.run(h);
}
int main() { return drv::main_loop(run); }
