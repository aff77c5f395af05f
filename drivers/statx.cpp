// Accumulators, averages over ranks and histograms (triqs/stat/*.hpp).
#include "drv.hpp"
#include "rat.hpp"
#include <h5/h5.hpp>
#include <map>
#include <memory>
#include <thread>
#include <mpi/mpi.hpp>
#include <triqs/stat.hpp>
using namespace triqs::stat;
using drv::VL;
using cd = std::complex<double>;

// ---- samples: a sequence of components [re, im]
static double from(J const &j, double *) { return double(j[0][0].l()); }
static cd from(J const &j, cd *) { return {double(j[0][0].l()), double(j[0][1].l())}; }
template <typename V> static nda::array<V, 1> from(J const &j, nda::array<V, 1> *) {
  nda::array<V, 1> a(long(j.a.size()));
  for (long i = 0; i < long(j.a.size()); ++i) {
    if constexpr (std::is_same_v<V, double>) a(i) = double(j.a[i][0].l()); else a(i) = cd(double(j.a[i][0].l()), double(j.a[i][1].l()));
  }
  return a;
}
static void comp(std::vector<VL> &o, double x, bool sq) { auto r = drv::rat(sq ? (x < 0 ? -1e300 : x * x) : x); o.push_back({r[0], r[1], 0, 1}); }
static void comp(std::vector<VL> &o, cd x, bool) { auto r = drv::rat(x.real()), i = drv::rat(x.imag()); o.push_back({r[0], r[1], i[0], i[1]}); }
// the number, component by component, as rationals [p, q, p', q']; sq: squared (for error bars)
template <typename T> static drv::raw num(T const &x, bool sq = false) {
  std::vector<VL> o;
  if constexpr (requires { x.size(); x(0); }) { for (long i = 0; i < long(x.size()); ++i) comp(o, x(i), sq); } else comp(o, x, sq);
  return {drv::list(o)};
}
template <typename V> static drv::raw nums(V const &v, bool sq = false) {
  std::string s = "[";
  for (auto const &x : v) { if (s.size() > 1) s += ","; s += num(x, sq).s; }
  return {s + "]"};
}
static drv::raw raw(J const &j) { // [[re,im],...]
  std::string s = "[";
  for (auto &x : j.a) { if (s.size() > 1) s += ","; s += "[" + std::to_string(x[0].l()) + "," + std::to_string(x[1].l()) + "]"; }
  return {s + "]"};
}
static drv::raw raws(J const &j) { // list of samples
  std::string s = "[";
  for (auto &x : j.a) { if (s.size() > 1) s += ","; s += raw(x).s; }
  return {s + "]"};
}
static drv::raw rawd(J const &j) { // per rank
  std::string s = "[";
  for (auto &x : j.a) { if (s.size() > 1) s += ","; s += raws(x).s; }
  return {s + "]"};
}
template <typename F> static std::vector<std::string> on_ranks(int n, F f) {
  std::vector<std::string> out(n);
  if (n == 1) { out[0] = f(0); return out; }
  mpi::sim::world w;
  w.size = n;
  std::vector<std::thread> th;
  for (int r = 0; r < n; ++r)
    th.emplace_back([&, r] {
      mpi::sim::w = &w; mpi::sim::rank_ = r; mpi::sim::mon_n = 0;
      try { out[r] = f(r); } catch (std::exception const &e) { out[r] = "\"error\""; w.kill(); }
      mpi::sim::w = nullptr;
    });
  for (auto &t : th) t.join();
  return out;
}
static drv::raw join(std::vector<std::string> const &v) {
  std::string s = "[";
  for (auto &x : v) { if (s.size() > 1) s += ","; s += x; }
  return {s + "]"};
}

template <typename T> struct accs {
  using A = accumulator<T>;
  std::map<long, std::unique_ptr<A>> d;
  void obs(long id) {
    A &a = *d.at(id);
    auto [err, cnt] = a.log_bin_errors();
    E("Obs")("id", id)("n", long(a.data_input_count()))("nlog", a.n_log_bins())("lmax", a.n_log_bins_max())("nlin", a.n_lin_bins())("nmax", a.n_lin_bins_max())("cap", a.lin_bin_capacity())(
       "bins", nums(a.linear_bins()))("err", nums(err, true))("cnt", VL(cnt.begin(), cnt.end()));
  }
  void run(J const &h) {
    E("Reset")("w", h["w"].l());
    T zero = from(h["one"], (T *)nullptr);
    for (auto const &o : h["ops"].a) {
      auto op = o["op"].s;
      long id = o["id"].l(), j = o["j"].l();
      if (op == "new") { d[id] = std::make_unique<A>(zero, int(o["lmax"].l()), int(o["nmax"].l()), int(o["cap"].l())); E("New")("id", id)("lmax", o["lmax"].l())("nmax", o["nmax"].l())("cap", o["cap"].l()); }
      else if (op == "add") { *d.at(id) << from(o["x"], (T *)nullptr); E("Add")("id", id)("x", raw(o["x"])); }
      else if (op == "copy") { if (d.count(id) && o["how"].l()) *d[id] = *d.at(j); else d[id] = std::make_unique<A>(*d.at(j)); E("Copy")("id", id)("j", j); }
      else if (op == "move") { auto t = std::make_unique<A>(std::move(*d.at(j))); d.erase(j); d[id] = std::move(t); E("Move")("id", id)("j", j); }
      else if (op == "h5") {
        h5::file fl("a.h5", 'w');
        h5_write(h5::group(fl), "a", *d.at(j));
        if (o["how"].l() || !d.count(id)) d[id] = std::make_unique<A>();
        h5_read(h5::group(fl), "a", *d.at(id));
        E("Copy")("id", id)("j", j);
      } else if (op == "compress") { d.at(id)->compress_linear_bins(int(o["f"].l())); E("Compress")("id", id)("f", o["f"].l()); }
      else if (op == "obs") obs(id);
      if (op != "obs" && o["obs"].t()) obs(id);
    }
  }
};

// f on averages: one or two series
template <typename T> struct ranks {
  static void run(J const &h) {
    E("Reset")("w", h["w"].l());
    for (auto const &o : h["ops"].a) {
      auto op = o["op"].s;
      auto get = [&](J const &j) { std::vector<T> v; for (auto &x : j.a) v.push_back(from(x, (T *)nullptr)); return v; };
      std::vector<std::vector<T>> X, Y;
      for (auto &x : o["x"].a) X.push_back(get(x));
      for (auto &x : o["y"].a) Y.push_back(get(x));
      int n    = int(X.size());
      auto f   = o["f"].s;
      auto run = [&](int r) -> std::string {
        mpi::communicator c;
        bool one = n == 1 && o["serial"].t();
        auto const &x = X[r];
        auto res = [&](std::string s) { return "{" + s + "}"; };
        if (op == "mean") return res("\"m\":" + num(one ? mean(x) : mean_mpi(c, x)).s);
        if constexpr (std::is_same_v<T, double> || std::is_same_v<T, cd>)
          if (op == "err") {
            auto [m, e] = one ? mean_and_err(x) : mean_and_err_mpi(c, x);
            return res("\"m\":" + num(m).s + ",\"e\":" + num(e, true).s);
          }
        if (op == "jack") {
          auto rep = [&](auto const &t) { auto const &[a, e, m, fa] = t; return res("\"a\":" + num(a).s + ",\"e\":" + num(e, true).s + ",\"m\":" + num(m).s + ",\"f\":" + num(fa).s); };
          bool acc = o["acc"].t();
          accumulator<T> ax(x[0], 0, -1, 1), ay(x[0], 0, -1, 1);
          if (acc) { for (auto const &v : x) ax << v; if (f == "mul" || f == "div") for (auto const &v : Y[r]) ay << v; }
          auto go = [&](auto F, auto const &...s) { return one ? rep(jackknife(F, s...)) : rep(jackknife_mpi(c, F, s...)); };
          auto id = [](auto const &a) { return a; };
          auto sq = [](auto const &a) { return a * a; };
          auto mul = [](auto const &a, auto const &b) { return a * b; };
          auto div = [](auto const &a, auto const &b) { return a / b; };
          if (f == "id") return acc ? go(id, ax) : go(id, x);
          if (f == "sq") return acc ? go(sq, ax) : go(sq, x);
          if (f == "mul") return acc ? go(mul, ax, ay) : go(mul, x, Y[r]);
          return acc ? go(div, ax, ay) : go(div, x, Y[r]);
        }
        if (op == "log") {
          accumulator<T> a(from(h["one"], (T *)nullptr), int(o["lmax"].l()), 0, 1);
          for (auto const &v : x) a << v;
          auto [e, cnt] = a.log_bin_errors_all_reduce(c);
          std::string s = "[";
          for (auto k : cnt) s += (s.size() > 1 ? "," : "") + std::to_string(k);
          return res("\"e\":" + nums(e, true).s + ",\"c\":" + s + "]");
        }
        return "\"?\"";
      };
      auto out = on_ranks(n, run);
      E ev("Stat");
      ev("op", op)("f", f)("x", rawd(o["x"]))("lmax", o["lmax"].l())("r", join(out));
      if (o.has("y")) ev("y", rawd(o["y"]));
    }
  }
};
static void tau(J const &h) {
  E("Reset")("w", 1l);
  for (auto const &o : h["ops"].a) {
    double a = o["a"].l(), b = o["b"].l();
    E("Tau")("a", long(a))("b", long(b))("t", drv::rat(tau_estimate_from_errors(a, b)));
  }
}

// ---- histograms: limits are pairs [p, q], values [p, q] or "nan", "inf", "-inf"
static double q(J const &j) { return j.s == "nan" ? std::nan("") : j.s == "inf" ? INFINITY : j.s == "-inf" ? -INFINITY : double(j[0].l()) / double(j[1].l()); }
static drv::raw qraw(J const &j) { return {j.a.empty() ? drv::quote(j.s) : "[" + std::to_string(j[0].l()) + "," + std::to_string(j[1].l()) + "]"}; }
static drv::raw hobs(histogram const &h) {
  std::vector<VL> v, m;
  for (auto x : h.data()) v.push_back(drv::rat(x));
  for (long i = 0; i < long(h.size()); ++i) m.push_back(drv::rat(h.mesh_point(int(i))));
  return {"{\"a\":" + drv::list({drv::rat(h.limits().first), drv::rat(h.limits().second)}) + ",\"n\":" + std::to_string(h.size()) + ",\"mesh\":" + drv::list(m) + ",\"data\":" + drv::list(v) + ",\"in\":" + std::to_string(h.n_data_pts()) + ",\"out\":" + std::to_string(h.n_lost_pts()) + "}"};
}
static void hists(J const &h) {
  std::map<long, histogram> d;
  E("Reset")("w", 1l);
  for (auto const &o : h["ops"].a) {
    auto op = o["op"].s;
    long id = o["id"].l(), j = o["j"].l(), k = o["k"].l();
    if (op == "new") {
      try {
        if (o["ints"].t()) d[id] = histogram(int(o["a"][0].l()), int(o["b"][0].l())); else d[id] = histogram(q(o["a"]), q(o["b"]), o["n"].l());
        E("New")("id", id)("a", qraw(o["a"]))("b", qraw(o["b"]))("n", o["n"].l())("ok", true);
      } catch (triqs::runtime_error const &) { E("New")("id", id)("a", qraw(o["a"]))("b", qraw(o["b"]))("n", o["n"].l())("ok", false); }
    } else if (op == "add") { d.at(id) << q(o["x"]); E("Add")("id", id)("fin", !o["x"].a.empty())("x", o["x"].a.empty() ? drv::raw{"[0,1]"} : qraw(o["x"])); }
    else if (op == "sum") {
      try { auto s = d.at(j) + d.at(k); d[id] = s; E("Sum")("id", id)("j", j)("k", k)("ok", true); } catch (triqs::runtime_error const &) { E("Sum")("id", id)("j", j)("k", k)("ok", false); }
    } else if (op == "pdf") { auto s = pdf(d.at(j)); d[id] = s; E("Pdf")("id", id)("j", j); }
    else if (op == "cdf") { auto s = cdf(d.at(j)); d[id] = s; E("Cdf")("id", id)("j", j); }
    else if (op == "clear") { d.at(id).clear(); E("Clear")("id", id); }
    else if (op == "copy") { auto s = d.at(j); d[id] = s; E("Copy")("id", id)("j", j); }
    else if (op == "h5") {
      h5::file fl("h.h5", 'w');
      h5_write(h5::group(fl), "h", d.at(j));
      histogram s;
      if (o["how"].l() && d.count(id)) s = d[id];
      h5_read(h5::group(fl), "h", s);
      d[id] = s;
      E("Copy")("id", id)("j", j);
    } else if (op == "eq") E("Eq")("j", j)("k", k)("r", d.at(j) == d.at(k))("nr", d.at(j) != d.at(k));
    else if (op == "reduce" || op == "bcast") { // rank r holds object v[r]
      auto v    = o["v"].longs();
      bool all  = o["all"].t();
      int root  = int(o["root"].l());
      auto outs = on_ranks(int(v.size()), [&](int r) -> std::string {
        mpi::communicator c;
        histogram mine = d.at(v[r]);
        if (op == "bcast") { mpi_broadcast(mine, c, root); return hobs(mine).s; }
        auto s = mpi_reduce(mine, c, root, all);
        return all || r == root ? hobs(s).s : "{\"n\":-1}";
      });
      E(op == "bcast" ? "Bcast" : "Reduce")("v", v)("all", all)("root", long(root))("r", join(outs));
    }
    if (op == "obs" || o["obs"].t()) E("Obs")("id", id)("r", hobs(d.at(id)));
  }
}
static void run(J const &h) {
  auto k = h["kind"].s, t = h["type"].s;
  if (k == "hist") return hists(h);
  if (k == "tau") return tau(h);
  if (k == "acc") {
    if (t == "double") return accs<double>{}.run(h);
    if (t == "complex") return accs<cd>{}.run(h);
    if (t == "array") return accs<nda::array<double, 1>>{}.run(h);
    return accs<nda::array<cd, 1>>{}.run(h);
  }
  if (t == "double") return ranks<double>::run(h);
  if (t == "complex") return ranks<cd>::run(h);
  if (t == "array") return ranks<nda::array<double, 1>>::run(h);
  return ranks<nda::array<cd, 1>>::run(h);
}
int main() { return drv::main_loop(run); }
