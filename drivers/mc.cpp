// Conformance driver of triqs::mc_tools::mc_generic: scripted moves and measures, every callback and call is an event.
#include "drv.hpp"
#include <triqs/mc_tools.hpp>
#include <csignal>
#include <optional>
#include <thread>
using namespace triqs::mc_tools;
using dcomplex = std::complex<double>;
static constexpr double S24 = 16777216.0;
static long u24(double u) { return long(std::floor(u * S24)); }

template <typename T> T phase(long p) {
  if constexpr (std::is_same_v<T, double>) return (p % 4 == 2) ? -1.0 : 1.0;
  else {
    static dcomplex t[4] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}};
    return t[((p % 4) + 4) % 4];
  }
}
template <typename T> long phase_of(T x) {
  for (long p = 0; p < 4; ++p)
    if (std::abs(dcomplex(x) - phase<dcomplex>(p)) < 1e-9) return p;
  return -1;
}

template <typename T> struct Ctx {
  mc_generic<T> *mc = nullptr;
  J const *script   = nullptr;
  size_t pos        = 0;
  long polls = 0, cycles = 0, meas_calls = 0;
  J const *op       = nullptr; // current run op
  bool quiet        = false;   // multi-rank: only count
  int rank          = 0;
  std::map<long, std::pair<long, long>> counts;
  J cur;
  J const &item(size_t i) const {
    static J def;
    return (script && script->size()) ? (*script)[i % script->size()] : def;
  }
  void maybe_signal(bool b) {
    if (b) {
      E("Signal");
      raise(SIGUSR1);
    }
  }
};

template <typename T> struct Mv {
  Ctx<T> *c;
  long id;
  T attempt() {
    c->cur         = c->item(c->pos++);
    J const &it    = c->cur;
    auto &rng      = c->mc->get_rng();
    std::vector<long> extra;
    for (long k = 0; k < it["rng"].l(); ++k) extra.push_back(u24(rng()));
    c->maybe_signal(it["sig"].l() == 1);
    bool thr      = it["thr"].l() == 1;
    std::string m = it["m"].k == J::Str ? it["m"].s : "fin";
    long ph       = it["ph"].l();
    if (std::is_same_v<T, double> && ph % 2) ph = 2;
    double r = 0;
    long r24 = 0;
    long rs  = it["r"].l();
    if (m == "fin") {
      if (rs == -1) { r = rng.preview(); r24 = u24(r); }
      else if (rs == -2) { r = rng.preview(); r24 = u24(r) + 1; r = std::nextafter(r, 2.0); }
      else { r = rs / S24; r24 = std::min(rs, long(S24)); }
    }
    c->counts[id].first++;
    if (!c->quiet) E("Attempt")("id", id)("m", m)("r24", r24)("ph", (r24 == 0 && m == "fin") ? 0L : ph)("extra", extra)("thr", thr);
    if (thr) throw std::runtime_error("scripted failure in attempt");
    if (m == "nan") return T(std::nan(""));
    if (m == "inf") return T(std::numeric_limits<double>::infinity()) * (std::is_same_v<T, double> ? phase<T>(ph) : T(1));
    return r * phase<T>(ph);
  }
  T accept() {
    long ph = c->cur["aph"].l();
    if (std::is_same_v<T, double> && ph % 2) ph = 2;
    bool thr = c->cur["thr"].l() == 2;
    c->counts[id].second++;
    if (!c->quiet) E("Accept")("id", id)("ph", ph)("thr", thr);
    c->maybe_signal(c->cur["sig"].l() == 2);
    if (thr) throw std::runtime_error("scripted failure in accept");
    return phase<T>(ph);
  }
  void reject() {
    bool thr = c->cur["thr"].l() == 2;
    if (!c->quiet) E("Reject")("id", id)("thr", thr);
    c->maybe_signal(c->cur["sig"].l() == 2);
    if (thr) throw std::runtime_error("scripted failure in reject");
  }
  void collect_statistics(mpi::communicator const &) {
    if (!c->quiet) E("MoveCollect")("id", id);
  }
  friend void h5_write(h5::group g, std::string const &name, Mv const &m) { h5::write(g, name, m.id); }
  friend void h5_read(h5::group g, std::string const &name, Mv &m) {
    long x;
    h5::read(g, name, x);
    E("MoveLoad")("id", m.id)("v", x);
  }
};

template <typename T> struct Ms {
  Ctx<T> *c;
  std::string name;
  long n = 0;
  void accumulate(T s) {
    ++n;
    bool thr = (*c->op)["mthr"].k == J::Arr && (*c->op)["mthr"][0].s == name && (*c->op)["mthr"][1].l() == c->meas_calls;
    ++c->meas_calls;
    E("Measure")("n", name)("s", phase_of(s))("thr", thr);
    if (thr) throw std::runtime_error("scripted failure in measure");
    if ((*c->op)["msig"].k == J::Arr && (*c->op)["msig"][0].s == name && (*c->op)["msig"][1].l() == c->meas_calls) c->maybe_signal(true);
  }
  void collect_results(mpi::communicator const &) { E("CollectM")("n", name)("cnt", n); }
  std::string report() const {
    E("Report")("n", name);
    return name;
  }
  friend void h5_write(h5::group g, std::string const &name, Ms const &m) { h5::write(g, name, m.n); }
  friend void h5_read(h5::group g, std::string const &name, Ms &m) {
    h5::read(g, name, m.n);
    E("MeasLoad")("n", m.name)("cnt", m.n);
  }
};
// a measure without report and h5
template <typename T> struct Ms2 {
  Ctx<T> *c;
  std::string name;
  void accumulate(T s) { E("Measure")("n", name)("s", phase_of(s))("thr", false); }
  void collect_results(mpi::communicator const &) { E("CollectM")("n", name)("cnt", -1); }
};

template <typename T> struct Aux {
  Ctx<T> *c;
  long k;
  void operator()() {
    bool thr = (*c->op)["athr"].k == J::Num && (*c->op)["athr"].l() == c->cycles;
    E("Aux")("k", k)("thr", thr);
    if (thr) throw std::runtime_error("scripted failure in aux");
  }
};

template <typename T> void fill(move_set<T> &ms, J const &sub, Ctx<T> &c);
template <typename T, typename Add> void add_nodes(J const &tree, Ctx<T> &c, Add add) {
  long k = 0;
  for (auto const &n : tree.a) {
    if (n.has("sub")) {
      move_set<T> ms(c.mc->get_rng());
      fill(ms, n["sub"], c);
      add(std::move(ms), "set" + n["id"].s + std::to_string(n["id"].l()), n["w"].d());
    } else
      add(Mv<T>{&c, n["id"].l()}, "mv" + std::to_string(n["id"].l()), n["w"].d());
    ++k;
  }
}
template <typename T> void fill(move_set<T> &ms, J const &sub, Ctx<T> &c) {
  add_nodes<T>(sub, c, [&](auto &&m, std::string n, double w) { ms.add(std::move(m), n, w); });
}

static long rate20(double r) {
  if (std::isnan(r)) return -2;
  if (r == -1) return -1;
  return long(std::floor(r * 1048576.0 + 1e-9));
}

template <typename T> void history(J const &h) {
  int seed         = h["seed"].l(1);
  std::string name = h["rng"].s;
  std::string tmp;
  mpi::sim::env = h["env"].t();
  std::vector<long> draws;
  {
    random_generator twin(name, seed);
    for (long i = 0; i < h["ndraws"].l(100); ++i) draws.push_back(u24(twin()));
  }
  bool rethrow = !h.has("rethrow") || h["rethrow"].t();
  auto tree_raw = h["tree_raw"].s;
  E("Reset")("draws", draws)("tree", drv::raw{tree_raw})("cplx", !std::is_same_v<T, double>)("rethrow", rethrow)("env", mpi::sim::env);
  auto c  = std::make_unique<Ctx<T>>();
  auto mc = std::make_unique<mc_generic<T>>(name, seed, int(h["verb"].l(0)), rethrow);
  c->mc   = mc.get();
  c->script = &h["script"];
  J none;
  c->op = &none;
  add_nodes<T>(h["tree"], *c, [&](auto &&m, std::string n, double w) { mc->add_move(std::move(m), n, w); });
  std::map<std::string, typename measure_set<T>::measure_itr_t> its;
  h5::file file;
  bool saved = false;
  auto add_measure = [&](J const &o) {
    std::string n = o["n"].s;
    bool ok       = true;
    try {
      if (o["plain"].t())
        its.insert_or_assign(n, mc->add_measure(Ms2<T>{c.get(), n}, n, !o.has("timer") || o["timer"].t(), false));
      else
        its.insert_or_assign(n, mc->add_measure(Ms<T>{c.get(), n}, n, !o.has("timer") || o["timer"].t(), o["rep"].t()));
    } catch (triqs::runtime_error const &) { ok = false; } catch (triqs::exception const &) { ok = false; }
    E("AddMeasure")("n", n)("rep", o["rep"].t())("plain", o["plain"].t())("ok", ok);
  };
  for (auto const &o : h["ops"].a) {
    std::string op = o["op"].s;
    c->op          = &o;
    if (op == "add_measure") add_measure(o);
    else if (op == "rm_measure") {
      if (!its.count(o["n"].s)) continue;
      mc->rm_measure(its.at(o["n"].s));
      its.erase(o["n"].s);
      E("RmMeasure")("n", o["n"].s);
    } else if (op == "clear") {
      mc->clear_measures();
      its.clear();
      E("ClearMeasures");
    } else if (op == "aux") {
      mc->add_measure_aux(std::make_shared<Aux<T>>(Aux<T>{c.get(), o["k"].l()}));
      E("AddAux")("k", o["k"].l());
    } else if (op == "duty") {
      bool on = o["on"].t();
      if (on)
        mc->set_after_cycle_duty([&c = *c] {
          bool thr = (*c.op)["dthr"].k == J::Num && (*c.op)["dthr"].l() == c.cycles;
          E("Duty")("thr", thr);
          c.maybe_signal((*c.op)["dsig"].k == J::Num && (*c.op)["dsig"].l() == c.cycles);
          if (thr) throw std::runtime_error("scripted failure in duty");
        });
      else
        mc->set_after_cycle_duty({});
      E("SetDuty")("on", on);
    } else if (op == "rng") { // the user draws from the generator of the simulation
      std::vector<long> v;
      for (long k = 0; k < o["n"].l(); ++k) v.push_back(u24(mc->get_rng()()));
      E("UserDraw")("v", v);
    } else if (op == "run" || op == "warmup" || op == "accumulate" || op == "wa") {
      c->polls = c->cycles = c->meas_calls = 0;
      auto stop = [&c = *c]() {
        ++c.cycles;
        ++c.polls;
        bool r = false;
        for (auto &x : (*c.op)["stop"].a) r = r || x.l() == c.polls;
        bool thr = (*c.op)["sthr"].k == J::Num && (*c.op)["sthr"].l() == c.polls;
        if (c.polls > 300) r = true; // the specification decides what a run away means; the driver must end
        c.maybe_signal((*c.op)["psig"].k == J::Num && (*c.op)["psig"].l() == c.polls);
        E("Poll")("r", r);
        return r;
      };
      long n = o["n"].l(), len = o["len"].l(1), nw = o["nw"].l();
      bool si    = o.has("s0");
      long s0    = o["s0"].l();
      bool meas  = op == "run" ? o["meas"].t() : op != "warmup";
      E("RunBegin")("op", op)("n", n)("len", len)("nw", nw)("meas", meas)("s0", si ? s0 : -1L);
      int st = -1;
      std::string exc;
      try {
        if (op == "run") st = mc->run(n, len, stop, meas);
        else if (op == "warmup") st = si ? mc->warmup(n, len, stop, phase<T>(s0)) : mc->warmup(n, len, stop);
        else if (op == "accumulate") st = mc->accumulate(n, len, stop);
        else st = si ? mc->warmup_and_accumulate(nw, n, len, stop, phase<T>(s0)) : mc->warmup_and_accumulate(nw, n, len, stop);
        E("RunEnd")("status", st);
      } catch (mpi::sim::aborted const &e) { E("Aborted")("code", e.code); } catch (std::exception const &e) { E("RunError"); }
    } else if (op == "get") {
      E("Get")("pct", long(mc->get_percent()))("ncyc", long(mc->get_current_cycle_number()))("cid", long(mc->get_config_id()));
    } else if (op == "collect") {
      E("CollectBegin");
      mc->collect_results(mpi::communicator{});
      std::vector<std::pair<std::string, long>> rates;
      for (auto &[n, r] : mc->get_acceptance_rates()) rates.emplace_back(n, rate20(r));
      E("CollectEnd")("rates", rates);
    } else if (op == "rates") {
      std::vector<std::pair<std::string, long>> rates;
      for (auto &[n, r] : mc->get_acceptance_rates()) rates.emplace_back(n, rate20(r));
      E("Rates")("rates", rates);
    } else if (op == "times") {
      // two looks at the clocks with some time in between: clocks stand still outside of runs
      double a = mc->get_warmup_time(), b = mc->get_accumulation_time(), d = mc->get_duration();
      auto t0 = std::chrono::steady_clock::now();
      while (std::chrono::steady_clock::now() - t0 < std::chrono::milliseconds(3)) {}
      bool still = a == mc->get_warmup_time() && b == mc->get_accumulation_time();
      E("Times")("still", still)("sum", std::abs(d - (a + b)) < 1e-9 && std::abs(mc->get_total_time() - (a + b)) < 1e-9)("neg", a < 0 || b < 0);
    } else if (op == "save") {
      file = h5::file{"mc.h5", 'w'};
      h5_write(h5::group(file), "mc", *mc);
      auto g = h5::group(file).open_group("mc");
      auto ms = g.open_group("measures").get_all_subgroup_dataset_names();
      auto mv = g.open_group("moves").get_all_subgroup_dataset_names();
      std::sort(ms.begin(), ms.end());
      std::sort(mv.begin(), mv.end());
      T s;
      h5::read(g, "sign", s);
      E("Save")("ncyc", h5::read<long>(g, "number_cycle_done"))("nmeas", h5::read<long>(g, "number_measure_done"))("s", phase_of(s))("ms", ms)("mv", mv);
      saved = true;
    } else if (op == "load") { // into a new object set up in the same way
      if (!saved) continue;
      auto c2    = std::make_unique<Ctx<T>>();
      auto mc2   = std::make_unique<mc_generic<T>>(name, seed, 0, rethrow);
      c2->mc     = mc2.get();
      c2->script = &h["script"];
      c2->pos    = c->pos;
      c2->op     = &o;
      mc.swap(mc2);
      c.swap(c2);
      its.clear();
      E("NewObject");
      add_nodes<T>(h["tree"], *c, [&](auto &&m, std::string n, double w) { mc->add_move(std::move(m), n, w); });
      for (auto const &m : o["measures"].a) add_measure(m);
      E("LoadBegin");
      h5_read(h5::group(file), "mc", *mc);
      E("LoadEnd");
    }
  }
}

// several ranks, each its own simulation: acceptance rates and collected numbers
template <typename T> void multi(J const &h) {
  int nr = h["nranks"].l(2);
  mpi::sim::world w;
  w.size        = nr;
  mpi::sim::env = true;
  std::vector<std::string> acc(nr), rates(nr);
  std::vector<std::thread> th;
  std::vector<long> bad(nr);
  for (int r = 0; r < nr; ++r)
    th.emplace_back([&, r] {
      mpi::sim::w = &w; mpi::sim::rank_ = r; mpi::sim::mon_n = 0;
      try {
        Ctx<T> c;
        mc_generic<T> mc(h["rng"].s, int(h["seed"].l() + 17 * r), 0, true);
        c.mc = &mc; c.script = &h["script"]; c.quiet = true; c.pos = size_t(r) * 3;
        static J none;
        c.op = &none;
        add_nodes<T>(h["tree"], c, [&](auto &&m, std::string n, double ww) { mc.add_move(std::move(m), n, ww); });
        std::vector<std::pair<long, std::pair<long, long>>> cnt;
        for (auto const &o : h["ops"].a) {
          c.counts.clear();
          mc.run(o["n"][r].l(), o["len"].l(1), [] { return false; }, false);
        }
        mc.collect_results(mpi::communicator{});
        for (auto &[k, v] : c.counts) cnt.emplace_back(k, v);
        acc[r] = drv::js(cnt);
        std::vector<std::pair<std::string, long>> rt;
        for (auto &[n, x] : mc.get_acceptance_rates()) rt.emplace_back(n, rate20(x));
        rates[r] = drv::js(rt);
      } catch (std::exception const &e) { std::cerr << "rank " << r << ": " << e.what() << std::endl; bad[r] = 1; w.kill(); }
    });
  for (auto &t : th) t.join();
  auto join = [](std::vector<std::string> const &v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + (v[i].empty() ? std::string("[]") : v[i]);
    return drv::raw{s + "]"};
  };
  mpi::sim::env = false;
  E("Reset")("draws", std::vector<long>{})("tree", drv::raw{h["tree_raw"].s})("cplx", false)("rethrow", true)("env", true);
  E("Multi")("counts", join(acc))("rates", join(rates))("bad", bad);
}

int main() {
  return drv::main_loop([](J const &h) {
    if (h["mode"].s == "multi") return multi<double>(h);
    if (h["cplx"].t()) history<dcomplex>(h);
    else history<double>(h);
  });
}
