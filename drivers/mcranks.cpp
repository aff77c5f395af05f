// Several simulated ranks run the Monte Carlo engine under a seeded schedule; failures are injected at chosen callbacks.
#include "drv.hpp"
#include "sched.hpp"
#include <triqs/mc_tools.hpp>
#include <thread>
using namespace triqs::mc_tools;

struct Ctx {
  int rk;
  baton *b;
  mpi::sim::world *w;
  J const *op = nullptr;
  long count[8] = {0};
  // is the n-th call of callback kind to fail?
  bool boom(int kind, char const *name) {
    b->yield(rk);
    if (b->deadlock) throw mpi::sim::aborted(1);
    ++count[kind];
    for (auto const &f : (*op)["fail"].a)
      if (f[0].l() == rk && f[1].s == name && f[2].l() == count[kind]) {
        E("Fail")("rk", rk)("in", name);
        return true;
      }
    return false;
  }
  void check(int kind, char const *name) {
    if (boom(kind, name)) throw std::runtime_error("scripted failure");
  }
};
struct Mv {
  Ctx *c;
  double attempt() {
    if (c->boom(0, "attempt")) throw std::runtime_error("scripted failure");
    if (c->boom(5, "nan")) return std::nan("");
    return 0.5;
  }
  double accept() { c->check(1, "accept"); return 1; }
  void reject() { c->check(2, "reject"); }
};
struct Ms {
  Ctx *c;
  void accumulate(double) {
    c->check(3, "measure");
    E("Measure")("rk", c->rk);
  }
  void collect_results(mpi::communicator const &) {}
};
struct Aux {
  Ctx *c;
  void operator()() { c->check(4, "aux"); }
};

static void history(J const &h) {
  int nr       = h["nranks"].l(2);
  bool rethrow = h["rethrow"].t(), env = h["env"].t();
  mpi::sim::world w;
  w.size = nr;
  baton b(nr, h["seed"].l(1), &w, h["bias"].l(-1));
  w.sched        = &b;
  auto delay     = h["delay"].longs();
  w.visible      = [&](int rank, int, long poll) { return poll > delay.at(rank); };
  mpi::sim::env  = env;
  E("Reset")("nranks", nr)("rethrow", rethrow)("env", env);
  std::vector<std::thread> th;
  for (int r = 0; r < nr; ++r)
    th.emplace_back([&, r] {
      mpi::sim::w = nr > 1 ? &w : nullptr; mpi::sim::rank_ = r; mpi::sim::mon_n = 0;
      b.start(r);
      Ctx c{r, &b, &w};
      bool left = false;
      try {
        mc_generic<double> mc("mt19937", int(h["seed"].l() + 101 * r), 0, rethrow);
        mc.add_move(Mv{&c}, "m");
        mc.add_measure(Ms{&c}, "x");
        mc.add_measure_aux(std::make_shared<Aux>(Aux{&c}));
        for (auto const &o : h["ops"].a) {
          c.op = &o;
          for (auto &x : c.count) x = 0;
          mc.set_after_cycle_duty([&] { c.check(6, "duty"); });
          long n = o["n"][r].l(), polls = 0, stop = o["stop"][r].l();
          bool meas = o["meas"].t();
          E("Begin")("rk", r)("n", n)("meas", meas);
          auto cb = [&]() {
            b.yield(r);
            ++polls;
            if (w.dead || b.deadlock) throw mpi::sim::aborted(2);
            if (polls > 400) { E("RunAway")("rk", r); throw mpi::sim::aborted(3); }
            bool x = polls == stop;
            E("Poll")("rk", r)("r", x);
            return x;
          };
          try {
            int st = meas ? mc.accumulate(n, o["len"].l(1), cb) : mc.warmup(n, o["len"].l(1), cb);
            E("End")("rk", r)("st", st);
          } catch (mpi::sim::aborted const &e) {
            throw;
          } catch (std::exception const &e) { E("Error")("rk", r); }
        }
      } catch (mpi::sim::aborted const &) { E("Abort")("rk", r); left = true; }
      if (left) { std::lock_guard lk(w.m); w.dead = true; w.cv.notify_all(); }
      b.finish(r);
    });
  for (auto &t : th) t.join();
  if (b.deadlock) E("Deadlock");
  mpi::sim::env = false;
}
int main() { return drv::main_loop(history); }
