// Scope guards, levelled reports, timers and exceptions.
#include "drv.hpp"
#include "vclock.hpp"
#include <triqs/utility/first_include.hpp>
#include <functional>
#include <optional>
#include <triqs/utility/exceptions.hpp>
#include <triqs/utility/report_stream.hpp>
#include <triqs/utility/scope_guard.hpp>
#include <triqs/utility/timer.hpp>
#include <triqs/utility/timestamp.hpp>
using namespace triqs::utility;

static void history(J const &h) {
  using G = scope_guard<std::function<void()>>;
  std::vector<long> ran;
  std::vector<std::optional<G>> g(5);
  std::vector<int> sc(5, -1);
  int depth = 0;
  std::stringstream os;
  std::vector<report_stream> rep;
  std::vector<timer> tm(3);
  std::vector<std::optional<triqs::runtime_error>> ex(3);
  ex[1].emplace(); ex[2].emplace();
  auto printed = [&] { auto s = os.str(); os.str(""); return s; };
  auto leave = [&](bool thr) {
    auto kill = [&] {
      for (int i = 4; i >= 1; --i)
        if (sc[i] == depth) { g[i].reset(); sc[i] = -1; }
    };
    ran.clear();
    if (thr) {
      struct K { std::function<void()> f; ~K() { f(); } };
      try { K k{kill}; throw 1; } catch (int) {}
    } else
      kill();
    --depth;
    E("Leave")("ran", ran);
  };
  E("Reset");
  for (auto const &o : h["ops"].a) {
    auto const &op = o["op"].s;
    int i = o["i"].l(1), j = o["j"].l(1);
    if (op == "enter") { ++depth; E("Enter"); }
    else if (op == "guard") {
      long a = o["a"].l();
      std::function<void()> f = [&ran, a] { ran.push_back(a); };
      if (o["how"].l()) g[i].emplace(exec_at_scope_exit(f)); else g[i].emplace(make_scope_guard(f));
      sc[i] = depth;
      E("Guard")("i", i)("a", a);
    } else if (op == "dismiss") { g[i]->dismiss(); E("Dismiss")("i", i); }
    else if (op == "active") { bool r = g[i]->active(); E("Active")("i", i)("r", r); }
    else if (op == "movenew") { g[j].emplace(std::move(*g[i])); sc[j] = depth; E("MoveNew")("i", i)("j", j); }
    else if (op == "moveassign") { *g[j] = std::move(*g[i]); E("MoveAssign")("i", i)("j", j); }
    else if (op == "leave") leave(o["throw"].t());
    else if (op == "macro") {
      ++depth; E("Enter");
      ran.clear();
      long a = o["a"].l();
      try {
        SCOPE_EXIT { ran.push_back(a); };
        E("Guard")("i", i)("a", a);
        if (o["throw"].t()) throw 1;
      } catch (int) {}
      --depth;
      E("Leave")("ran", ran);
    } else if (op == "report") { rep.emplace_back(&os, int(o["v"].l())); E("Report")("v", o["v"].l()); }
    else if (op == "level") { rep.push_back(rep.at(o["k"].l() - 1)(o["n"].l())); E("Level")("k", o["k"].l())("n", o["n"].l()); }
    else if (op == "print") { rep.at(o["k"].l() - 1) << "m" << 12 << std::endl; auto s = printed(); E("Print")("k", o["k"].l())("s", "m12\n")("seen", s); }
    else if (op == "printlevel") { rep.at(o["k"].l() - 1)(o["n"].l()) << "q" << 3 << std::endl; auto s = printed(); E("PrintLevel")("k", o["k"].l())("n", o["n"].l())("s", "q3\n")("seen", s); }
    else if (op == "elapse") { vclock::ns += o["ms"].l() * 1'000'000LL; E("Elapse")("ms", o["ms"].l()); }
    else if (op == "tstart") { tm[i].start(); E("TStart")("i", i); }
    else if (op == "tstop") { tm[i].stop(); E("TStop")("i", i); }
    else if (op == "treset") { tm[i] = {}; E("TReset")("i", i); }
    else if (op == "tread") { long ms = drv::L(double(tm[i]) * 1000); bool r = tm[i].is_running(); E("TRead")("i", i)("ms", ms)("r", r); }
    else if (op == "xnew") { ex[i].emplace(); E("XNew")("i", i); }
    else if (op == "xadd") {
      if (o["s"].s.size() == 1) *ex[i] << o["s"].s.c_str(); else *ex[i] << o["s"].s;
      E("XAdd")("i", i)("s", o["s"].s);
    }
    else if (op == "xcopy") {
      if (o["throw"].t()) { try { throw *ex[i]; } catch (triqs::runtime_error &e) { ex[j].emplace(e); } } else ex[j].emplace(*ex[i]);
      E("XCopy")("i", i)("j", j);
    }
    else if (op == "xwhat") {
      std::string s = static_cast<std::exception &>(*ex[i]).what();
      auto p = s.rfind("\nException was thrown on node");
      E("XWhat")("i", i)("s", p == std::string::npos ? "(no rank) " + s : s.substr(0, p));
    }
    else if (op == "hms") { auto s = hours_minutes_seconds_from_seconds(o["sec"].l()); E("Hms")("sec", o["sec"].l())("s", s); }
    else if (op == "eta") {
      timer t; t.start();
      vclock::ns += o["el"].l() * 1'000'000'000LL;
      if (o["throw"].t()) t.stop();
      auto s = estimate_time_left(o["n"].l(), o["it"].l(), t);
      vclock::ns -= o["el"].l() * 1'000'000'000LL;
      E("Eta")("n", o["n"].l())("it", o["it"].l())("el", o["el"].l())("s", s);
    }
  }
  while (depth > 0) leave(false);
}
int main() { return drv::main_loop(history); }
