// Signal capture and time-based stop callbacks; every history runs in its own process.
#include "drv.hpp"
#include "vclock.hpp"
#include <triqs/utility/callbacks.hpp>
#include <triqs/utility/signal_handler.hpp>
#include <signal.h>
#include <sys/wait.h>
namespace sh = triqs::signal_handler;
static std::vector<std::pair<std::string, int>> sigs = {{"INT", SIGINT}, {"TERM", SIGTERM}, {"XCPU", SIGXCPU}, {"QUIT", SIGQUIT}, {"USR1", SIGUSR1}, {"USR2", SIGUSR2}};
static std::string name(int s) {
  for (auto &x : sigs) if (x.second == s) return x.first;
  return "?" + std::to_string(s);
}
static void child(J const &h) {
  long base = 0;
  std::vector<std::function<bool()>> cb;
  for (auto const &o : h["ops"].a) {
    auto const &op = o["op"].s;
    if (op == "start") { sh::start(); E("Start"); }
    else if (op == "stop") { sh::stop(); E("Stop"); }
    else if (op == "raise") {
      for (auto &x : sigs) if (x.first == o["s"].s) { if (o["via"].t()) kill(getpid(), x.second); else raise(x.second); }
      E("Deliver")("s", o["s"].s);
    } else if (op == "received") {
      bool r = o["pop"].t() ? sh::received(true) : (o["via"].t() ? sh::received(false) : sh::received());
      E("Received")("pop", o["pop"].t())("r", r);
    } else if (op == "last") { auto s = name(sh::last()); E("Last")("s", s); }
    else if (op == "pop") { sh::pop(); E("Pop"); }
    else if (op == "callback") { cb.push_back(triqs::utility::clock_callback(o["d"].l())); E("Callback")("d", o["d"].l()); }
    else if (op == "elapse") { vclock::ns += o["ms"].l() * 1'000'000LL; E("Elapse")("ms", o["ms"].l()); }
    else if (op == "ask") { bool r = cb.at(o["i"].l() - 1)(); E("Ask")("i", o["i"].l())("r", r); }
  }
}
static void history(J const &h) {
  E("Reset");
  pid_t p = fork();
  if (p == 0) {
    for (auto &x : sigs) signal(x.second, SIG_DFL);
    child(h);
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (st != 0) E("Died")("signal", WIFSIGNALED(st) ? name(WTERMSIG(st)) : std::string("no"))("status", st);
}
int main() { return drv::main_loop(history); }
