// A deterministic scheduler of simulated ranks (threads): exactly one runs at a time, the choice is seeded.
#pragma once
#include <mpi/mpi.hpp>
#include <condition_variable>
#include <mutex>
#include <random>
struct baton : mpi::sim::world::scheduler {
  std::mutex m;
  std::condition_variable cv;
  std::vector<int> state; // 0 ready, 1 blocked, 2 finished
  int turn = -1;
  long quantum = 1, bias = 0;
  bool deadlock = false;
  mpi::sim::world *w;
  std::mt19937 rng;
  baton(int n, unsigned seed, mpi::sim::world *w_, long bias_) : state(n, 0), bias(bias_), w(w_), rng(seed) { pick(); }
  void pick() { // lock held (or constructor)
    std::vector<int> r;
    for (int i = 0; i < int(state.size()); ++i)
      if (state[i] == 0) r.push_back(i);
    if (r.empty()) {
      turn = -1;
      bool any = false;
      for (int s : state) any = any || s == 1;
      if (any) deadlock = true;
      return;
    }
    // bias: the rank 'bias' runs as rarely as possible (negative: no bias)
    if (bias >= 0 && r.size() > 1 && rng() % 8) r.erase(std::remove(r.begin(), r.end(), int(bias)), r.end());
    turn = r[rng() % r.size()];
  }
  void wait_(std::unique_lock<std::mutex> &lk, int rank) {
    cv.wait(lk, [&] { return turn == rank || deadlock; });
  }
  void start(int rank) {
    std::unique_lock lk(m);
    wait_(lk, rank);
  }
  void yield(int rank) {
    std::unique_lock lk(m);
    if (deadlock) return;
    pick();
    cv.notify_all();
    wait_(lk, rank);
  }
  void block(int rank) override {
    std::unique_lock lk(m);
    state[rank] = 1;
    pick();
    cv.notify_all();
    if (deadlock) {
      w->dead = true;
      w->cv.notify_all();
    }
  }
  void release_all() override {
    std::unique_lock lk(m);
    for (auto &s : state)
      if (s == 1) s = 0;
  }
  void resume(int rank) override {
    std::unique_lock lk(m);
    wait_(lk, rank);
  }
  void finish(int rank) {
    std::unique_lock lk(m);
    state[rank] = 2;
    pick();
    cv.notify_all();
    if (deadlock) {
      std::lock_guard l2(w->m);
      w->dead = true;
      w->cv.notify_all();
    }
  }
};
