#pragma once
#include "./mpi.hpp"
namespace mpi {
  // Emergency-stop monitor: a request on any rank eventually becomes visible on every rank, at the latest after finalize_communications.
  class monitor {
    long id;
    long polls     = 0;
    bool local     = false;
    bool finalized = false;
    bool any       = false;
    communicator c;

    public:
    monitor(communicator c_) : c(c_) {
      id = sim::mon_n++;
      if (sim::w) {
        std::lock_guard lk(sim::w->m);
        auto &m = sim::w->monitors[id];
        m.local.resize(sim::w->size);
      }
    }
    void request_emergency_stop() {
      local = true;
      if (sim::w) {
        std::lock_guard lk(sim::w->m);
        sim::w->monitors[id].local[c.rank()] = true;
      }
    }
    bool emergency_occured() {
      if (local || any) return true;
      if (finalized || !sim::w) return any;
      std::lock_guard lk(sim::w->m);
      auto &m = sim::w->monitors[id];
      ++polls;
      for (int r = 0; r < sim::w->size; ++r)
        if (m.local[r] && sim::w->visible(c.rank(), r, polls)) any = true;
      return any;
    }
    void finalize_communications() {
      if (sim::w) {
        for (bool b : exchange_(bool(local), c)) any = any || b;
      } else
        any = any || local;
      finalized = true;
    }
  };
} // namespace mpi
