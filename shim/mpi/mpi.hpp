// Stand-in for the TRIQS/mpi library (not available offline). Ranks are threads of one process, run under a context which
// implements collectives by rendezvous; without a context the process is serial (has_env is false).
#pragma once
#include <algorithm>
#include <any>
#include <array>
#include <complex>
#include <condition_variable>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <itertools/itertools.hpp>

enum MPI_Op { MPI_SUM, MPI_MIN, MPI_MAX, MPI_PROD, MPI_LAND, MPI_LOR };
using MPI_Comm                         = int;
inline constexpr MPI_Comm MPI_COMM_WORLD = 0;
inline constexpr MPI_Comm MPI_COMM_NULL  = -1;
inline constexpr int MPI_UNDEFINED       = -32766;

namespace mpi {

  // ------------------ the simulated world
  namespace sim {
    struct aborted : std::runtime_error {
      int code;
      aborted(int c) : std::runtime_error("MPI_Abort"), code(c) {}
    };
    struct world {
      int size = 1;
      std::mutex m;
      std::condition_variable cv;
      long generation = 0;
      int arrived     = 0;
      bool dead       = false; // a rank aborted or left with an exception
      std::vector<std::any> slots, result;
      // an optional scheduler, which lets one rank run at a time
      struct scheduler {
        virtual void block(int rank)   = 0; // the rank waits for the others
        virtual void release_all()     = 0; // the rendezvous is complete
        virtual void resume(int rank)  = 0; // returns when it is the rank's turn
        virtual ~scheduler()           = default;
      };
      scheduler *sched = nullptr;
      // all ranks deposit a value and get all of them
      std::vector<std::any> exchange(int rank, std::any v) {
        auto r = exchange_(rank, std::move(v));
        if (sched) sched->resume(rank);
        return r;
      }
      std::vector<std::any> exchange_(int rank, std::any v) {
        std::unique_lock lk(m);
        if (dead) throw aborted(0);
        if (slots.size() != size_t(size)) slots.resize(size);
        slots[rank] = std::move(v);
        long gen    = generation;
        if (++arrived == size) {
          result  = slots;
          arrived = 0;
          ++generation;
          cv.notify_all();
          if (sched) sched->release_all();
          return result;
        }
        if (sched) sched->block(rank);
        cv.wait(lk, [&] { return generation != gen || dead; });
        if (generation == gen) throw aborted(0);
        return result;
      }
      void kill() {
        std::lock_guard lk(m);
        dead = true;
        cv.notify_all();
      }
      // emergency monitors: one per construction round
      struct mon {
        std::vector<bool> local;
        std::vector<bool> seen;
      };
      std::map<long, mon> monitors;
      std::function<bool(int rank, int requester, long poll)> visible = [](int, int, long) { return true; };
    };
    inline thread_local world *w   = nullptr;
    inline thread_local int rank_  = 0;
    inline thread_local long mon_n = 0;
    inline bool env                = false; // value of mpi::has_env
  }                                         // namespace sim

  struct has_env_t {
    operator bool() const { return sim::env; }
  };
  inline has_env_t has_env;
  inline bool is_initialized() { return sim::env; }
  struct environment {
    environment(int, char **) {}
    environment(int, char *[], bool) {}
  };

  class communicator {
    std::shared_ptr<sim::world> sub_; // set for a communicator made by split
    int sub_rank_ = 0;
    bool null_    = false;

    public:
    communicator() = default;
    communicator(MPI_Comm) {}
    sim::world *world_() const { return sub_ ? sub_.get() : sim::w; }
    int rank() const { return sub_ ? sub_rank_ : (sim::w ? sim::rank_ : 0); }
    int size() const { return world_() ? world_()->size : 1; }
    MPI_Comm get() const { return null_ ? MPI_COMM_NULL : 0; }
    bool is_null() const { return null_; }
    void barrier(long = 1) const {
      if (world_()) world_()->exchange(rank(), 0);
    }
    [[noreturn]] void abort(int code) const {
      if (sim::w) sim::w->kill();
      throw sim::aborted(code);
    }
    communicator duplicate() const { return *this; }
    communicator split(int color, int key = 0) const {
      if (!world_()) return *this;
      struct ck {
        int color, key, rank;
        std::shared_ptr<sim::world> w;
      };
      auto mine = std::make_shared<sim::world>();
      auto all  = world_()->exchange(rank(), std::any(ck{color, key, rank(), mine}));
      std::vector<ck> mem;
      for (auto &a : all) {
        auto c = std::any_cast<ck>(a);
        if (c.color == color) mem.push_back(c);
      }
      std::sort(mem.begin(), mem.end(), [](auto const &x, auto const &y) { return std::tie(x.key, x.rank) < std::tie(y.key, y.rank); });
      communicator r;
      if (color == MPI_UNDEFINED) {
        r.null_ = true;
        world_()->exchange(rank(), 0);
        return r;
      }
      r.sub_ = mem[0].w;
      if (mem[0].rank == rank()) r.sub_->size = int(mem.size());
      for (size_t i = 0; i < mem.size(); ++i)
        if (mem[i].rank == rank()) r.sub_rank_ = int(i);
      world_()->exchange(rank(), 0);
      return r;
    }
  };

  template <typename T> std::vector<T> exchange_(T const &x, communicator c) {
    if (!c.world_()) return {x};
    auto r = c.world_()->exchange(c.rank(), std::any(x));
    std::vector<T> v;
    for (auto &a : r) v.push_back(std::any_cast<T const &>(a));
    return v;
  }
  template <typename T> T apply_op_(T const &a, T const &b, MPI_Op op) {
    if constexpr (requires { std::max(a, b); } && std::is_arithmetic_v<T>) {
      switch (op) {
        case MPI_SUM: return a + b;
        case MPI_PROD: return a * b;
        case MPI_MIN: return std::min(a, b);
        case MPI_MAX: return std::max(a, b);
        case MPI_LAND: return a && b;
        case MPI_LOR: return a || b;
      }
      return a;
    } else {
      if (op == MPI_PROD) throw std::runtime_error("mpi stand-in: unsupported op");
      if (op != MPI_SUM) throw std::runtime_error("mpi stand-in: unsupported op");
      T r = a;
      r += b;
      return r;
    }
  }
  template <typename T> std::vector<T> apply_op_(std::vector<T> a, std::vector<T> const &b, MPI_Op op) {
    if (a.size() != b.size()) throw std::runtime_error("mpi stand-in: size mismatch in reduction");
    for (size_t i = 0; i < a.size(); ++i) a[i] = apply_op_(T(a[i]), T(b[i]), op);
    return a;
  }

  struct shim_tag {};

  template <typename T>
  concept has_mpi_reduce_ = requires(T const &x, communicator c) { mpi_reduce(x, c, 0, true, MPI_SUM); };
  template <typename T>
  concept has_mpi_broadcast_ = requires(T &x, communicator c) { mpi_broadcast(x, c, 0); };

  // Result is defined on the root only (all ranks with `all`); other ranks get a default/unchanged copy of their own input.
  template <typename T> auto reduce(T &&x, communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    using D = std::decay_t<T>;
    if constexpr (has_mpi_reduce_<D>) {
      return mpi_reduce(x, c, root, all, op);
    } else if constexpr (requires { x.shim_regular(); }) {
      auto y = x.shim_regular();
      auto v = exchange_(y, c);
      if (!all && c.rank() != root) return decltype(y){};
      auto r = v[0];
      for (size_t i = 1; i < v.size(); ++i) r = apply_op_(r, v[i], op);
      return r;
    } else {
      auto v = exchange_(D(x), c);
      if (!all && c.rank() != root) return D{};
      D r = v[0];
      for (size_t i = 1; i < v.size(); ++i) r = apply_op_(r, v[i], op);
      return r;
    }
  }
  template <typename T> auto all_reduce(T &&x, communicator c = {}, MPI_Op op = MPI_SUM) { return reduce(std::forward<T>(x), c, 0, true, op); }
  template <typename T> void all_reduce_in_place(T &&x, communicator c = {}, MPI_Op op = MPI_SUM) { x = reduce(x, c, 0, true, op); }
  template <typename T> void reduce_in_place(T &&x, communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    auto r = reduce(x, c, root, all, op);
    if (all || c.rank() == root) x = r;
  }
  template <typename T> void broadcast(T &&x, communicator c = {}, int root = 0) {
    using D = std::decay_t<T>;
    if constexpr (has_mpi_broadcast_<D>) {
      mpi_broadcast(x, c, root);
    } else if constexpr (requires { x.shim_regular(); }) {
      auto v = exchange_(x.shim_regular(), c);
      if (c.rank() != root) x = v[root];
    } else {
      auto v = exchange_(D(x), c);
      if (c.rank() != root) x = v[root];
    }
  }
  template <typename T> std::vector<T> gather(std::vector<T> const &x, communicator c = {}, int root = 0, bool all = false) {
    auto v = exchange_(x, c);
    std::vector<T> r;
    if (!all && c.rank() != root) return r;
    for (auto &y : v) r.insert(r.end(), y.begin(), y.end());
    return r;
  }
  template <typename T> std::vector<T> all_gather(std::vector<T> const &x, communicator c = {}) { return gather(x, c, 0, true); }
  template <typename T> requires(!requires(T x) { x.begin(); })
  std::vector<T> gather(T const &x, communicator c = {}, int root = 0, bool all = false) {
    auto v = exchange_(x, c);
    if (!all && c.rank() != root) v.clear();
    return v;
  }
  template <typename T> requires(!requires(T x) { x.begin(); })
  std::vector<T> all_gather(T const &x, communicator c = {}) { return gather(x, c, 0, true); }

  template <typename T> T scatter(T const &, communicator = {}, int = 0, bool = false) { throw std::runtime_error("mpi stand-in: no scatter"); }
  template <typename T> requires(requires(T const &x) { x.shim_regular(); }) auto gather(T const &x, communicator = {}, int = 0, bool = false) { if (true) throw std::runtime_error("mpi stand-in: no gather of arrays"); return x.shim_regular(); }

  inline long chunk_length(long range, int n, int i) {
    auto [a, b] = itertools::chunk_range(0, range, n, i);
    return b - a;
  }
  template <typename R> auto chunk(R &&r, communicator c = {}) {
    auto n      = std::distance(std::begin(r), std::end(r));
    auto [a, b] = itertools::chunk_range(0, n, c.size(), c.rank());
    return itertools::slice(std::forward<R>(r), a, b);
  }

  template <typename Tag, typename T> struct lazy {
    T rhs;
    communicator c;
    int root{};
    bool all{};
    MPI_Op op = MPI_SUM;
  };
  namespace tag {
    struct reduce {};
    struct scatter {};
    struct gather {};
  } // namespace tag

} // namespace mpi
