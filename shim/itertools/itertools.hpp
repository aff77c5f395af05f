// Stand-in for the TRIQS/itertools library (not available offline). Semantics follow its documentation.
#pragma once
#include <cstddef>
#include <iterator>
#include <tuple>
#include <utility>
#include <vector>
#include <array>
#include <type_traits>
#include <string>
#include <cmath>
#include <algorithm>
#include <numeric>
#include <functional>
#include <concepts>
#include <optional>

namespace itertools {

  template <typename EndIter> struct sentinel_t {
    EndIter it;
  };
  template <typename E> sentinel_t<std::decay_t<E>> make_sentinel(E &&e) { return {std::forward<E>(e)}; }

  // CRTP facade: Derived provides increment(), equal(Derived const&) const, dereference() const
  template <class Derived, class Value, class Tag = std::forward_iterator_tag, class Ref = Value &, class Diff = std::ptrdiff_t>
  struct iterator_facade {
    using value_type        = Value;
    using reference         = Ref;
    using pointer           = Value *;
    using difference_type   = Diff;
    using iterator_category = Tag;
    Derived &self() { return static_cast<Derived &>(*this); }
    Derived const &self() const { return static_cast<Derived const &>(*this); }
    Derived &operator++() {
      self().increment();
      return self();
    }
    Derived operator++(int) {
      Derived c = self();
      self().increment();
      return c;
    }
    decltype(auto) operator*() const { return self().dereference(); }
    auto operator->() const { return std::addressof(self().dereference()); }
    template <typename U> requires requires(Derived const &d, U const &u) { d.equal(u); }
    friend bool operator==(Derived const &a, U const &b) { return a.equal(b); }
    template <typename U> requires requires(Derived const &d, U const &u) { d.equal(u); }
    friend bool operator!=(Derived const &a, U const &b) { return !a.equal(b); }
  };

  // ---- range
  class range {
    std::ptrdiff_t first_ = 0, last_ = 0, step_ = 1;

    public:
    range() = default;
    template <std::integral I> explicit range(I last) : first_(0), last_(last < 0 ? 0 : std::ptrdiff_t(last)) {}
    template <std::integral I, std::integral J> range(I f, J l, std::ptrdiff_t s = 1) : first_(f), last_(l), step_(s) {}
    std::ptrdiff_t first() const { return first_; }
    std::ptrdiff_t last() const { return last_; }
    std::ptrdiff_t step() const { return step_; }
    std::size_t size() const {
      std::ptrdiff_t len = last_ - first_;
      if (step_ > 0) return len <= 0 ? 0 : (len + step_ - 1) / step_;
      return len >= 0 ? 0 : ((-len) + (-step_) - 1) / (-step_);
    }
    bool operator==(range const &) const = default;
    friend range operator+(range const &r, std::ptrdiff_t s) { return {r.first_ + s, r.last_ + s, r.step_}; }

    struct const_iterator {
      using value_type        = std::ptrdiff_t;
      using reference         = std::ptrdiff_t;
      using pointer           = std::ptrdiff_t const *;
      using difference_type   = std::ptrdiff_t;
      using iterator_category = std::forward_iterator_tag;
      std::ptrdiff_t pos = 0, last = 0, step = 1;
      std::ptrdiff_t operator*() const { return pos; }
      const_iterator &operator++() {
        pos += step;
        return *this;
      }
      const_iterator operator++(int) {
        auto c = *this;
        pos += step;
        return c;
      }
      bool atend() const { return step > 0 ? pos >= last : pos <= last; }
      bool operator==(const_iterator const &o) const { return (atend() && o.atend()) || pos == o.pos; }
    };
    using iterator = const_iterator;
    const_iterator begin() const { return {first_, last_, step_}; }
    const_iterator end() const { return {last_, last_, step_}; }
    const_iterator cbegin() const { return begin(); }
    const_iterator cend() const { return end(); }
  };

  // holder: references for lvalues, values for rvalues
  // a callable which can be assigned even when it is a lambda
  template <typename F> struct box {
    std::optional<F> f;
    box() = default;
    box(F x) : f(std::move(x)) {}
    box(box const &) = default;
    box &operator=(box const &o) {
      if (this != &o) {
        if (o.f) f.emplace(*o.f); else f.reset();
      }
      return *this;
    }
    template <typename... A> decltype(auto) operator()(A &&...a) const { return (*const_cast<std::optional<F> &>(f))(std::forward<A>(a)...); }
  };

  // ---- transform
  template <typename R, typename F> struct transformed {
    R r;
    F f;
    template <typename It> struct iter {
      It it = {};
      mutable box<F> b = {};
      using value_type        = std::decay_t<decltype(std::declval<F &>()(*std::declval<It &>()))>;
      using reference         = decltype(std::declval<F &>()(*std::declval<It &>()));
      using pointer           = value_type *;
      using difference_type   = std::ptrdiff_t;
      using iterator_category = std::forward_iterator_tag;
      reference operator*() const { return b(*it); }
      iter &operator++() {
        ++it;
        return *this;
      }
      iter operator++(int) {
        auto c = *this;
        ++it;
        return c;
      }
      bool operator==(iter const &o) const { return it == o.it; }
    };
    auto begin() const {
      using std::begin;
      auto b = begin(r);
      return iter<decltype(b)>{b, box<F>{f}};
    }
    auto end() const {
      using std::end;
      auto e = end(r);
      return iter<decltype(e)>{e, box<F>{f}};
    }
    auto cbegin() const { return begin(); }
    auto cend() const { return end(); }
    auto size() const { return r.size(); }
  };
  template <typename R, typename F> auto transform(R &&r, F f) { return transformed<R, F>{std::forward<R>(r), std::move(f)}; }

  // ---- enumerate
  template <typename It> struct enum_iter {
    It it;
    long n = 0;
    using reference         = std::tuple<long, decltype(*it)>;
    using value_type        = reference;
    using pointer           = value_type *;
    using difference_type   = std::ptrdiff_t;
    using iterator_category = std::forward_iterator_tag;
    reference operator*() const { return reference(n, *it); }
    struct arrow {
      reference v;
      reference *operator->() { return &v; }
    };
    arrow operator->() const { return arrow{**this}; }
    enum_iter &operator++() {
      ++it;
      ++n;
      return *this;
    }
    enum_iter operator++(int) {
      auto c = *this;
      ++*this;
      return c;
    }
    bool operator==(enum_iter const &o) const { return it == o.it; }
  };
  template <typename R> struct enumerated {
    R r;
    template <typename It> using iter = enum_iter<It>;
    auto begin() {
      using std::begin;
      auto b = begin(r);
      return iter<decltype(b)>{b, 0};
    }
    auto end() {
      using std::end;
      auto e = end(r);
      return iter<decltype(e)>{e, 0};
    }
    auto begin() const {
      using std::begin;
      auto b = begin(std::as_const(r));
      return iter<decltype(b)>{b, 0};
    }
    auto end() const {
      using std::end;
      auto e = end(std::as_const(r));
      return iter<decltype(e)>{e, 0};
    }
    auto cbegin() const { return begin(); }
    auto cend() const { return end(); }
    auto size() const { return r.size(); }
  };
  template <typename R> auto enumerate(R &&r) { return enumerated<R>{std::forward<R>(r)}; }

  // ---- zip
  template <typename... R> struct zipped {
    std::tuple<R...> rs;
    template <typename... It> struct iter {
      std::tuple<It...> its;
      using reference         = std::tuple<decltype(*std::declval<It &>())...>;
      using value_type        = reference;
      using pointer           = value_type *;
      using difference_type   = std::ptrdiff_t;
      using iterator_category = std::forward_iterator_tag;
      reference operator*() const {
        return std::apply([](auto &...i) { return reference(*i...); }, its);
      }
      iter &operator++() {
        std::apply([](auto &...i) { (++i, ...); }, its);
        return *this;
      }
      bool operator==(iter const &o) const { return eq(o, std::index_sequence_for<It...>{}); }
      template <size_t... I> bool eq(iter const &o, std::index_sequence<I...>) const { return ((std::get<I>(its) == std::get<I>(o.its)) || ...); }
    };
    template <typename... It> static iter<It...> mk(It... it) { return {{it...}}; }
    auto begin() {
      return std::apply([](auto &...r) { return mk(std::begin(r)...); }, rs);
    }
    auto end() {
      return std::apply([](auto &...r) { return mk(std::end(r)...); }, rs);
    }
    auto begin() const {
      return std::apply([](auto &...r) { return mk(std::begin(r)...); }, rs);
    }
    auto end() const {
      return std::apply([](auto &...r) { return mk(std::end(r)...); }, rs);
    }
  };
  template <typename... R> auto zip(R &&...r) { return zipped<R...>{{std::forward<R>(r)...}}; }

  // ---- product : last range is the fastest
  template <typename... R> struct multiplied {
    std::tuple<R...> rs;
    template <typename... It> struct iter {
      std::tuple<It...> b, e, its;
      bool done = false;
      using reference         = std::tuple<decltype(*std::declval<It &>())...>;
      using value_type        = reference;
      using pointer           = value_type *;
      using difference_type   = std::ptrdiff_t;
      using iterator_category = std::forward_iterator_tag;
      reference operator*() const {
        return std::apply([](auto &...i) { return reference(*i...); }, its);
      }
      template <int N> void inc() {
        ++std::get<N>(its);
        if (std::get<N>(its) == std::get<N>(e)) {
          if constexpr (N == 0)
            done = true;
          else {
            std::get<N>(its) = std::get<N>(b);
            inc<N - 1>();
          }
        }
      }
      iter &operator++() {
        inc<sizeof...(It) - 1>();
        return *this;
      }
      iter operator++(int) {
        auto c = *this;
        ++*this;
        return c;
      }
      bool operator==(iter const &o) const { return done == o.done && (done || its == o.its); }
    };
    template <typename... It> static bool empty(std::tuple<It...> const &b, std::tuple<It...> const &e) {
      return [&]<size_t... I>(std::index_sequence<I...>) { return ((std::get<I>(b) == std::get<I>(e)) || ...); }(std::index_sequence_for<It...>{});
    }
    template <typename... It> static iter<It...> mk(std::tuple<It...> b, std::tuple<It...> e, bool at_end) {
      return {b, e, b, at_end || empty(b, e)};
    }
    auto begin() const {
      auto b = std::apply([](auto &...r) { return std::make_tuple(std::begin(r)...); }, rs);
      auto e = std::apply([](auto &...r) { return std::make_tuple(std::end(r)...); }, rs);
      return mk(b, e, false);
    }
    auto end() const {
      auto b = std::apply([](auto &...r) { return std::make_tuple(std::begin(r)...); }, rs);
      auto e = std::apply([](auto &...r) { return std::make_tuple(std::end(r)...); }, rs);
      return mk(b, e, true);
    }
    auto cbegin() const { return begin(); }
    auto cend() const { return end(); }
  };
  template <typename... R> auto product(R &&...r) { return multiplied<R...>{{std::forward<R>(r)...}}; }

  inline range as_range_(range const &r) { return r; }
  template <std::integral I> range as_range_(I i) { return range(i); }
  template <typename... I> requires((std::integral<std::decay_t<I>> || std::derived_from<std::decay_t<I>, range>) && ...)
  auto product_range(I const &...i) {
    return multiplied<std::conditional_t<true, range, I>...>{{as_range_(i)...}};
  }
  template <typename T, size_t N> auto product_range(std::array<T, N> const &a) {
    return [&]<size_t... I>(std::index_sequence<I...>) { return product_range(a[I]...); }(std::make_index_sequence<N>{});
  }

  // ---- slice / misc
  template <typename R> auto make_vector_from_range(R const &r) {
    std::vector<std::decay_t<decltype(*std::begin(r))>> v;
    for (auto const &x : r) v.push_back(x);
    return v;
  }
  template <typename R> struct sliced_t {
    R r;
    std::ptrdiff_t a, b;
    auto begin() const { return std::next(std::begin(r), a); }
    auto end() const { return std::next(std::begin(r), b); }
  };
  template <typename R> auto slice(R &&r, std::ptrdiff_t a, std::ptrdiff_t b) { return sliced_t<R>{std::forward<R>(r), a, b}; }

  // chunk of [start,end) for rank
  inline std::pair<std::ptrdiff_t, std::ptrdiff_t> chunk_range(std::ptrdiff_t start, std::ptrdiff_t end, long n_chunks, long rank) {
    auto total = end - start;
    auto chunk = total / n_chunks, rem = total % n_chunks;
    auto s = start + rank * chunk + std::min<std::ptrdiff_t>(rank, rem);
    return {s, s + chunk + (rank < rem ? 1 : 0)};
  }
  template <typename F> void foreach (range const &r, F f) {
    for (auto i : r) f(i);
  }

  using std::begin;
  using std::end;
} // namespace itertools
