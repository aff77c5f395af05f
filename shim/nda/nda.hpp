// Stand-in for the TRIQS/nda library (not available offline): eager dense arrays/views with the interface TRIQS uses.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <concepts>
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <limits>
#include <memory>
#include <numeric>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <optional>
#include <itertools/itertools.hpp>
#include "./macros.hpp"
#include "./stdutil/complex.hpp"
#include "./stdutil/array.hpp"

namespace nda {

  using dcomplex = std::complex<double>;

  class runtime_error : public std::runtime_error {
    public:
    using std::runtime_error::runtime_error;
  };

  // ------------- range, ellipsis
  struct range : itertools::range {
    using itertools::range::range;
    range() = default;
    range(itertools::range const &r) : itertools::range(r) {}
    struct all_t {};
    static inline constexpr all_t all{};
  };
  struct ellipsis {};
  inline constexpr range::all_t all_{};
  using range_all = range::all_t;

  // layouts and allocators are only names: every array is stored in row-major order
  struct C_stride_layout { using with_lowest_guarantee_t = C_stride_layout; using contiguous_t = C_stride_layout; };
  struct C_layout { using with_lowest_guarantee_t = C_stride_layout; using contiguous_t = C_layout; };
  struct F_layout { using with_lowest_guarantee_t = C_stride_layout; using contiguous_t = F_layout; };
  struct F_stride_layout { using with_lowest_guarantee_t = C_stride_layout; using contiguous_t = F_layout; };
  template <int = 0> struct heap {};

  // ------------- scalar traits
  template <typename T> inline constexpr bool is_complex_v                  = false;
  template <typename T> inline constexpr bool is_complex_v<std::complex<T>> = true;
  template <typename T> inline constexpr bool is_complex_v<const T>         = is_complex_v<T>;
  template <typename S> inline constexpr bool is_scalar_v                   = std::is_arithmetic_v<std::decay_t<S>> || is_complex_v<std::decay_t<S>>;
  template <typename S> inline constexpr bool is_scalar_or_convertible_v    = is_scalar_v<S> || std::is_constructible_v<dcomplex, S>;
  template <typename S>
  concept Scalar = is_scalar_v<S>;

  struct arr_base {};
  template <typename A>
  concept ShimArr = std::is_base_of_v<arr_base, std::decay_t<A>>;
  template <typename A>
  concept Array = ShimArr<A>;
  template <typename A> inline constexpr int get_rank = [] {
    if constexpr (ShimArr<A>)
      return std::decay_t<A>::rank;
    else
      return 0;
  }();
  template <typename A, int R>
  concept ArrayOfRank = ShimArr<A> && (get_rank<A> == R);
  template <typename A, int R>
  concept MemoryArrayOfRank = ArrayOfRank<A, R>;
  template <typename A>
  concept MemoryArray = ShimArr<A>;
  template <typename A>
  concept Matrix = ArrayOfRank<A, 2>;
  template <typename A>
  concept Vector = ArrayOfRank<A, 1>;
  template <typename A>
  concept MemoryMatrix = ArrayOfRank<A, 2>;
  template <typename A>
  concept MemoryVector = ArrayOfRank<A, 1>;
  template <typename A> using get_value_t = typename std::decay_t<A>::value_type;
  template <typename A> inline constexpr char get_algebra = [] {
    if constexpr (ShimArr<A>)
      return std::decay_t<A>::algebra;
    else
      return 'N';
  }();

  template <typename T, int R, char Alg> class arr_;
  template <typename T, int R, char Alg> class arrv_;

  template <typename T, int R, typename L = C_layout> using array = arr_<T, R, 'A'>;
  template <typename T, int R, typename... L> using array_view = arrv_<T, R, 'A'>;
  template <typename T, int R, typename... L> using array_const_view = arrv_<T const, R, 'A'>;
  template <typename T, typename L = C_layout> using matrix = arr_<T, 2, 'M'>;
  template <typename T, typename... L> using matrix_view = arrv_<T, 2, 'M'>;
  template <typename T, typename... L> using matrix_const_view = arrv_<T const, 2, 'M'>;
  template <typename T, typename... L> using vector = arr_<T, 1, 'V'>;
  template <typename T, typename... L> using vector_view = arrv_<T, 1, 'V'>;
  template <typename T, typename... L> using vector_const_view = arrv_<T const, 1, 'V'>;
  template <typename T, int R, typename... L> using array_contiguous_view = arrv_<T, R, 'A'>;

  template <typename T, int R, typename L = C_layout, char Alg = 'A', typename C = heap<>> using basic_array = arr_<T, R, Alg>;
  template <typename T, int R, typename L = C_stride_layout, char Alg = 'A', typename...> using basic_array_view = arrv_<T, R, Alg>;
  template <int R> using shape_t = std::array<long, R>;

  inline void bound_check(bool ok, char const *what) {
    if (!ok) throw runtime_error(std::string("nda stand-in: ") + what);
  }

  template <typename A, typename B> auto promote_f_() {
    using a = std::decay_t<A>;
    using b = std::decay_t<B>;
    if constexpr (is_complex_v<a> || is_complex_v<b>)
      return dcomplex{};
    else if constexpr (std::is_arithmetic_v<a> && std::is_arithmetic_v<b>)
      return std::common_type_t<a, b>{};
    else if constexpr (requires(a x, b y) { x *y; })
      return std::decay_t<decltype(std::declval<a>() * std::declval<b>())>{};
    else
      return a{};
  }
  template <typename A, typename B> using promote_t = decltype(promote_f_<A, B>());
  template <typename To, typename From> To cast_(From const &x) {
    if constexpr (is_complex_v<From> && !is_complex_v<To> && std::is_arithmetic_v<To>)
      return To(x.real());
    else if constexpr (std::is_constructible_v<To, From>)
      return To(x);
    else {
      To t;
      t = x;
      return t;
    }
  }

  // ------------- common interface
  template <typename D, typename T, int R, char Alg> struct arr_ops : arr_base {
    static constexpr int rank     = R;
    static constexpr char algebra = Alg;
    using value_type              = std::remove_const_t<T>;
    using get_value_t             = value_type;
    D &self() { return static_cast<D &>(*this); }
    D const &self() const { return static_cast<D const &>(*this); }

    long extent(int i) const { return self().shape()[i]; }
    long size() const {
      long s = 1;
      for (auto x : self().shape()) s *= x;
      return s;
    }
    bool is_empty() const { return size() == 0; }
    bool empty() const { return is_empty(); }
    auto const &lengths() const { return self().shape(); }
    bool is_contiguous() const { return true; }
    auto const &indexmap() const { return self(); }
    bool is_square() const {
      if constexpr (R == 2)
        return extent(0) == extent(1);
      else
        return false;
    }
  };

  // slicing machinery
  namespace impl_ {
    template <typename X> constexpr bool is_slice = std::is_same_v<std::decay_t<X>, range> || std::is_same_v<std::decay_t<X>, range::all_t>
       || std::is_same_v<std::decay_t<X>, ellipsis> || std::is_same_v<std::decay_t<X>, itertools::range>;
    template <typename X> constexpr bool is_ell = std::is_same_v<std::decay_t<X>, ellipsis>;
    template <typename X> constexpr bool is_int = std::is_integral_v<std::decay_t<X>> || std::is_enum_v<std::decay_t<X>>
       || (!is_slice<X> && std::is_convertible_v<X, long>);
    template <char Alg, int R> constexpr char sub_alg = (R == 2 && Alg == 'M') ? 'M' : (R == 1 && (Alg == 'M' || Alg == 'V')) ? 'V' : 'A';

    template <typename T, int R> struct sl {
      T *p;
      std::array<long, R> sh, st;
    };
    template <int RO, typename T, int R, typename... X>
    void do_slice(sl<T, R> const &in, sl<T, RO> &out, X const &...x) {
      out.p = in.p;
      int d = 0, o = 0;
      constexpr int n_ell = R - int((0 + ... + int(!is_ell<X>)));
      auto one            = [&](auto const &a) {
        using A = std::decay_t<decltype(a)>;
        if constexpr (is_ell<A>) {
          for (int i = 0; i < n_ell; ++i) {
            out.sh[o] = in.sh[d];
            out.st[o] = in.st[d];
            ++o;
            ++d;
          }
        } else if constexpr (std::is_same_v<A, range::all_t>) {
          out.sh[o] = in.sh[d];
          out.st[o] = in.st[d];
          ++o;
          ++d;
        } else if constexpr (std::is_same_v<A, range> || std::is_same_v<A, itertools::range>) {
          long f = a.first(), n = long(a.size());
          if (n > 0) bound_check(f >= 0 && f + (n - 1) * a.step() < in.sh[d] && f + (n - 1) * a.step() >= 0, "range out of bounds");
          if (n > 0) out.p += f * in.st[d];
          out.sh[o] = n;
          out.st[o] = in.st[d] * a.step();
          ++o;
          ++d;
        } else {
          long i = long(a);
          bound_check(i >= 0 && i < in.sh[d], "index out of bounds");
          out.p += i * in.st[d];
          ++d;
        }
      };
      (one(x), ...);
    }
  } // namespace impl_

  // element iterator
  template <typename T, int R> struct elem_iter {
    using value_type        = std::remove_const_t<T>;
    using reference         = T &;
    using pointer           = T *;
    using difference_type   = std::ptrdiff_t;
    using iterator_category = std::forward_iterator_tag;
    T *p = nullptr;
    std::array<long, R> sh{}, st{}, idx{};
    long n = 0, tot = 0;
    T &operator*() const {
      long o = 0;
      for (int i = 0; i < R; ++i) o += idx[i] * st[i];
      return p[o];
    }
    T *operator->() const { return &**this; }
    elem_iter &operator++() {
      ++n;
      for (int i = R - 1; i >= 0; --i) {
        if (++idx[i] < sh[i]) break;
        idx[i] = 0;
      }
      return *this;
    }
    elem_iter operator++(int) {
      auto c = *this;
      ++*this;
      return c;
    }
    elem_iter operator+(long k) const {
      auto c = *this;
      for (; k > 0; --k) ++c;
      return c;
    }
    friend std::ptrdiff_t operator-(elem_iter const &a, elem_iter const &b) { return a.n - b.n; }
    bool operator==(elem_iter const &o) const { return n == o.n; }
  };

  // ------------- mixin for the stored ones
  template <typename D, typename T, int R, char Alg> struct stored : arr_ops<D, T, R, Alg> {
    using base       = arr_ops<D, T, R, Alg>;
    using value_type = std::remove_const_t<T>;
    using base::self;

    template <typename Self> static auto raw_(Self &s) {
      using P = std::remove_pointer_t<decltype(s.data())>;
      return impl_::sl<P, R>{s.data(), s.shape(), s.strides_()};
    }

    template <typename Self, typename... X> static decltype(auto) call_(Self &s, X const &...x) {
      using P = std::remove_pointer_t<decltype(s.data())>;
      if constexpr (sizeof...(X) == 0) {
        return arrv_<P, R, Alg>(s.data(), s.shape(), s.strides_());
      } else if constexpr ((!impl_::is_slice<X> && ...)) {
        static_assert(sizeof...(X) == R, "wrong number of indices");
        long o = 0;
        int d  = 0;
        auto one = [&](long i) {
          bound_check(i >= 0 && i < s.shape()[d], "index out of bounds");
          o += i * s.strides_()[d];
          ++d;
        };
        (one(long(x)), ...);
        return (s.data()[o]);
      } else {
        constexpr bool has_ell = (impl_::is_ell<X> || ...);
        constexpr int nint     = (0 + ... + int(!impl_::is_slice<X>));
        static_assert(has_ell || sizeof...(X) == R, "wrong number of indices");
        constexpr int RO = R - nint;
        if constexpr (RO == 0) {
          impl_::sl<P, 1> o{};
          // only an ellipsis of zero length
          auto in = raw_(s);
          impl_::sl<P, 1> tmp{};
          impl_::do_slice<1>(in, tmp, x...);
          return (*tmp.p);
        } else {
          impl_::sl<P, RO> o;
          impl_::do_slice<RO>(raw_(s), o, x...);
          return arrv_<P, RO, impl_::sub_alg<Alg, RO>>(o.p, o.sh, o.st);
        }
      }
    }
    // slice with a given algebra for the result; a temporary array gives copies
    template <char A, bool SL, typename Self, typename... X> static decltype(auto) call(Self &&s, X const &...x) {
      using R0 = decltype(call_(s, x...));
      constexpr bool tmp = !std::is_reference_v<Self> && !requires { s.rebind(s); };
      if constexpr (std::is_base_of_v<arr_base, std::decay_t<R0>>) {
        auto v = call_(s, x...);
        using V = std::decay_t<decltype(v)>;
        using P = std::remove_pointer_t<decltype(v.data())>;
        arrv_<P, V::rank, A> w(v.data(), v.shape(), v.strides_());
        if constexpr (tmp) return arr_<std::remove_const_t<P>, V::rank, A>(w);
        else return w;
      } else if constexpr (tmp) {
        auto v = call_(s, x...);
        return v;
      } else
        return (call_(s, x...));
    }
    template <typename... X> requires((impl_::is_slice<X> || impl_::is_int<X>) && ...)
    decltype(auto) operator()(X const &...x) { return call_(self(), x...); }
    template <typename... X> requires((impl_::is_slice<X> || impl_::is_int<X>) && ...)
    decltype(auto) operator()(X const &...x) const { return call_(self(), x...); }
    template <typename X> decltype(auto) operator[](X const &x) {
      if constexpr (R == 1)
        return call_(self(), x);
      else
        return call_(self(), x, ellipsis{});
    }
    template <typename X> decltype(auto) operator[](X const &x) const {
      if constexpr (R == 1)
        return call_(self(), x);
      else
        return call_(self(), x, ellipsis{});
    }
    template <typename Self> static auto begin_(Self &s) {
      using P = std::remove_pointer_t<decltype(s.data())>;
      return elem_iter<P, R>{s.data(), s.shape(), s.strides_(), {}, 0, s.size()};
    }
    template <typename Self> static auto end_(Self &s) {
      auto b = begin_(s);
      b.n    = s.size();
      return b;
    }
    auto begin() { return begin_(self()); }
    auto end() { return end_(self()); }
    auto begin() const { return begin_(self()); }
    auto end() const { return end_(self()); }
    auto cbegin() const { return begin_(self()); }
    auto cend() const { return end_(self()); }

    arr_<value_type, R, Alg> shim_regular() const { return arr_<value_type, R, Alg>(self()); }

    // compound
    template <typename X> D &operator+=(X const &x) {
      if constexpr (ShimArr<X>)
        zip_(x, [](auto &a, auto const &b) { a += b; });
      else if constexpr (Alg == 'M') {
        for (long i = 0; i < std::min(self().extent(0), self().extent(1)); ++i) self()(i, i) += x;
      } else
        for (auto &a : self()) a += x;
      return self();
    }
    template <typename X> D &operator-=(X const &x) {
      if constexpr (ShimArr<X>)
        zip_(x, [](auto &a, auto const &b) { a -= b; });
      else if constexpr (Alg == 'M') {
        for (long i = 0; i < std::min(self().extent(0), self().extent(1)); ++i) self()(i, i) -= x;
      } else
        for (auto &a : self()) a -= x;
      return self();
    }
    template <typename X> D &operator*=(X const &x) {
      if constexpr (ShimArr<X>) {
        if constexpr (Alg == 'M')
          self() = self() * x;
        else
          zip_(x, [](auto &a, auto const &b) { a *= b; });
      } else
        for (auto &a : self()) a *= x;
      return self();
    }
    template <typename X> D &operator/=(X const &x) {
      if constexpr (ShimArr<X>) {
        if constexpr (Alg == 'M')
          self() = self() / x;
        else
          zip_(x, [](auto &a, auto const &b) { a /= b; });
      } else
        for (auto &a : self()) a /= x;
      return self();
    }
    template <typename X, typename F> void zip_(X const &x, F f) {
      bound_check(std::equal(x.shape().begin(), x.shape().end(), self().shape().begin(), self().shape().end()), "shape mismatch");
      arr_<typename std::decay_t<X>::value_type, std::decay_t<X>::rank, 'A'> tmp(x); // aliasing
      auto it = tmp.begin();
      for (auto &a : self()) {
        f(a, *it);
        ++it;
      }
    }
  };

  // ------------- view
  template <typename T, int R, char Alg> class arrv_ : public stored<arrv_<T, R, Alg>, T, R, Alg> {
    T *p_ = nullptr;
    std::array<long, R> sh_{}, st_{};

    public:
    using base         = stored<arrv_<T, R, Alg>, T, R, Alg>;
    using value_type   = std::remove_const_t<T>;
    using regular_type = arr_<value_type, R, Alg>;
    using base::operator();
    arrv_() = default;
    arrv_(T *p, std::array<long, R> sh, std::array<long, R> st) : p_(p), sh_(sh), st_(st) {}
    arrv_(std::array<long, R> sh, T *p) : p_(p), sh_(sh) {
      long s = 1;
      for (int i = R - 1; i >= 0; --i) {
        st_[i] = s;
        s *= sh[i];
      }
    }
    arrv_(arrv_ const &) = default;
    template <typename A> requires(ShimArr<A> && std::decay_t<A>::rank == R && std::is_convertible_v<decltype(std::declval<A &>().data()), T *>)
    arrv_(A &&a) : p_(a.data()), sh_(a.shape()), st_(a.strides_()) {}
    template <size_t N> requires(R == 1 && std::is_const_v<T>) arrv_(std::array<value_type, N> const &a) : p_(a.data()), sh_{long(N)}, st_{1} {}
    template <size_t N> requires(R == 1 && !std::is_const_v<T>) arrv_(std::array<value_type, N> &a) : p_(a.data()), sh_{long(N)}, st_{1} {}
    arrv_(std::vector<value_type> const &v) requires(R == 1 && std::is_const_v<T>) : p_(v.data()), sh_{long(v.size())}, st_{1} {}

    // data() is const-propagation free, as for a pointer
    T *data() const { return p_; }
    std::array<long, R> const &shape() const { return sh_; }
    long shape(int i) const { return sh_[i]; }
    std::array<long, R> const &strides_() const { return st_; }
    std::array<long, R> const &strides() const { return st_; }
    void rebind(arrv_ v) {
      p_  = v.p_;
      sh_ = v.sh_;
      st_ = v.st_;
    }

    arrv_ &operator=(arrv_ const &o) {
      assign_(o);
      return *this;
    }
    template <typename X> arrv_ &operator=(X const &x) requires(!std::is_const_v<T>) {
      if constexpr (ShimArr<X> || requires { x.size(); x.begin(); })
        assign_(x);
      else
        fill_(x);
      return *this;
    }
    template <typename F> void for_each_(F f) {
      for (auto &a : *this) f(a);
    }

    private:
    template <typename X> void assign_(X const &x) {
      if constexpr (ShimArr<X>) {
        bound_check(std::equal(x.shape().begin(), x.shape().end(), sh_.begin(), sh_.end()), "shape mismatch in view assignment");
        std::vector<typename std::decay_t<X>::value_type> tmp(x.begin(), x.end());
        auto it = tmp.begin();
        for (auto &a : *this) a = cast_<std::remove_const_t<T>>(*(it++));
      } else {
        bound_check(long(x.size()) == this->size(), "shape mismatch in view assignment");
        auto it = x.begin();
        for (auto &a : *this) a = cast_<std::remove_const_t<T>>(*(it++));
      }
    }
    template <typename X> void fill_(X const &x) {
      if constexpr (Alg == 'M') {
        for (auto &a : *this) a = T{};
        for (long i = 0; i < std::min(sh_[0], sh_[1]); ++i) (*this)(i, i) = cast_<T>(x);
      } else
        for (auto &a : *this) a = cast_<T>(x);
    }
  };

  // ------------- owning
  template <typename T, int R, char Alg> class arr_ : public stored<arr_<T, R, Alg>, T, R, Alg> {
    std::unique_ptr<T[]> buf_;
    long cap_ = 0;
    std::array<long, R> sh_{}, st_{};
    void set_shape_(std::array<long, R> sh) {
      sh_    = sh;
      long s = 1;
      for (int i = R - 1; i >= 0; --i) {
        bound_check(sh[i] >= 0, "negative extent");
        st_[i] = s;
        s *= sh[i];
      }
      buf_ = std::make_unique<T[]>(s > 0 ? s : 1);
      cap_ = s;
    }

    public:
    using base         = stored<arr_<T, R, Alg>, T, R, Alg>;
    using value_type   = T;
    using regular_type = arr_;
    using view_type    = arrv_<T, R, Alg>;
    using base::operator();
    auto as_array_view() { return arrv_<T, R, 'A'>(buf_.get(), sh_, st_); }
    auto as_array_view() const { return arrv_<T const, R, 'A'>(buf_.get(), sh_, st_); }
    arr_() { set_shape_({}); }
    template <typename... I> requires(sizeof...(I) == R && (std::is_integral_v<std::decay_t<I>> && ...)) explicit arr_(I... i) {
      set_shape_({long(i)...});
    }
    explicit arr_(std::array<long, R> sh) { set_shape_(sh); }
    template <typename I> requires(std::is_integral_v<I> && !std::is_same_v<I, long>) explicit arr_(std::array<I, R> sh) {
      std::array<long, R> s;
      for (int i = 0; i < R; ++i) s[i] = sh[i];
      set_shape_(s);
    }
    arr_(arr_ const &o) : cap_(0) {
      set_shape_(o.sh_);
      std::copy(o.buf_.get(), o.buf_.get() + o.size(), buf_.get());
    }
    arr_(arr_ &&o) noexcept : buf_(std::move(o.buf_)), cap_(o.cap_), sh_(o.sh_), st_(o.st_) { o.set_shape_({}); }
    template <typename A> requires(ShimArr<A> && std::decay_t<A>::rank == R && !std::is_same_v<std::decay_t<A>, arr_>)
    arr_(A const &a) {
      set_shape_(a.shape());
      auto it = a.begin();
      for (auto &x : *this) x = cast_<T>(*(it++));
    }
    arr_(std::initializer_list<T> l) requires(R == 1) {
      set_shape_({long(l.size())});
      std::copy(l.begin(), l.end(), buf_.get());
    }
    arr_(std::initializer_list<std::initializer_list<T>> l) requires(R == 2) {
      set_shape_({long(l.size()), l.size() ? long(l.begin()->size()) : 0});
      auto *p = buf_.get();
      for (auto &r : l) {
        bound_check(long(r.size()) == sh_[1], "ragged initializer list");
        p = std::copy(r.begin(), r.end(), p);
      }
    }
    arr_(std::initializer_list<std::initializer_list<std::initializer_list<T>>> l) requires(R == 3) {
      set_shape_({long(l.size()), long(l.begin()->size()), long(l.begin()->begin()->size())});
      auto *p = buf_.get();
      for (auto &r : l)
        for (auto &s : r) p = std::copy(s.begin(), s.end(), p);
    }
    arr_(std::vector<T> const &v) requires(R == 1) {
      set_shape_({long(v.size())});
      std::copy(v.begin(), v.end(), buf_.get());
    }
    template <size_t N> arr_(std::array<T, N> const &v) requires(R == 1 && !(N == 1 && std::is_same_v<T, long>)) {
      set_shape_({long(N)});
      std::copy(v.begin(), v.end(), buf_.get());
    }
    template <size_t N, size_t M> arr_(std::array<std::array<T, M>, N> const &v) requires(R == 2) {
      set_shape_({long(N), long(M)});
      for (size_t i = 0; i < N; ++i)
        for (size_t j = 0; j < M; ++j) buf_[i * M + j] = v[i][j];
    }

    static arr_ zeros(std::array<long, R> sh) {
      arr_ a(sh);
      for (auto &x : a) x = T{};
      return a;
    }
    template <typename... I> requires(std::is_integral_v<I> && ...) static arr_ zeros(I... i) {
      return zeros(std::array<long, R>{long(i)...});
    }
    template <typename... I> requires(std::is_integral_v<I> && ...) static arr_ ones(I... i) {
      auto a = zeros(i...);
      for (auto &x : a) x = T(1);
      return a;
    }

    T *data() { return buf_.get(); }
    T const *data() const { return buf_.get(); }
    std::array<long, R> const &shape() const { return sh_; }
    long shape(int i) const { return sh_[i]; }
    std::array<long, R> const &strides_() const { return st_; }
    std::array<long, R> const &strides() const { return st_; }

    // resize: nda does not preserve the content
    template <typename... I> requires(sizeof...(I) == R) void resize(I... i) { resize(std::array<long, R>{long(i)...}); }
    void resize(std::array<long, R> sh) {
      if (sh == sh_) return;
      set_shape_(sh);
      // make reads of elements which have not been written visible
      if constexpr (std::is_floating_point_v<T>)
        for (long i = 0; i < cap_; ++i) buf_[i] = T(-7.25e11);
    }
    arr_ &operator=(arr_ const &o) {
      if (this != &o) {
        if (sh_ != o.sh_) set_shape_(o.sh_);
        std::copy(o.buf_.get(), o.buf_.get() + o.size(), buf_.get());
      }
      return *this;
    }
    arr_ &operator=(arr_ &&o) noexcept {
      buf_ = std::move(o.buf_); // as in nda, an array moved onto itself is lost
      cap_ = o.cap_;
      sh_  = o.sh_;
      st_  = o.st_;
      o.set_shape_({});
      return *this;
    }
    template <typename X> arr_ &operator=(X const &x) {
      if constexpr (ShimArr<X>) {
        arr_ tmp(x);
        *this = std::move(tmp);
      } else if constexpr (requires { x.size(); x.begin(); }) {
        std::array<long, R> s{long(x.size())};
        if (sh_ != s) set_shape_(s);
        auto it = x.begin();
        for (auto &a : *this) a = cast_<T>(*(it++));
      } else if constexpr (Alg == 'M') {
        for (auto &a : *this) a = T{};
        for (long i = 0; i < std::min(sh_[0], sh_[1]); ++i) (*this)(i, i) = cast_<T>(x);
      } else
        for (auto &a : *this) a = cast_<T>(x);
      return *this;
    }
    friend void swap(arr_ &a, arr_ &b) noexcept {
      std::swap(a.buf_, b.buf_);
      std::swap(a.cap_, b.cap_);
      std::swap(a.sh_, b.sh_);
      std::swap(a.st_, b.st_);
    }
    friend void deep_swap(arr_ &a, arr_ &b) { swap(a, b); }
  };

  template <typename T, int N> class stack_vector : public arr_<T, 1, 'V'> {
    public:
    using base = arr_<T, 1, 'V'>;
    using base::base;
    using base::operator=;
    stack_vector() : base(std::array<long, 1>{N}) {}
  };
  template <typename T, int N, int M> class stack_matrix : public arr_<T, 2, 'M'> {
    public:
    using base = arr_<T, 2, 'M'>;
    using base::base;
    using base::operator=;
    stack_matrix() : base(std::array<long, 2>{N, M}) {}
  };
  template <typename T, int N> struct stack_array_1_ : arr_<T, 1, 'A'> {
    using arr_<T, 1, 'A'>::arr_;
  };

  // deduction helpers
  template <typename T, size_t N> arrv_(std::array<T, N> const &) -> arrv_<T const, 1, 'V'>;
  template <typename T, size_t N> arrv_(std::array<T, N> &) -> arrv_<T, 1, 'V'>;
  template <typename T> arrv_(std::vector<T> const &) -> arrv_<T const, 1, 'V'>;
  template <typename A> requires(ShimArr<A>)
  arrv_(A &&a) -> arrv_<std::remove_pointer_t<decltype(a.data())>, std::decay_t<A>::rank, std::decay_t<A>::algebra>;
  template <typename A> auto make_regular(A const &a) {
    if constexpr (ShimArr<A>)
      return arr_<typename A::value_type, A::rank, A::algebra>(a);
    else
      return a;
  }
  template <typename A> using get_regular_t = decltype(make_regular(std::declval<std::decay_t<A>>()));
  template <typename A> inline constexpr bool is_regular_or_view_v = ShimArr<A>;
  template <typename A> inline constexpr bool is_view_v            = false;
  template <typename T, int R, char A> inline constexpr bool is_view_v<arrv_<T, R, A>> = true;
  template <typename A> inline constexpr bool is_regular_v         = ShimArr<A> && !is_view_v<std::decay_t<A>>;
  template <typename A> using regular_t = get_regular_t<A>;
  template <typename A> using get_view_t = arrv_<typename std::decay_t<A>::value_type, get_rank<A>, get_algebra<A>>;
  template <typename A> inline constexpr bool is_instantiation_of_array_v = ShimArr<A>;

  template <typename T, int R, char Alg> arrv_<T const, R, Alg> make_const_view(arr_<T, R, Alg> const &a) { return a; }
  template <typename T, int R, char Alg> arrv_<T const, R, Alg> make_const_view(arrv_<T, R, Alg> const &a) { return a; }
  template <typename A> auto make_matrix_view(A &&a) {
    using P = std::remove_pointer_t<decltype(a.data())>;
    return arrv_<P, 2, 'M'>(a.data(), a.shape(), a.strides_());
  }
  template <typename A> auto make_array_view(A &&a) {
    using P = std::remove_pointer_t<decltype(a.data())>;
    return arrv_<P, get_rank<A>, 'A'>(a.data(), a.shape(), a.strides_());
  }
  template <typename T> vector_const_view<T> make_vector_view_(std::vector<T> const &v) { return v; }

  // ------------- printing
  template <ShimArr A> std::ostream &operator<<(std::ostream &os, A const &a) {
    os << "[";
    bool f = true;
    for (auto const &x : a) {
      if (!f) os << ",";
      f = false;
      os << x;
    }
    return os << "]";
  }

  // ------------- elementwise helpers
  template <char Alg, ShimArr A, typename F> auto map_(A const &a, F f) {
    using V = std::decay_t<decltype(f(*a.begin()))>;
    arr_<V, A::rank, Alg> r(a.shape());
    auto it = a.begin();
    for (auto &x : r) x = f(*(it++));
    return r;
  }
  template <char Alg, ShimArr A, ShimArr B, typename F> auto zip2_(A const &a, B const &b, F f) {
    bound_check(a.shape() == b.shape(), "shape mismatch in binary operation");
    using V = std::decay_t<decltype(f(*a.begin(), *b.begin()))>;
    arr_<V, A::rank, Alg> r(a.shape());
    auto it = a.begin();
    auto jt = b.begin();
    for (auto &x : r) x = f(*(it++), *(jt++));
    return r;
  }
  template <typename A, typename B> auto mul_(A const &a, B const &b) {
    if constexpr (is_scalar_v<A> && is_scalar_v<B>)
      return promote_t<A, B>(a) * promote_t<A, B>(b);
    else
      return a * b;
  }
  template <typename A, typename B> auto div_(A const &a, B const &b) {
    if constexpr (is_scalar_v<A> && is_scalar_v<B>)
      return promote_t<A, B>(a) / promote_t<A, B>(b);
    else
      return a / b;
  }
  template <typename A, typename B> auto add_(A const &a, B const &b) {
    if constexpr (is_scalar_v<A> && is_scalar_v<B>)
      return promote_t<A, B>(a) + promote_t<A, B>(b);
    else
      return a + b;
  }
  template <typename A, typename B> auto sub_(A const &a, B const &b) {
    if constexpr (is_scalar_v<A> && is_scalar_v<B>)
      return promote_t<A, B>(a) - promote_t<A, B>(b);
    else
      return a - b;
  }

  template <ShimArr A> auto operator-(A const &a) {
    return map_<A::algebra>(a, [](auto const &x) { return std::decay_t<decltype(x)>(-x); });
  }
  template <ShimArr A, ShimArr B> auto operator+(A const &a, B const &b) {
    return zip2_<A::algebra>(a, b, [](auto const &x, auto const &y) { return add_(x, y); });
  }
  template <ShimArr A, ShimArr B> auto operator-(A const &a, B const &b) {
    return zip2_<A::algebra>(a, b, [](auto const &x, auto const &y) { return sub_(x, y); });
  }
  template <typename S>
  concept ScalarLike_ = !ShimArr<S> && (is_scalar_v<S> || std::is_convertible_v<S, double> || std::is_convertible_v<S, dcomplex>);
  template <ScalarLike_ S> auto sc_(S const &s) {
    if constexpr (is_scalar_v<S>)
      return s;
    else if constexpr (std::is_convertible_v<S, double>)
      return double(s);
    else
      return dcomplex(s);
  }

  template <ShimArr A, ScalarLike_ S> auto operator+(A const &a, S const &s) {
    auto c = sc_(s);
    if constexpr (A::algebra == 'M') {
      arr_<promote_t<typename A::value_type, decltype(c)>, 2, 'M'> r(a);
      for (long i = 0; i < std::min(r.extent(0), r.extent(1)); ++i) r(i, i) += c;
      return r;
    } else
      return map_<A::algebra>(a, [&](auto const &x) { return add_(x, c); });
  }
  template <ShimArr A, ScalarLike_ S> auto operator+(S const &s, A const &a) { return a + s; }
  template <ShimArr A, ScalarLike_ S> auto operator-(A const &a, S const &s) { return a + (-sc_(s)); }
  template <ShimArr A, ScalarLike_ S> auto operator-(S const &s, A const &a) { return (-a) + s; }
  template <ShimArr A, ScalarLike_ S> auto operator*(A const &a, S const &s) {
    return map_<A::algebra>(a, [c = sc_(s)](auto const &x) { return mul_(x, c); });
  }
  template <ShimArr A, ScalarLike_ S> auto operator*(S const &s, A const &a) {
    return map_<A::algebra>(a, [c = sc_(s)](auto const &x) { return mul_(c, x); });
  }
  template <ShimArr A, ScalarLike_ S> auto operator/(A const &a, S const &s) {
    return map_<A::algebra>(a, [c = sc_(s)](auto const &x) { return div_(x, c); });
  }

  template <ShimArr A> auto inverse(A const &a);

  template <ShimArr A, ShimArr B> auto matmul_(A const &a, B const &b) {
    using V = promote_t<typename A::value_type, typename B::value_type>;
    bound_check(a.extent(1) == b.extent(0), "matrix product: dimension mismatch");
    arr_<V, 2, 'M'> r(a.extent(0), b.extent(1));
    for (long i = 0; i < a.extent(0); ++i)
      for (long j = 0; j < b.extent(1); ++j) {
        V s = 0;
        for (long k = 0; k < a.extent(1); ++k) s += mul_(a(i, k), b(k, j));
        r(i, j) = s;
      }
    return r;
  }
  template <ShimArr A, ShimArr B> auto matvec_(A const &a, B const &b) {
    using V = promote_t<typename A::value_type, typename B::value_type>;
    bound_check(a.extent(1) == b.extent(0), "matrix vector product: dimension mismatch");
    arr_<V, 1, 'V'> r(a.extent(0));
    for (long i = 0; i < a.extent(0); ++i) {
      V s = 0;
      for (long k = 0; k < a.extent(1); ++k) s += mul_(a(i, k), b(k));
      r(i) = s;
    }
    return r;
  }
  template <ShimArr A, ShimArr B> auto operator*(A const &a, B const &b) {
    if constexpr (A::algebra == 'M' && B::rank == 2)
      return matmul_(a, b);
    else if constexpr (A::algebra == 'M' && B::rank == 1)
      return matvec_(a, b);
    else
      return zip2_<A::algebra>(a, b, [](auto const &x, auto const &y) { return mul_(x, y); });
  }
  template <ShimArr A, ShimArr B> auto operator/(A const &a, B const &b) {
    if constexpr (A::algebra == 'M' && B::rank == 2)
      return matmul_(a, inverse(b));
    else
      return zip2_<A::algebra>(a, b, [](auto const &x, auto const &y) { return div_(x, y); });
  }
  template <ShimArr A, ScalarLike_ S> auto operator/(S const &s, A const &a) {
    if constexpr (A::algebra == 'M')
      return s * inverse(a);
    else
      return map_<A::algebra>(a, [c = sc_(s)](auto const &x) { return div_(c, x); });
  }
  template <ShimArr A, ShimArr B> bool operator==(A const &a, B const &b) {
    if (!std::equal(a.shape().begin(), a.shape().end(), b.shape().begin(), b.shape().end())) return false;
    auto jt = b.begin();
    for (auto const &x : a)
      if (!(x == *(jt++))) return false;
    return true;
  }

  // ------------- mathematical functions
#define NDA_SHIM_FN(NAME)                                                                                                                            \
  template <ShimArr A> auto NAME(A const &a) {                                                                                                       \
    return map_<A::algebra>(a, [](auto const &x) {                                                                                                   \
      using std::NAME;                                                                                                                               \
      return NAME(x);                                                                                                                                \
    });                                                                                                                                              \
  }
  NDA_SHIM_FN(abs)
  NDA_SHIM_FN(real)
  NDA_SHIM_FN(imag)
  NDA_SHIM_FN(sqrt)
  NDA_SHIM_FN(exp)
  NDA_SHIM_FN(log)
  NDA_SHIM_FN(sin)
  NDA_SHIM_FN(cos)
  NDA_SHIM_FN(floor)
  NDA_SHIM_FN(isnan)
  inline double conj(double x) { return x; }
  inline long conj(long x) { return x; }
  inline int conj(int x) { return x; }
  inline dcomplex conj(dcomplex x) { return std::conj(x); }
  using std::abs;
  using std::exp;
  using std::floor;
  using std::imag;
  using std::real;
  using std::sqrt;
  template <ShimArr A> auto conj(A const &a) {
    return map_<A::algebra>(a, [](auto const &x) { return nda::conj(x); });
  }
  template <ShimArr A> auto conj_r(A const &a) {
    return map_<A::algebra>(a, [](auto const &x) { return nda::conj(x); });
  }
  template <ShimArr A, typename P> auto pow(A const &a, P p) {
    return map_<A::algebra>(a, [p](auto const &x) { return std::pow(x, p); });
  }
  inline double abs2(double x) { return x * x; }
  inline double abs2(std::complex<double> x) { return std::norm(x); }
  template <ShimArr A> auto abs2(A const &a) {
    return map_<A::algebra>(a, [](auto const &x) { return std::norm(x); });
  }
  template <typename F> auto map(F f) {
    return [f](auto const &...a) {
      if constexpr (sizeof...(a) == 1)
        return map_<std::decay_t<decltype((a, ...))>::algebra>(a..., f);
      else
        return zip2_<'A'>(a..., f);
    };
  }

  // ------------- algorithms
  template <ShimArr A> auto sum(A const &a) {
    typename A::value_type s{};
    for (auto const &x : a) s += x;
    return s;
  }
  template <ShimArr A> auto product(A const &a) {
    typename A::value_type s{1};
    for (auto const &x : a) s *= x;
    return s;
  }
  template <ShimArr A> auto max_element(A const &a) { return *std::max_element(a.begin(), a.end()); }
  template <ShimArr A> auto min_element(A const &a) { return *std::min_element(a.begin(), a.end()); }
  template <typename F, ShimArr A, typename R> auto fold(F f, A const &a, R r) {
    for (auto const &x : a) r = f(r, x);
    return r;
  }
  template <ShimArr A> bool any(A const &a) {
    for (auto const &x : a)
      if (x) return true;
    return false;
  }
  template <ShimArr A> bool all(A const &a) {
    for (auto const &x : a)
      if (!x) return false;
    return true;
  }
  template <ShimArr A> double frobenius_norm(A const &a) {
    double s = 0;
    for (auto const &x : a) s += std::norm(x);
    return std::sqrt(s);
  }
  template <ShimArr A> double norm(A const &a, double p = 2.0) {
    if (p == 2.0) return frobenius_norm(a);
    double s = 0;
    for (auto const &x : a) s += std::pow(std::abs(x), p);
    return std::pow(s, 1 / p);
  }
  template <ShimArr A> long first_dim(A const &a) { return a.extent(0); }
  template <ShimArr A> long second_dim(A const &a) { return a.extent(1); }
  template <ShimArr A> long third_dim(A const &a) { return a.extent(2); }
  template <typename F, size_t N> void for_each(std::array<long, N> const &sh, F &&f) {
    std::array<long, N> i{};
    long n = 1;
    for (auto s : sh) n *= s;
    for (long c = 0; c < n; ++c) {
      std::apply(f, i);
      for (int d = N - 1; d >= 0; --d) {
        if (++i[d] < sh[d]) break;
        i[d] = 0;
      }
    }
  }
  template <typename T> auto zeros(auto... i) requires(std::is_integral_v<decltype(i)> && ...) { return array<T, sizeof...(i)>::zeros(i...); }
  template <typename T, size_t N> auto zeros(std::array<long, N> const &s) { return array<T, N>::zeros(s); }
  template <typename T, size_t N> auto zeros(std::array<int, N> const &s) {
    std::array<long, N> l;
    for (size_t i = 0; i < N; ++i) l[i] = s[i];
    return array<T, N>::zeros(l);
  }
  template <typename T> auto ones(auto... i) requires(std::is_integral_v<decltype(i)> && ...) {
    auto a = array<T, sizeof...(i)>::zeros(i...);
    for (auto &x : a) x = T(1);
    return a;
  }
  template <typename T> auto rand(auto... i) {
    static std::mt19937 g(0);
    auto a = array<T, sizeof...(i)>::zeros(i...);
    for (auto &x : a) x = T(std::uniform_real_distribution<double>()(g));
    return a;
  }
  template <std::integral I = long> auto arange(long a, long b, long s = 1) {
    range r(a, b, s);
    array<I, 1> x(long(r.size()));
    long n = 0;
    for (auto i : r) x(n++) = i;
    return x;
  }
  inline auto arange(long b) { return arange<long>(0, b); }
  template <typename T = double> matrix<T> eye(long n) {
    auto m = matrix<T>::zeros(n, n);
    for (long i = 0; i < n; ++i) m(i, i) = T(1);
    return m;
  }
  template <ShimArr A> auto transpose(A const &a) {
    using P = std::remove_pointer_t<decltype(a.data())>;
    auto sh = a.shape(), st = a.strides_();
    std::reverse(sh.begin(), sh.end());
    std::reverse(st.begin(), st.end());
    return arrv_<P, A::rank, A::algebra>(a.data(), sh, st);
  }
  template <ShimArr A> auto dagger(A const &a) { return conj(transpose(a)); }
  template <ShimArr A> auto trace(A const &a) {
    typename A::value_type s{};
    for (long i = 0; i < a.extent(0); ++i) s += a(i, i);
    return s;
  }
  template <ShimArr A> auto diagonal(A &&a) {
    using P = std::remove_pointer_t<decltype(a.data())>;
    return arrv_<P, 1, 'V'>(a.data(), {std::min(a.extent(0), a.extent(1))}, {a.strides_()[0] + a.strides_()[1]});
  }
  template <ShimArr A> bool is_matrix_square(A const &a);
  template <ShimArr A> bool is_matrix_diagonal(A const &a, bool = false) {
    if (!is_matrix_square(a)) return false;
    for (long i = 0; i < a.shape()[0]; ++i)
      for (long j = 0; j < a.shape()[1]; ++j)
        if (i != j && std::abs(a(i, j)) > 1e-12) return false;
    return true;
  }
  template <typename V> auto diag(V const &v) {
    using T = std::decay_t<decltype(*v.begin())>;
    auto m  = matrix<T>::zeros(long(v.size()), long(v.size()));
    long i  = 0;
    for (auto const &x : v) {
      m(i, i) = x;
      ++i;
    }
    return m;
  }
  template <ShimArr A> bool is_matrix_square(A const &a) { return a.extent(0) == a.extent(1); }
  template <ShimArr A, size_t N> auto reshape(A &&a, std::array<long, N> sh) {
    if constexpr (std::is_lvalue_reference_v<A>) {
      using P = std::remove_pointer_t<decltype(a.data())>;
      return arrv_<P, N, get_algebra<A> == 'M' && N == 2 ? 'M' : 'A'>(sh, a.data());
    } else {
      array<get_value_t<A>, N> r(sh);
      std::copy(a.begin(), a.end(), r.begin());
      return r;
    }
  }
  template <ShimArr A> auto flatten(A const &a) {
    array<typename A::value_type, 1> r(a.size());
    std::copy(a.begin(), a.end(), r.begin());
    return r;
  }
  template <ShimArr A, ShimArr B> auto concatenate_(A const &a, B const &b);

  template <ShimArr A, ShimArr B> auto dot(A const &a, B const &b) {
    promote_t<typename A::value_type, typename B::value_type> s = 0;
    bound_check(a.size() == b.size(), "dot: size mismatch");
    auto j = b.begin();
    for (auto const &x : a) s += mul_(x, *(j++));
    return s;
  }
  template <ShimArr A, ShimArr B> auto dotc(A const &a, B const &b) { return dot(conj(a), b); }

  // ------------- linear algebra
  template <ShimArr A> auto determinant(A const &a) {
    using T = std::conditional_t<is_complex_v<typename A::value_type>, dcomplex, double>;
    bound_check(a.extent(0) == a.extent(1), "determinant of a non square matrix");
    long n = a.extent(0);
    std::vector<T> m(a.begin(), a.end());
    T d = 1;
    for (long c = 0; c < n; ++c) {
      long p = c;
      for (long r = c + 1; r < n; ++r)
        if (std::abs(m[r * n + c]) > std::abs(m[p * n + c])) p = r;
      if (std::abs(m[p * n + c]) == 0) return T(0);
      if (p != c) {
        for (long k = 0; k < n; ++k) std::swap(m[p * n + k], m[c * n + k]);
        d = -d;
      }
      d *= m[c * n + c];
      for (long r = c + 1; r < n; ++r) {
        T f = m[r * n + c] / m[c * n + c];
        if (f != T(0))
          for (long k = c; k < n; ++k) m[r * n + k] -= f * m[c * n + k];
      }
    }
    return d;
  }
  template <ShimArr A> auto determinant_in_place(A const &a) { return determinant(a); }
  template <ShimArr A> auto inverse(A const &a) {
    using T = std::conditional_t<is_complex_v<typename A::value_type>, dcomplex, double>;
    bound_check(a.extent(0) == a.extent(1), "inverse of a non square matrix");
    long n = a.extent(0);
    std::vector<T> m(a.begin(), a.end());
    matrix<T> r = eye<T>(n);
    for (long c = 0; c < n; ++c) {
      long p = c;
      for (long i = c + 1; i < n; ++i)
        if (std::abs(m[i * n + c]) > std::abs(m[p * n + c])) p = i;
      if (std::abs(m[p * n + c]) == 0) throw runtime_error("inverse: matrix is not invertible");
      if (p != c)
        for (long k = 0; k < n; ++k) {
          std::swap(m[p * n + k], m[c * n + k]);
          std::swap(r(p, k), r(c, k));
        }
      T f = T(1) / m[c * n + c];
      for (long k = 0; k < n; ++k) {
        m[c * n + k] *= f;
        r(c, k) *= f;
      }
      for (long i = 0; i < n; ++i)
        if (i != c) {
          T g = m[i * n + c];
          if (g != T(0))
            for (long k = 0; k < n; ++k) {
              m[i * n + k] -= g * m[c * n + k];
              r(i, k) -= g * r(c, k);
            }
        }
    }
    return r;
  }
  template <ShimArr A> void inverse_in_place(A &&a) { a = inverse(a); }

  // exchanges the elements of two views
  template <ShimArr A, ShimArr B> void deep_swap(A a, B b) {
    bound_check(a.shape() == b.shape(), "deep_swap: shape");
    auto t = make_regular(a);
    a      = b;
    b      = t;
  }

  namespace blas {
    using nda::dot;
    using nda::dotc;
    template <typename A, typename B> auto dot_generic(A const &a, B const &b) { return nda::dot(a, b); }
    template <typename A, typename B> auto dotc_generic(A const &a, B const &b) { return nda::dotc(a, b); }
    template <typename S, typename A, typename B, typename S2, typename C> void gemm(S alpha, A const &a, B const &b, S2 beta, C &&c) {
      auto p = nda::matmul_(a, b);
      bound_check(c.shape() == p.shape(), "gemm: shape");
      for (long i = 0; i < p.extent(0); ++i)
        for (long j = 0; j < p.extent(1); ++j) c(i, j) = alpha * p(i, j) + (beta == S2(0) ? get_value_t<C>(0) : beta * c(i, j));
    }
    template <typename S, typename A, typename B, typename S2, typename C> void gemv(S alpha, A const &a, B const &b, S2 beta, C &&c) {
      auto p = nda::matvec_(a, b);
      bound_check(c.extent(0) == p.extent(0), "gemv: shape");
      for (long i = 0; i < p.extent(0); ++i) c(i) = alpha * p(i) + (beta == S2(0) ? get_value_t<C>(0) : beta * c(i));
    }
    template <typename S, typename X, typename Y, typename M> void ger(S alpha, X const &x, Y const &y, M &&m) {
      bound_check(m.extent(0) == x.extent(0) && m.extent(1) == y.extent(0), "ger: shape");
      for (long i = 0; i < m.extent(0); ++i)
        for (long j = 0; j < m.extent(1); ++j) m(i, j) += alpha * x(i) * y(j);
    }
    template <typename S, typename X> void scal(S a, X &&x) {
      for (auto &e : x) e *= a;
    }
    template <typename X, typename Y> void swap(X &&x, Y &&y) {
      bound_check(x.size() == y.size(), "swap: shape");
      for (long i = 0; i < x.size(); ++i) std::swap(x(i), y(i));
    }
    template <typename X, typename Y> auto outer_product(X const &x, Y const &y) {
      constexpr int RX = get_rank<X>, RY = get_rank<Y>;
      std::array<long, RX + RY> sh;
      for (int i = 0; i < RX; ++i) sh[i] = x.extent(i);
      for (int i = 0; i < RY; ++i) sh[RX + i] = y.extent(i);
      array<promote_t<get_value_t<X>, get_value_t<Y>>, RX + RY> r(sh);
      auto it = r.begin();
      for (auto const &a : x)
        for (auto const &b : y) *(it++) = mul_(a, b);
      return r;
    }
  } // namespace blas
  namespace lapack {}

  namespace linalg {
    using nda::norm;
    // Jacobi eigenvalue algorithm for hermitian matrices; ascending eigenvalues, columns are eigenvectors
    template <ShimArr A> auto eigenelements(A const &a) {
      using V = typename A::value_type;
      using T = std::conditional_t<is_complex_v<V>, dcomplex, double>;
      long n  = a.extent(0);
      matrix<T> m(a), u = eye<T>(n);
      for (int sweep = 0; sweep < 100; ++sweep) {
        double off = 0;
        for (long i = 0; i < n; ++i)
          for (long j = 0; j < i; ++j) off += std::norm(m(i, j));
        if (off < 1e-30) break;
        for (long p = 0; p < n; ++p)
          for (long q = p + 1; q < n; ++q) {
            double apq = std::abs(m(p, q));
            if (apq < 1e-300) continue;
            T ph       = m(p, q) / apq;
            double app = std::real(m(p, p)), aqq = std::real(m(q, q));
            double th  = 0.5 * std::atan2(2 * apq, aqq - app);
            double c = std::cos(th), s = std::sin(th);
            // rotation: col p' = c*p - s*conj(ph)*q ; col q' = s*ph*p + c*q
            for (long k = 0; k < n; ++k) {
              T x = m(k, p), y = m(k, q);
              m(k, p) = c * x - s * nda::conj(ph) * y;
              m(k, q) = s * ph * x + c * y;
              T ux = u(k, p), uy = u(k, q);
              u(k, p) = c * ux - s * nda::conj(ph) * uy;
              u(k, q) = s * ph * ux + c * uy;
            }
            for (long k = 0; k < n; ++k) {
              T x = m(p, k), y = m(q, k);
              m(p, k) = c * x - s * ph * y;
              m(q, k) = s * nda::conj(ph) * x + c * y;
            }
          }
      }
      std::vector<long> ix(n);
      std::iota(ix.begin(), ix.end(), 0);
      std::stable_sort(ix.begin(), ix.end(), [&](long i, long j) { return std::real(m(i, i)) < std::real(m(j, j)); });
      array<double, 1> ev(n);
      matrix<T> vec(n, n);
      for (long i = 0; i < n; ++i) {
        ev(i) = std::real(m(ix[i], ix[i]));
        for (long k = 0; k < n; ++k) vec(k, i) = u(k, ix[i]);
      }
      return std::pair{ev, vec};
    }
    template <ShimArr A> auto eigenvalues(A const &a) { return eigenelements(a).first; }
    template <ShimArr A> auto eigenvalues_in_place(A const &a) { return eigenelements(a).first; }
    template <typename X, typename Y> auto cross_product(X const &a, Y const &b) {
      using T = promote_t<get_value_t<X>, get_value_t<Y>>;
      array<T, 1> r(3);
      r(0) = a(1) * b(2) - b(1) * a(2);
      r(1) = -a(0) * b(2) + b(0) * a(2);
      r(2) = a(0) * b(1) - b(0) * a(1);
      return r;
    }
  } // namespace linalg

  template <typename T> struct is_instantiation_ : std::false_type {};

} // namespace nda

namespace nda::clef {}

// ---- index permutations
namespace nda {
  namespace permutations {
    template <int R> constexpr std::array<int, R> cycle(int p, int pos = R) {
      std::array<int, R> r{};
      for (int i = 0; i < R; ++i) r[i] = (i < pos ? (i + p + pos) % pos : i);
      return r;
    }
  } // namespace permutations
  template <size_t R> constexpr std::array<int, R> encode(std::array<int, R> const &a) { return a; }
  template <std::array P, typename A> auto permuted_indices_view(A &&a) {
    using D         = std::decay_t<A>;
    constexpr int R = D::rank;
    using E         = std::remove_pointer_t<decltype(a.data())>;
    std::array<long, R> sh, st;
    for (int i = 0; i < R; ++i) {
      sh[i] = a.shape()[P[i]];
      st[i] = a.strides_()[P[i]];
    }
    return arrv_<E, R, 'A'>(a.data(), sh, st);
  }
  template <int I, int J, typename A> auto transposed_view(A &&a) {
    using D         = std::decay_t<A>;
    constexpr int R = D::rank;
    using E         = std::remove_pointer_t<decltype(a.data())>;
    auto sh = a.shape();
    auto st = a.strides_();
    std::swap(sh[I], sh[J]);
    std::swap(st[I], st[J]);
    return arrv_<E, R, 'A'>(a.data(), sh, st);
  }
} // namespace nda
namespace nda {
  template <int N, typename A> auto reinterpret_add_fast_dims_of_size_one(A &&a) {
    using D         = std::decay_t<A>;
    constexpr int R = D::rank;
    using E         = std::remove_pointer_t<decltype(a.data())>;
    std::array<long, R + N> sh, st;
    for (int i = 0; i < R + N; ++i) {
      sh[i] = i < R ? a.shape()[i] : 1;
      st[i] = i < R ? a.strides_()[i] : 1;
    }
    return arrv_<E, R + N, D::algebra>(a.data(), sh, st);
  }
  template <size_t R, typename F> struct array_adapter {
    std::array<long, R> shape_;
    F f;
    array_adapter(std::array<long, R> s, F g) : shape_(s), f(g) {}
    auto const &shape() const { return shape_; }
    auto operator()(auto... i) const { return f(i...); }
  };
  template <size_t R, typename F> auto make_regular(array_adapter<R, F> const &a) {
    static_assert(R == 1);
    array<std::decay_t<decltype(a(0l))>, 1> r(a.shape_);
    for (long i = 0; i < a.shape_[0]; ++i) r(i) = a(i);
    return r;
  }
} // namespace nda
namespace nda {
  template <typename A> auto make_array_const_view(A const &a) { return array_const_view<typename A::value_type, A::rank>(a.data(), a.shape(), a.strides_()); }
}
namespace triqs { using nda::MemoryArray; }
namespace triqs { using nda::make_regular; } // triqs/stat calls it unqualified for plain numbers
