// Stand-in for the TRIQS/h5 library (not available offline): an in-memory hierarchical store with the h5 interface.
// Integers and floats are stored widened (as HDF5 converts between native widths on read); a type/rank mismatch throws.
#pragma once
#include <hdf5.h>
#include <array>
#include <complex>
#include <cstdint>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <set>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>
#include <type_traits>

namespace h5 {

  using ::hid_t;
  using ::hsize_t;
  using ::herr_t;
  using dcomplex = std::complex<double>;
  using v_t      = std::vector<hsize_t>;

  namespace impl_ {
    struct node;
    using vint_t = std::vector<long long>;
    using vdbl_t = std::vector<double>;
    using vstr_t = std::vector<std::string>;
    struct value {
      std::variant<std::monostate, vint_t, vdbl_t, vstr_t, std::vector<vstr_t>, std::vector<char>> d;
      std::vector<long> shape; // without the complex dimension
      bool cplx = false;
    };
    struct node {
      bool is_group = true;
      value v;
      std::map<std::string, std::shared_ptr<node>> sub;
      std::map<std::string, value> attr;
      std::string name;
    };
    inline std::map<std::string, std::shared_ptr<node>> &files() {
      static std::map<std::string, std::shared_ptr<node>> f;
      return f;
    }
  } // namespace impl_

  // reference counted handle
  class object {
    public:
    std::shared_ptr<impl_::node> n;
    std::shared_ptr<void> keep;
    hid_t id = 0;
    object() = default;
    object(hid_t i) : id(i) {}
    object(std::shared_ptr<impl_::node> p) : n(std::move(p)) { id = ::h5shim_register(n.get(), n); }
    operator hid_t() const { return id; }
    bool is_valid() const { return true; }
    void close() {}
    static object from_borrowed(hid_t i) { return object(i); }
    impl_::node &nd() const {
      if (!n) throw std::runtime_error("h5: invalid object");
      return *n;
    }
  };
  using dataset   = object;
  using dataspace = object;
  using datatype  = object;
  using attribute = object;

  class group : public object {
    public:
    group() = default;
    group(std::shared_ptr<impl_::node> p) : object(std::move(p)) {}
    group(object o) : object(std::move(o)) {}
    std::string name() const { return n ? n->name : ""; }
    bool has_key(std::string const &k) const { return nd().sub.count(k); }
    bool has_subgroup(std::string const &k) const { return has_key(k) && nd().sub.at(k)->is_group; }
    bool has_dataset(std::string const &k) const { return has_key(k) && !nd().sub.at(k)->is_group; }
    void unlink(std::string const &k, bool err = false) const {
      if (!nd().sub.erase(k) && err) throw std::runtime_error("h5: unlink " + k);
    }
    group create_group(std::string const &k, bool delete_if_exists = true) const {
      if (k.empty()) return *this;
      if (delete_if_exists || !has_key(k)) {
        auto p      = std::make_shared<impl_::node>();
        p->name     = name() + "/" + k;
        nd().sub[k] = p;
      }
      return group{nd().sub[k]};
    }
    group open_group(std::string const &k) const {
      if (k.empty()) return *this;
      if (!has_key(k)) throw std::runtime_error("h5: no such group " + k);
      if (!nd().sub[k]->is_group) throw std::runtime_error("h5: not a group " + k);
      return group{nd().sub[k]};
    }
    dataset create_dataset(std::string const &k, datatype ty, dataspace sp) const {
      auto p      = std::make_shared<impl_::node>();
      p->is_group = false;
      nd().sub[k] = p;
      ::h5shim_describe(p.get(), ty.id, sp.id);
      return object{p};
    }
    dataset open_dataset(std::string const &k) const {
      if (!has_key(k)) throw std::runtime_error("h5: no such dataset " + k);
      return object{nd().sub[k]};
    }
    std::vector<std::string> get_all_subgroup_names() const {
      std::vector<std::string> r;
      for (auto &[k, v] : nd().sub)
        if (v->is_group) r.push_back(k);
      return r;
    }
    std::vector<std::string> get_all_dataset_names() const {
      std::vector<std::string> r;
      for (auto &[k, v] : nd().sub)
        if (!v->is_group) r.push_back(k);
      return r;
    }
    std::vector<std::string> get_all_subgroup_dataset_names() const {
      std::vector<std::string> r;
      for (auto &[k, v] : nd().sub) r.push_back(k);
      return r;
    }
  };

  class file : public group {
    public:
    file() : group(std::make_shared<impl_::node>()) {}
    file(std::string const &fn, char mode) : group(open(fn, mode)) {}
    file(char const *fn, char mode) : group(open(fn, mode)) {}
    void flush() {}
    void close() {}

    private:
    static std::shared_ptr<impl_::node> open(std::string const &fn, char mode) {
      auto &f = impl_::files();
      if (mode == 'w') f[fn] = std::make_shared<impl_::node>();
      if (mode == 'a' && !f.count(fn)) f[fn] = std::make_shared<impl_::node>();
      if (!f.count(fn)) throw std::runtime_error("h5: no such file " + fn);
      return f[fn];
    }
  };

  // -------- format
  namespace impl_ {
    template <typename T>
    concept num = std::is_arithmetic_v<T>;
    template <typename T> struct is_cplx : std::false_type {};
    template <typename T> struct is_cplx<std::complex<T>> : std::true_type {};
    template <typename T>
    concept scalar = num<T> || is_cplx<T>::value;

    template <scalar T> void put(value &v, T const *p, long n, std::vector<long> shape) {
      v.shape = std::move(shape);
      v.cplx  = false;
      if constexpr (is_cplx<T>::value) {
        vdbl_t d;
        for (long i = 0; i < n; ++i) {
          d.push_back(p[i].real());
          d.push_back(p[i].imag());
        }
        v.cplx = true;
        v.d    = d;
      } else if constexpr (std::is_floating_point_v<T>)
        v.d = vdbl_t(p, p + n);
      else
        v.d = vint_t(p, p + n);
    }
    template <scalar T> std::vector<T> get(value const &v) {
      std::vector<T> r;
      if constexpr (is_cplx<T>::value) {
        if (v.cplx) {
          auto &d = std::get<vdbl_t>(v.d);
          for (size_t i = 0; i + 1 < d.size(); i += 2) r.emplace_back(d[i], d[i + 1]);
        } else
          for (auto x : get<double>(v)) r.emplace_back(x, 0.);
        return r;
      } else {
        if (v.cplx) throw std::runtime_error("h5: reading complex data into a real");
        if (auto *p = std::get_if<vint_t>(&v.d)) return {p->begin(), p->end()};
        if (auto *p = std::get_if<vdbl_t>(&v.d)) return {p->begin(), p->end()};
        throw std::runtime_error("h5: type mismatch");
      }
    }
    inline value &make(group const &g, std::string const &k) {
      auto p        = std::make_shared<node>();
      p->is_group   = false;
      g.nd().sub[k] = p;
      return p->v;
    }
    inline value const &look(group const &g, std::string const &k) {
      if (!g.has_key(k)) throw std::runtime_error("h5: no such dataset " + k);
      auto &p = g.nd().sub[k];
      if (p->is_group) throw std::runtime_error("h5: group where a dataset is expected: " + k);
      return p->v;
    }
  } // namespace impl_

  // forward declarations of the container versions
  template <typename T> void h5_write(group g, std::string const &name, std::vector<T> const &v);
  template <typename T> void h5_read(group g, std::string const &name, std::vector<T> &v);
  template <typename T, size_t N> void h5_write(group g, std::string const &name, std::array<T, N> const &v);
  template <typename T, size_t N> void h5_read(group g, std::string const &name, std::array<T, N> &v);
  template <typename K, typename T> void h5_write(group g, std::string const &name, std::map<K, T> const &v);
  template <typename K, typename T> void h5_read(group g, std::string const &name, std::map<K, T> &v);
  template <typename A, typename B> void h5_write(group g, std::string const &name, std::pair<A, B> const &v);
  template <typename A, typename B> void h5_read(group g, std::string const &name, std::pair<A, B> &v);
  template <typename... A> void h5_write(group g, std::string const &name, std::tuple<A...> const &v);
  template <typename... A> void h5_read(group g, std::string const &name, std::tuple<A...> &v);
  template <typename... A> void h5_write(group g, std::string const &name, std::variant<A...> const &v);
  template <typename... A> void h5_read(group g, std::string const &name, std::variant<A...> &v);
  template <typename T> void h5_write(group g, std::string const &name, std::optional<T> const &v);
  template <typename T> void h5_read(group g, std::string const &name, std::optional<T> &v);

  // ---- scalars, strings
  template <impl_::scalar T> void h5_write(group g, std::string const &name, T const &x) { impl_::put(impl_::make(g, name), &x, 1, {}); }
  template <impl_::scalar T> void h5_read(group g, std::string const &name, T &x) {
    auto &v = impl_::look(g, name);
    if (!v.shape.empty()) throw std::runtime_error("h5: rank mismatch");
    x = impl_::get<T>(v).at(0);
  }
  inline void h5_write(group g, std::string const &name, std::string const &s) {
    auto &v = impl_::make(g, name);
    v.d     = impl_::vstr_t{s};
  }
  inline void h5_write(group g, std::string const &name, char const *s) { h5_write(g, name, std::string{s}); }
  inline void h5_read(group g, std::string const &name, std::string &s) {
    auto &v = impl_::look(g, name);
    auto *p = std::get_if<impl_::vstr_t>(&v.d);
    if (!p || !v.shape.empty()) throw std::runtime_error("h5: type mismatch (string)");
    s = p->at(0);
  }
  template <typename E> requires std::is_enum_v<E> void h5_write(group g, std::string const &name, E const &e) {
    h5_write(g, name, static_cast<long>(e));
  }
  template <typename E> requires std::is_enum_v<E> void h5_read(group g, std::string const &name, E &e) {
    long l;
    h5_read(g, name, l);
    e = static_cast<E>(l);
  }

  // raw array access (used by the nda stand-in)
  template <impl_::scalar T> void write_array(group g, std::string const &name, T const *p, std::vector<long> shape) {
    long n = 1;
    for (auto s : shape) n *= s;
    impl_::put(impl_::make(g, name), p, n, shape);
  }
  template <impl_::scalar T> std::pair<std::vector<T>, std::vector<long>> read_array(group g, std::string const &name) {
    auto &v = impl_::look(g, name);
    return {impl_::get<T>(v), v.shape};
  }

  // ---- attributes
  template <impl_::scalar T> void h5_write_attribute(object o, std::string const &name, T const &x) { impl_::put(o.nd().attr[name], &x, 1, {}); }
  template <impl_::scalar T> void h5_read_attribute(object o, std::string const &name, T &x) {
    if (!o.nd().attr.count(name)) throw std::runtime_error("h5: no attribute " + name);
    x = impl_::get<T>(o.nd().attr.at(name)).at(0);
  }
  inline void h5_write_attribute(object o, std::string const &name, std::string const &s) { o.nd().attr[name].d = impl_::vstr_t{s}; }
  inline void h5_write_attribute(object o, std::string const &name, char const *s) { h5_write_attribute(o, name, std::string{s}); }
  inline void h5_read_attribute(object o, std::string const &name, std::string &s) {
    s.clear();
    if (o.nd().attr.count(name)) s = std::get<impl_::vstr_t>(o.nd().attr.at(name).d).at(0);
  }
  inline void h5_write_attribute(object o, std::string const &name, std::vector<std::string> const &s) {
    o.nd().attr[name].d     = s;
    o.nd().attr[name].shape = {long(s.size())};
  }
  inline void h5_read_attribute(object o, std::string const &name, std::vector<std::string> &s) {
    s = std::get<impl_::vstr_t>(o.nd().attr.at(name).d);
  }
  // h5 pads the inner vectors with empty strings to a rectangular array
  inline void h5_write_attribute(object o, std::string const &name, std::vector<std::vector<std::string>> s) {
    size_t m = 0;
    for (auto &x : s) m = std::max(m, x.size());
    for (auto &x : s) x.resize(m);
    o.nd().attr[name].d = s;
  }
  inline void h5_read_attribute(object o, std::string const &name, std::vector<std::vector<std::string>> &s) {
    if (!o.nd().attr.count(name)) throw std::runtime_error("h5: no attribute " + name);
    s = std::get<std::vector<impl_::vstr_t>>(o.nd().attr.at(name).d);
  }
  template <typename T> void write_attribute(object o, std::string const &name, T const &x) { h5_write_attribute(o, name, x); }
  template <typename T> void read_attribute(object o, std::string const &name, T &x) { h5_read_attribute(o, name, x); }
  template <typename T> T read_attribute(object o, std::string const &name) {
    T x;
    h5_read_attribute(o, name, x);
    return x;
  }

  // ---- formats
  template <typename T> std::string get_hdf5_format() {
    if constexpr (requires { T::hdf5_format(); })
      return T::hdf5_format();
    else
      return "";
  }
  template <typename T> std::string get_hdf5_format(T const &) { return get_hdf5_format<T>(); }
  inline void write_hdf5_format_as_string(object o, std::string const &s) { h5_write_attribute(o, "Format", s); }
  template <typename T> void write_hdf5_format(object o, T const &) { write_hdf5_format_as_string(o, get_hdf5_format<T>()); }
  inline std::string read_hdf5_format(object o) {
    std::string s;
    h5_read_attribute(o, "Format", s);
    return s;
  }
  inline std::string read_hdf5_format(group g, std::string const &) { return read_hdf5_format(g); }
  inline void read_hdf5_format(object o, std::string &s) { h5_read_attribute(o, "Format", s); }
  inline void assert_hdf5_format_as_string(group g, char const *tag, bool ignore_if_absent = false) {
    auto s = read_hdf5_format(g);
    if (s.empty() && ignore_if_absent) return;
    if (s != tag) throw std::runtime_error("h5: format mismatch: " + s + " vs " + tag);
  }
  template <typename T> void assert_hdf5_format(group g, T const *, bool ignore_if_absent = false) {
    assert_hdf5_format_as_string(g, get_hdf5_format<T>().c_str(), ignore_if_absent);
  }

  template <typename T> requires(!std::is_pointer_v<T>)
  void assert_hdf5_format(group g, T const &, bool ignore_if_absent = false) {
    assert_hdf5_format_as_string(g, get_hdf5_format<T>().c_str(), ignore_if_absent);
  }

  // ---- generic front ends
  template <typename T>
  concept Storable = requires(group g, T const &x, T &y) {
    h5_write(g, std::string{}, x);
  };
  template <typename T> void write(group g, std::string const &name, T const &x) { h5_write(g, name, x); }
  template <typename T> void read(group g, std::string const &name, T &x) { h5_read(g, name, x); }
  template <typename T> T h5_read(group g, std::string const &name) {
    if constexpr (requires { T::h5_read_construct(g, name); })
      return T::h5_read_construct(g, name);
    else {
      T x{};
      h5_read(g, name, x);
      return x;
    }
  }
  template <typename T> T read(group g, std::string const &name) { return h5::h5_read<T>(g, name); }
  template <typename T> bool try_read(group g, std::string const &name, T &x) {
    if (!g.has_key(name)) return false;
    h5_read(g, name, x);
    return true;
  }

  // ---- containers
  namespace impl_ {
    template <typename T> T rd(group g, std::string const &n) { return h5::h5_read<T>(g, n); }
    template <typename T> void wr(group g, std::string const &n, T const &x) { h5_write(g, n, x); }
  } // namespace impl_
  template <typename T> void h5_write(group g, std::string const &name, std::vector<T> const &v) {
    if constexpr (std::is_same_v<T, bool>) {
      std::vector<int> w(v.begin(), v.end());
      impl_::put(impl_::make(g, name), w.data(), w.size(), {long(w.size())});
    } else if constexpr (impl_::scalar<T>) {
      impl_::put(impl_::make(g, name), v.data(), v.size(), {long(v.size())});
    } else if constexpr (std::is_same_v<T, std::string>) {
      auto &x = impl_::make(g, name);
      x.d     = v;
      x.shape = {long(v.size())};
    } else {
      auto gr = g.create_group(name);
      h5_write_attribute(gr, "Format", "List");
      for (size_t i = 0; i < v.size(); ++i) impl_::wr(gr, std::to_string(i), v[i]);
    }
  }
  template <typename T> void h5_read(group g, std::string const &name, std::vector<T> &v) {
    if constexpr (std::is_same_v<T, bool>) {
      auto w = impl_::get<int>(impl_::look(g, name));
      v.assign(w.begin(), w.end());
    } else if constexpr (impl_::scalar<T>) {
      auto &x = impl_::look(g, name);
      if (x.shape.size() != 1) throw std::runtime_error("h5: rank mismatch (vector)");
      v = impl_::get<T>(x);
    } else if constexpr (std::is_same_v<T, std::string>) {
      v = std::get<impl_::vstr_t>(impl_::look(g, name).d);
    } else {
      auto gr = g.open_group(name);
      v.clear();
      size_t n = gr.nd().sub.size();
      for (size_t i = 0; i < n; ++i) v.push_back(impl_::rd<T>(gr, std::to_string(i)));
    }
  }
  template <typename T, size_t N> void h5_write(group g, std::string const &name, std::array<T, N> const &v) {
    if constexpr (impl_::scalar<T>)
      impl_::put(impl_::make(g, name), v.data(), N, {long(N)});
    else {
      auto gr = g.create_group(name);
      for (size_t i = 0; i < N; ++i) impl_::wr(gr, std::to_string(i), v[i]);
    }
  }
  template <typename T, size_t N> void h5_read(group g, std::string const &name, std::array<T, N> &v) {
    if constexpr (impl_::scalar<T>) {
      auto w = impl_::get<T>(impl_::look(g, name));
      if (w.size() != N) throw std::runtime_error("h5: dimension mismatch (array)");
      for (size_t i = 0; i < N; ++i) v[i] = w[i];
    } else {
      auto gr = g.open_group(name);
      for (size_t i = 0; i < N; ++i) v[i] = impl_::rd<T>(gr, std::to_string(i));
    }
  }
  template <typename K, typename T> void h5_write(group g, std::string const &name, std::map<K, T> const &v) {
    auto gr = g.create_group(name);
    h5_write_attribute(gr, "Format", "Dict");
    for (auto &[k, x] : v) {
      if constexpr (std::is_same_v<K, std::string>)
        impl_::wr(gr, k, x);
      else
        impl_::wr(gr, std::to_string(k), x);
    }
  }
  template <typename K, typename T> void h5_read(group g, std::string const &name, std::map<K, T> &v) {
    auto gr = g.open_group(name);
    v.clear();
    for (auto &k : gr.get_all_subgroup_dataset_names()) {
      if constexpr (std::is_same_v<K, std::string>)
        v.emplace(k, impl_::rd<T>(gr, k));
      else
        v.emplace(K(std::stol(k)), impl_::rd<T>(gr, k));
    }
  }
  template <typename A, typename B> void h5_write(group g, std::string const &name, std::pair<A, B> const &v) {
    auto gr = g.create_group(name);
    impl_::wr(gr, "0", v.first);
    impl_::wr(gr, "1", v.second);
  }
  template <typename A, typename B> void h5_read(group g, std::string const &name, std::pair<A, B> &v) {
    auto gr  = g.open_group(name);
    v.first  = impl_::rd<A>(gr, "0");
    v.second = impl_::rd<B>(gr, "1");
  }
  template <typename... A> void h5_write(group g, std::string const &name, std::tuple<A...> const &v) {
    auto gr = g.create_group(name);
    [&]<size_t... I>(std::index_sequence<I...>) { (impl_::wr(gr, std::to_string(I), std::get<I>(v)), ...); }(std::index_sequence_for<A...>{});
  }
  template <typename... A> void h5_read(group g, std::string const &name, std::tuple<A...> &v) {
    auto gr = g.open_group(name);
    [&]<size_t... I>(std::index_sequence<I...>) {
      ((std::get<I>(v) = impl_::rd<std::decay_t<decltype(std::get<I>(v))>>(gr, std::to_string(I))), ...);
    }(std::index_sequence_for<A...>{});
  }
  template <typename... A> void h5_write(group g, std::string const &name, std::variant<A...> const &v) {
    auto gr = g.create_group(name);
    impl_::wr(gr, "which", long(v.index()));
    std::visit([&](auto const &x) { impl_::wr(gr, "value", x); }, v);
  }
  template <typename... A> void h5_read(group g, std::string const &name, std::variant<A...> &v) {
    auto gr = g.open_group(name);
    long w  = impl_::rd<long>(gr, "which");
    [&]<size_t... I>(std::index_sequence<I...>) {
      ((w == long(I) ? (void)(v = impl_::rd<std::variant_alternative_t<I, std::variant<A...>>>(gr, "value")) : (void)0), ...);
    }(std::index_sequence_for<A...>{});
  }
  template <typename T> void h5_write(group g, std::string const &name, std::optional<T> const &v) {
    if (v) impl_::wr(g, name, *v);
  }
  template <typename T> void h5_read(group g, std::string const &name, std::optional<T> &v) {
    v.reset();
    if (g.has_key(name)) v = impl_::rd<T>(g, name);
  }

  // ---- serialization to a byte buffer (kept by reference in this process)
  template <typename T> std::vector<std::byte> serialize(T const &x) {
    static long cnt = 0;
    auto key        = "__ser" + std::to_string(cnt++);
    file f(key, 'w');
    h5_write(f, "object", x);
    std::vector<std::byte> r;
    for (char c : key) r.push_back(std::byte(c));
    return r;
  }
  template <typename T> T deserialize(std::vector<std::byte> const &b) {
    std::string key;
    for (auto c : b) key.push_back(char(c));
    file f(key, 'r');
    return h5::h5_read<T>(f, "object");
  }
  template <typename T> struct hdf5_format_impl {
    static std::string invoke() { return get_hdf5_format<T>(); }
  };

} // namespace h5

#define H5_REQUIRES(...) requires(__VA_ARGS__)
