// Helpers of the conformance drivers: a small JSON reader for operation sequences and a writer for trace events.
#pragma once
#include <cmath>
#include <unistd.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <map>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace drv {
  struct J {
    enum K { Null, Bool, Num, Str, Arr, Obj } k = Null;
    double n      = 0;
    long long i   = 0;
    bool b        = false;
    std::string s;
    std::vector<J> a;
    std::map<std::string, J> o;
    J const &operator[](std::string const &key) const {
      static J nul;
      auto it = o.find(key);
      return it == o.end() ? nul : it->second;
    }
    J const &operator[](char const *key) const { return (*this)[std::string(key)]; }
    J const &operator[](size_t j) const { return a.at(j); }
    J const &operator[](int j) const { return a.at(j); }
    bool has(std::string const &key) const { return o.count(key); }
    long l(long def = 0) const { return k == Num ? long(i) : (k == Bool ? long(b) : def); }
    double d(double def = 0) const { return k == Num ? n : def; }
    bool t() const { return k == Bool ? b : (k == Num && i != 0); }
    size_t size() const { return a.size(); }
    std::vector<long> longs() const {
      std::vector<long> r;
      for (auto &x : a) r.push_back(x.l());
      return r;
    }
  };
  struct Parser {
    std::string const &t;
    size_t p = 0;
    void ws() {
      while (p < t.size() && isspace((unsigned char)t[p])) ++p;
    }
    J val() {
      ws();
      J j;
      char c = t.at(p);
      if (c == '{') {
        j.k = J::Obj;
        ++p;
        ws();
        while (t[p] != '}') {
          J key = val();
          ws();
          ++p; // :
          j.o[key.s] = val();
          ws();
          if (t[p] == ',') ++p;
          ws();
        }
        ++p;
      } else if (c == '[') {
        j.k = J::Arr;
        ++p;
        ws();
        while (t[p] != ']') {
          j.a.push_back(val());
          ws();
          if (t[p] == ',') ++p;
          ws();
        }
        ++p;
      } else if (c == '"') {
        j.k = J::Str;
        ++p;
        while (t[p] != '"') {
          if (t[p] == '\\') {
            ++p;
            if (t[p] == 'n') j.s += '\n';
            else if (t[p] == 'u') { j.s += char(std::stoi(t.substr(p + 1, 4), nullptr, 16)); p += 4; }
            else j.s += t[p];
          } else
            j.s += t[p];
          ++p;
        }
        ++p;
      } else if (t.compare(p, 4, "true") == 0) {
        j.k = J::Bool; j.b = true; p += 4;
      } else if (t.compare(p, 5, "false") == 0) {
        j.k = J::Bool; p += 5;
      } else if (t.compare(p, 4, "null") == 0) {
        p += 4;
      } else {
        size_t q = p;
        while (p < t.size() && (isalnum((unsigned char)t[p]) || t[p] == '-' || t[p] == '+' || t[p] == '.')) ++p;
        j.k = J::Num;
        auto w = t.substr(q, p - q);
        j.n = std::stod(w);
        if (w.find_first_of(".eE") == std::string::npos) j.i = std::stoll(w); else j.i = (long long)j.n;
      }
      return j;
    }
  };
  inline J parse(std::string const &s) { return Parser{s}.val(); }

  inline std::string quote(std::string const &s) {
    std::string r = "\"";
    for (char c : s) {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c == '\n') r += "\\n";
      else if ((unsigned char)c < 32) r += ' ';
      else r += c;
    }
    return r + "\"";
  }
  // ---- values to JSON
  inline std::string js(std::string const &s) { return quote(s); }
  inline std::string js(char const *s) { return quote(s); }
  inline std::string js(bool b) { return b ? "true" : "false"; }
  template <typename T> requires(std::is_integral_v<T> && !std::is_same_v<T, bool>) std::string js(T x) { return std::to_string(x); }
  template <typename T> std::string js(std::vector<T> const &v);
  template <typename A, typename B> std::string js(std::pair<A, B> const &v) { return "[" + js(v.first) + "," + js(v.second) + "]"; }
  template <typename T> std::string js(std::vector<T> const &v) {
    std::string r = "[";
    bool first = true;
    for (auto const &x : v) {
      if (!first) r += ",";
      first = false;
      if constexpr (std::is_same_v<T, bool>) r += js(bool(x)); else r += js(x);
    }
    return r + "]";
  }
  struct raw { std::string s; };
  inline std::string js(raw const &r) { return r.s; }

  inline std::mutex out_mutex;
  inline FILE *out() { static FILE *f = fdopen(dup(1), "w"); return f; }
  // one event, written when the object dies
  struct E {
    std::string s;
    E(char const *e) : s("{\"e\":" + quote(e)) {}
    E(E const &) = delete;
    template <typename T> E &operator()(char const *key, T const &v) & {
      s += "," + quote(key) + ":" + js(v);
      return *this;
    }
    template <typename T> E &&operator()(char const *key, T const &v) && {
      s += "," + quote(key) + ":" + js(v);
      return std::move(*this);
    }
    ~E() {
      std::lock_guard lk(out_mutex);
      s += "}\n";
      fputs(s.c_str(), out());
      fflush(out());
    }
  };
  // an integer valued double, exactly; other values become a number no specification expects
  inline long not_integer = 0; // how often a number was not an integer
  inline long L(double x) {
    double r = std::round(x);
    if (!(std::abs(x - r) <= 1e-6 * std::max(1.0, std::abs(r)) && std::abs(r) < 2e9)) return ++not_integer, -2147480000;
    return long(r);
  }
  template <typename F> int main_loop(F f) {
    // the real output of the code under test must not get into the trace
    out();
    freopen("/dev/null", "w", stdout);
    std::string line;
    while (std::getline(std::cin, line))
      if (!line.empty()) f(parse(line));
    fflush(out());
    return 0;
  }
} // namespace drv
using drv::E;
using drv::J;
