// Arithmetic of Matsubara frequencies in C++ (triqs/mesh/domains/matsubara.hpp, triqs/mesh/imfreq.hpp).
#include "drv.hpp"
#include "rat.hpp"
#include <h5/h5.hpp>
#include <triqs/mesh/imfreq.hpp>
using namespace triqs::mesh;
using drv::VL;
using C = std::complex<double>;
static double q(J const &j) { return double(j[0].l()) / double(j[1].l()); }
static std::string pl(VL const &v) { std::string s = "["; for (auto x : v) s += (s.size() > 1 ? "," : "") + std::to_string(x); return s + "]"; }
static std::string cz(C z) { return "[" + pl(drv::rat(z.real(), 100000, 1e-11)) + "," + pl(drv::rat(z.imag(), 100000, 1e-11)) + "]"; }
static drv::raw jr(J const &j) {
  if (j.k == J::Arr) { std::string s = "["; for (auto &x : j.a) s += (s.size() > 1 ? "," : "") + jr(x).s; return {s + "]"}; }
  if (j.k == J::Obj) { std::string s = "{"; for (auto &[k, x] : j.o) s += (s.size() > 1 ? "," : "") + drv::quote(k) + ":" + jr(x).s; return {s + "}"}; }
  if (j.k == J::Str) return {drv::quote(j.s)};
  return {std::to_string(j.l())};
}
static drv::raw seen(matsubara_freq const &f) {
  C a = f, b = C(f);
  std::ostringstream out;
  out << f;
  C c;
  std::istringstream(out.str()) >> c;
  double u = f.beta / M_PI;
  std::string z = cz(a * u) + "," + cz(b * u);
  if (std::abs(c - a) > 1e-4 * std::abs(a) + 1e-9) z += ",[[0,0],[0,0]]";
  return {"{\"n\":" + std::to_string(f.n) + ",\"s\":" + (f.statistic == Fermion ? "\"F\"" : f.statistic == Boson ? "\"B\"" : "\"?\"") + ",\"b\":" + pl(drv::rat(f.beta)) + ",\"z\":[" + z + "]" + (f.index() == f.n ? "" : ",\"bad\":1") + "}"};
}
template <typename X, typename Y> static C op2(std::string const &o, X const &x, Y const &y) {
  if (o == "+") return x + y;
  if (o == "-") return x - y;
  if (o == "*") return x * y;
  return x / y;
}
int main() {
  return drv::main_loop([](J const &H) {
    E("Reset");
    std::map<int, matsubara_freq> fr;
    for (auto &o : H["ops"].a) {
      auto op = o["op"].s;
      int id = int(o["id"].l()), j = int(o["j"].l()), k = int(o["k"].l());
      if (op == "new") {
        auto s = o["s"].s == "F" ? Fermion : Boson;
        double b = q(o["b"]);
        long n = o["n"].l();
        if (o["how"].l() == 1) {
          imfreq m{b, s, std::abs(n) + 2};
          fr[id] = m(n);
        } else if (o["how"].l() == 2) {
          imfreq m{b, s, std::abs(n) + 2};
          fr[id] = m.index_to_freq(n);
        } else if (o["how"].l() == 3) {
          imfreq m{b, s, std::abs(n) + 2};
          fr[id] = m.to_value(n);
        } else fr[id] = matsubara_freq{n, b, s};
        E("New")("id", id)("n", n)("s", o["s"].s)("b", jr(o["b"]))("o", seen(fr[id]));
      } else if (op == "add" || op == "sub") {
        if (fr.at(j).beta != fr.at(k).beta) continue;
        if (o["how"].l() == 1) { // points of meshes
          auto pt = [](matsubara_freq f) { return imfreq{f.beta, f.statistic, std::abs(f.n) + 2}(f.n); };
          fr[id] = op == "add" ? pt(fr.at(j)) + pt(fr.at(k)) : pt(fr.at(j)) - pt(fr.at(k));
        } else
          fr[id] = op == "add" ? fr.at(j) + fr.at(k) : fr.at(j) - fr.at(k);
        E(op == "add" ? "Add" : "Sub")("id", id)("j", j)("k", k)("o", seen(fr[id]));
      } else if (op == "neg") {
        fr[id] = -fr.at(j);
        E("Neg")("id", id)("j", j)("o", seen(fr[id]));
      } else if (op == "op") {
        auto &x = o["x"], &y = o["y"];
        double u = M_PI / fr.at(j).beta;
        auto val = [&](J const &a) { return C(q(a["z"][0]), q(a["z"][1])) * u; };
        auto f   = [&](J const &a) { return fr.at(int(a["id"].l())); };
        auto oo = o["o"].s;
        C r;
        if (x["t"].s == "f" && y["t"].s == "f") r = op2(oo, f(x), f(y));
        else if (x["t"].s == "f" && y["t"].s == "r") r = op2(oo, f(x), val(y).real());
        else if (x["t"].s == "r" && y["t"].s == "f") r = op2(oo, val(x).real(), f(y));
        else if (x["t"].s == "f") r = op2(oo, f(x), val(y));
        else r = op2(oo, val(x), f(y));
        r = oo == "*" ? r / (u * u) : oo == "/" ? r : r / u;
        E("Op")("op", oo)("x", jr(x))("y", jr(y))("r", drv::raw{cz(r)});
      } else if (op == "kron") {
        E("Kron")("j", j)("k", k)("r1", kronecker(fr.at(j)))("r2", kronecker(fr.at(j), fr.at(k)));
      } else if (op == "mesh") {
        auto f = fr.at(j);
        bool pos = o["pos"].t();
        imfreq m{f.beta, f.statistic, o["N"].l(), pos ? imfreq::option::positive_frequencies_only : imfreq::option::all_frequencies};
        bool v = m.is_index_valid(f.n);
        E e("Mesh");
        e("j", j)("N", o["N"].l())("pos", pos)("valid", v);
        if (v) e("d", m.to_data_index(f))("d2", m.to_data_index(closest_mesh_pt(f)))("o", seen(m[m.to_data_index(f)]));
      }
    }
    for (auto &[i, f] : fr) E("Obs")("id", i)("o", seen(f));
  });
}
