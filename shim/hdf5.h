// Stand-in for the part of the HDF5 C API used directly by TRIQS (compound datasets), over the in-memory store.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <vector>
using hid_t   = int64_t;
using hsize_t = unsigned long long;
using herr_t  = int;
enum { H5T_COMPOUND = 1, H5T_NATIVE_INT, H5T_NATIVE_DOUBLE, H5T_NATIVE_LONG, H5S_ALL, H5P_DEFAULT };
#define HOFFSET(S, M) (offsetof(S, M))
namespace h5shim_ {
  struct type {
    size_t size;
  };
  struct space {
    std::vector<hsize_t> dims;
  };
  struct raw {
    std::vector<char> bytes;
    std::vector<hsize_t> dims;
    size_t size = 0;
  };
  inline std::map<hid_t, type> types;
  inline std::map<hid_t, space> spaces;
  inline std::map<hid_t, void *> ids;
  inline std::map<void *, raw> raws; // dataset content, by node address (nodes are kept alive below)
  inline std::vector<std::shared_ptr<void>> keep;
  inline hid_t next = 1000;
} // namespace h5shim_
inline hid_t h5shim_register(void *p, std::shared_ptr<void>) {
  hid_t i         = h5shim_::next++;
  h5shim_::ids[i] = p;
  return i;
}
inline void h5shim_describe(void *node, hid_t ty, hid_t sp) {
  auto &r = h5shim_::raws[node];
  r.size  = h5shim_::types[ty].size;
  r.dims  = h5shim_::spaces[sp].dims;
}
inline hid_t H5Tcreate(int, size_t s) {
  hid_t i           = h5shim_::next++;
  h5shim_::types[i] = {s};
  return i;
}
inline herr_t H5Tinsert(hid_t, char const *, size_t, hid_t) { return 0; }
inline hid_t H5Tarray_create(hid_t, unsigned, hsize_t const *) { return h5shim_::next++; }
inline hid_t H5Screate_simple(int n, hsize_t const *d, hsize_t const *) {
  hid_t i            = h5shim_::next++;
  h5shim_::spaces[i] = {std::vector<hsize_t>(d, d + n)};
  return i;
}
inline herr_t H5Dwrite(hid_t ds, hid_t ty, hid_t, hid_t, hid_t, void const *p) {
  auto &r  = h5shim_::raws[h5shim_::ids[ds]];
  size_t n = h5shim_::types[ty].size;
  for (auto d : r.dims) n *= d;
  r.bytes.assign((char const *)p, (char const *)p + n);
  return 0;
}
inline herr_t H5Dread(hid_t ds, hid_t, hid_t, hid_t, hid_t, void *p) {
  auto &r = h5shim_::raws[h5shim_::ids[ds]];
  if (!r.bytes.empty()) std::memcpy(p, r.bytes.data(), r.bytes.size());
  return 0;
}
inline hid_t H5Dget_space(hid_t ds) {
  hid_t i            = h5shim_::next++;
  h5shim_::spaces[i] = {h5shim_::raws[h5shim_::ids[ds]].dims};
  return i;
}
inline int H5Sget_simple_extent_dims(hid_t sp, hsize_t *d, hsize_t *) {
  auto &s = h5shim_::spaces[sp].dims;
  for (size_t i = 0; i < s.size(); ++i) d[i] = s[i];
  return s.size();
}
