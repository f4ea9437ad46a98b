// Helpers for the C++ headers
#pragma once
#include <cmath>
#include <cstring>
#include <new>

#include "geoarrow/geoarrow.hpp"
#include "native_util.h"

namespace vf {
namespace au = geoarrow::array_util;

// A default-initialized T in storage that was not zero before
template <typename T>
struct Fresh {
  alignas(T) unsigned char buf[sizeof(T)];
  T* p;
  Fresh() {
    volatile unsigned char* b = buf;
    for (size_t i = 0; i < sizeof(T); i++) b[i] = 0xA7;
    p = new (buf) T;
  }
  ~Fresh() { p->~T(); }
  Fresh(const Fresh&) = delete;
};

template <typename Coord>
inline std::vector<double> Flat(const Coord& c) {
  return std::vector<double>(c.begin(), c.end());
}

// What a coordinate of dims `dims` looks like as a Dst
template <typename Dst>
inline std::vector<double> Want(const C4& c, int dims) {
  C4 m = MapCoord(c, dims, (int)Dst::dimensions);
  return std::vector<double>(m.begin(), m.begin() + NDim((int)Dst::dimensions));
}
inline bool SameV(const std::vector<double>& a, const std::vector<double>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    if (!SameBits(a[i], b[i])) return false;
  return true;
}
inline std::string ShowV(const std::vector<double>& a) {
  std::string s;
  for (double d : a) s += Dbl(d) + " ";
  return s;
}
using Rows = std::vector<std::vector<double>>;
inline void CheckRows(const Rows& got, const Rows& want, const char* what) {
  for (size_t i = 0; i < got.size() && i < want.size(); i++)
    VF_CHECK(SameV(got[i], want[i]), "%s %zu: got %s, expected %s", what, i, ShowV(got[i]).c_str(),
             ShowV(want[i]).c_str());
  VF_CHECK(got.size() == want.size(), "%s: got %zu, expected %zu", what, got.size(), want.size());
}

// Every coordinate (pair) of a geometry as a Dst (pair), in order
template <typename Dst>
inline void WantVertices(const G& g, Rows* out) {
  for (auto& c : g.coords) out->push_back(Want<Dst>(c, g.dims));
  for (auto& r : g.rings)
    for (auto& c : r) out->push_back(Want<Dst>(c, g.dims));
  for (auto& k : g.kids) WantVertices<Dst>(k, out);
}
template <typename Dst>
inline void WantEdges(const G& g, Rows* out) {
  auto seq = [&](const std::vector<C4>& s, size_t step) {
    for (size_t i = 0; i + step < s.size(); i++) {
      std::vector<double> e = Want<Dst>(s[i], g.dims), f = Want<Dst>(s[i + step], g.dims);
      e.insert(e.end(), f.begin(), f.end());
      out->push_back(e);
    }
  };
  seq(g.coords, g.type == PT ? 0 : 1);
  for (auto& r : g.rings) seq(r, 1);
  for (auto& k : g.kids) WantEdges<Dst>(k, out);
}

template <typename Dst, typename Arr>
inline void CheckVisits(const Arr& arr, const std::vector<Feat>& feats) {
  Rows v, e, wv, we;
  arr.template VisitVertices<Dst>([&](Dst c) { v.push_back(Flat(c)); });
  arr.template VisitEdges<Dst>([&](Dst a, Dst b) {
    auto x = Flat(a), y = Flat(b);
    x.insert(x.end(), y.begin(), y.end());
    e.push_back(x);
  });
  for (auto& f : feats)
    if (!f.null) {
      WantVertices<Dst>(f.g, &wv);
      WantEdges<Dst>(f.g, &we);
    }
  CheckRows(v, wv, "vertex");
  CheckRows(e, we, "edge");
}

}  // namespace vf
