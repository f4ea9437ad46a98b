// What native columns owe features
#pragma once
#include "util.h"

namespace vf {

// Ordinates by name; what a dimension does not have is NaN
inline C4 MapCoord(const C4& c, int src, int dst) {
  double x = c[0], y = c[1], z = NAN, m = NAN;
  if (src == 2) z = c[2];
  if (src == 3) m = c[2];
  if (src == 4) z = c[2], m = c[3];
  C4 o{x, y, 0, 0};
  if (dst == 2) o[2] = z;
  if (dst == 3) o[2] = m;
  if (dst == 4) o[2] = z, o[3] = m;
  return o;
}

// A column that cannot hold the feature rejects it; EITHER: not specified
enum Fit { FIT, REJECT, EITHER };

inline std::vector<C4> MapSeq(const std::vector<C4>& s, int src, int dst) {
  std::vector<C4> o;
  for (auto& c : s) o.push_back(MapCoord(c, src, dst));
  return o;
}

inline void AllCoords(const G& g, int dst, std::vector<C4>* out) {
  for (auto& c : g.coords) out->push_back(MapCoord(c, g.dims, dst));
  for (auto& r : g.rings)
    for (auto& c : r) out->push_back(MapCoord(c, g.dims, dst));
  for (auto& k : g.kids) AllCoords(k, dst, out);
}

// The geometry of type gt/dims that a native column holds for g.  drop: parts
// without coordinates are left out (the visitor path).
inline Fit ToNative(const G& g, int gt, int dims, bool drop, G* out) {
  G o;
  o.type = gt;
  o.dims = dims;
  std::vector<C4> all;
  AllCoords(g, dims, &all);
  C4 nan{NAN, NAN, NAN, NAN};
  auto ls = [&](const G& k) {
    G l;
    l.type = LS;
    l.dims = dims;
    l.coords = MapSeq(k.coords, k.dims, dims);
    return l;
  };
  auto pg = [&](const G& k) {
    G p;
    p.type = PG;
    p.dims = dims;
    for (auto& r : k.rings)
      if (!drop || !r.empty()) p.rings.push_back(MapSeq(r, k.dims, dims));
    return p;
  };
  if (gt == PT) {
    if (all.size() > 1) return REJECT;
    o.coords = {all.empty() ? nan : all[0]};
    *out = o;
    return FIT;
  }
  if (all.empty() && !drop) {  // EMPTY of any type is EMPTY
    *out = o;
    return FIT;
  }
  Fit fit = REJECT;
  switch (gt) {
    case LS:
      if (g.type == LS) {
        o.coords = ls(g).coords;
        fit = FIT;
      } else if (g.type == MLS) {
        if (g.kids.size() <= 1) {
          if (g.kids.size()) o.coords = ls(g.kids[0]).coords;
          fit = FIT;
        }
      } else if (drop) {
        fit = EITHER;
      }
      break;
    case PG:
      if (g.type == PG) {
        o = pg(g);
        fit = FIT;
      } else if (g.type == MPG) {
        size_t n = 0;
        for (auto& k : g.kids)
          if (!drop || CoordCount(k)) n++, o = pg(k);
        if (n <= 1) fit = FIT;
      } else if (drop) {
        fit = EITHER;
      }
      break;
    case MPT:
      if (g.type == PT || g.type == MPT) {
        for (auto& c : all) {
          G p;
          p.type = PT;
          p.dims = dims;
          p.coords = {c};
          o.kids.push_back(p);
        }
        fit = FIT;
      } else if (drop) {
        fit = EITHER;
      }
      break;
    case MLS:
      if (g.type == LS) {
        if (!drop || g.coords.size()) o.kids.push_back(ls(g));
        fit = FIT;
      } else if (g.type == MLS) {
        for (auto& k : g.kids)
          if (!drop || k.coords.size()) o.kids.push_back(ls(k));
        fit = FIT;
      } else if (drop) {
        fit = EITHER;
      }
      break;
    case MPG:
      if (g.type == PG) {
        if (!drop || CoordCount(g)) o.kids.push_back(pg(g));
        fit = FIT;
      } else if (g.type == MPG) {
        for (auto& k : g.kids)
          if (!drop || CoordCount(k)) o.kids.push_back(pg(k));
        fit = FIT;
      } else if (drop) {
        fit = EITHER;
      }
      break;
  }
  *out = o;
  return fit;
}

}  // namespace vf
