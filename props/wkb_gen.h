// Byte strings shaped like WKB
#pragma once
#include "util.h"

namespace vf {

inline void PutLE(std::string& s, uint32_t v, int e) {
  for (int i = 0; i < 4; i++) s += (char)(v >> (e ? 8 * i : 24 - 8 * i));
}

inline uint32_t GenCount(Tape& t) {
  static const uint32_t k[] = {0, 1, 2, 3, 4, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x10000000,
                               0x20000000, 0x08000000, 0x40000000, 0x0aaaaaab, 0x15555556,
                               0x05555556, 0x10000001, 0x20000001, 0x08000001, 65536, 1000};
  return k[t.Below(sizeof(k) / sizeof(k[0]))];
}

inline uint32_t GenTypeCode(Tape& t) {
  uint32_t ty = (uint32_t)t.Below(9);
  ty += 1000 * (uint32_t)t.Below(5);
  if (t.Chance(1, 4)) ty |= 0x80000000u;
  if (t.Chance(1, 4)) ty |= 0x40000000u;
  if (t.Chance(1, 6)) ty |= 0x20000000u;
  if (t.Chance(1, 16)) ty = (uint32_t)t.Bits(4);
  return ty;
}

inline std::string GenBytes(Tape& t, Ctx& c) {
  std::string s;
  switch (t.Below(5)) {
    case 0: {  // grammar-shaped noise
      c.label("shaped noise");
      int n = (int)t.Range(0, 12);
      int e = 1;
      for (int i = 0; i < n; i++) {
        switch (t.Below(4)) {
          case 0:
            e = (int)t.Below(2);
            s += (char)e;
            PutLE(s, GenTypeCode(t), e);
            break;
          case 1:
            PutLE(s, GenCount(t), e);
            break;
          case 2:
            s += t.BytesString((size_t)t.Range(0, 20));
            break;
          default:
            s += std::string(8 * (size_t)t.Range(1, 8), (char)t.Byte());
        }
      }
      return s;
    }
    case 1: {  // nesting
      c.label("nested");
      static const int k[] = {30, 31, 32, 33, 100, 250, 253, 254, 255, 256, 257, 258, 300, 600};
      int depth = t.Chance(1, 2) ? k[t.Below(14)] : (int)t.Range(1, 40);
      int e = (int)t.Below(2);
      for (int i = 0; i < depth; i++) {
        s += (char)e;
        PutLE(s, 7, e);
        PutLE(s, 1, e);
      }
      G g = GenSimple(t, (int)t.Below(6) + 1, (int)t.Below(4) + 1, GenOpt());
      WkbOpt o;
      s += RefWkb(g, o);
      break;
    }
    default: {
      c.label("mutated");
      GenOpt o;
      o.huge = true;
      o.mixed_dims = t.Chance(1, 4);
      o.mixed_multi = o.mixed_dims && t.Coin();
      o.max_coords = 12;
      WkbOpt w;
      w.mixed_endian = t.Coin();
      w.endian = (int)t.Below(2);
      s = RefWkb(GenG(t, o), w, &t);
    }
  }
  int nmut = (int)t.Below(4);
  for (int i = 0; i < nmut; i++) {
    size_t at = s.empty() ? 0 : (size_t)t.Below(s.size());
    switch (t.Below(7)) {
      case 0:  // cut the tail
        s.resize(at);
        c.label("truncated");
        break;
      case 1:  // cut off a few bytes
        s.resize(s.size() - std::min<size_t>(s.size(), (size_t)t.Range(1, 40)));
        c.label("truncated");
        break;
      case 2:
        if (!s.empty()) s[at] = (char)t.Byte();
        break;
      case 3:
        if (!s.empty()) s.erase(at, (size_t)t.Range(1, 9));
        break;
      case 4:
        s.insert(at, t.BytesString((size_t)t.Range(1, 9)));
        break;
      case 5:
        if (s.size() >= at + 4) {
          std::string v;
          PutLE(v, GenCount(t), (int)t.Below(2));
          s.replace(at, 4, v);
        }
        break;
      default: {  // a count or type code near the start
        size_t k = s.size() < 9 ? 0 : (t.Coin() ? 1 : 5);
        if (s.size() >= k + 4) {
          std::string v;
          PutLE(v, k == 1 ? GenTypeCode(t) : GenCount(t), s[0] == 1);
          s.replace(k, 4, v);
        }
      }
    }
  }
  return s;
}

inline int Levels(const G& g) {  // deepest node level used
  int d = 0;
  if (g.type == PG) return g.rings.empty() ? 0 : 1;
  for (auto& k : g.kids) d = std::max(d, Levels(k) + 1);
  return d;
}
// deepest level of a polygon or collection node
inline int ContainerLevel(const G& g, int level) {
  int d = g.type >= PG ? level : -1;
  for (auto& k : g.kids) d = std::max(d, ContainerLevel(k, level + 1));
  return d;
}

}  // namespace vf
