// Columns of any encoding, and kernels
#pragma once
#include "util.h"

namespace vf {

// An input column: features encoded as `type` (WKB/WKT families or native)
struct SourceColumn {
  std::unique_ptr<RefArray> arr;
  SchemaHolder schema;
  int type;
  static std::string NumTok(double v, void*) { return RefNum17(v, nullptr); }
  SourceColumn(Tape& t, int ty, const std::vector<Feat>& feats, bool offsets = true) : type(ty) {
    NativeOpt no;
    no.offsets = offsets;
    int kind = -1;
    bool wkt = false;
    switch (ty) {
      case GEOARROW_TYPE_WKB: kind = 0; break;
      case GEOARROW_TYPE_LARGE_WKB: kind = 1; break;
      case GEOARROW_TYPE_WKB_VIEW: kind = 2; break;
      case GEOARROW_TYPE_WKT: kind = 0, wkt = true; break;
      case GEOARROW_TYPE_LARGE_WKT: kind = 1, wkt = true; break;
      case GEOARROW_TYPE_WKT_VIEW: kind = 2, wkt = true; break;
      default: break;
    }
    if (kind < 0) {
      arr = BuildNative(t, (enum GeoArrowType)ty, feats, no);
    } else {
      std::vector<std::string> items;
      std::vector<bool> nulls;
      for (auto& f : feats) {
        nulls.push_back(f.null);
        if (f.null) {
          items.push_back("");
        } else if (wkt) {
          WktStyle s;
          s.flat_multipoint = t.Coin();
          items.push_back(RefWkt(f.g, s, &t, NumTok, nullptr));
        } else {
          WkbOpt w;
          w.endian = (int)t.Below(2);
          w.flavor = (int)t.Below(2);
          items.push_back(RefWkb(f.g, w, &t));
        }
      }
      arr = BuildBinary(t, kind, items, nulls, no);
    }
    VF_CHECK(GeoArrowSchemaInitExtension(&schema.s, (enum GeoArrowType)ty) == 0,
             "SchemaInitExtension(%d)", ty);
  }
};

// Picks an encoding for a random column and restricts what it may contain
inline int PickSource(Tape& t, GenOpt* o) {
  static const int kSer[] = {GEOARROW_TYPE_WKB,      GEOARROW_TYPE_WKT,
                             GEOARROW_TYPE_LARGE_WKB, GEOARROW_TYPE_LARGE_WKT,
                             GEOARROW_TYPE_WKB_VIEW,  GEOARROW_TYPE_WKT_VIEW};
  if (t.Coin()) {
    o->mixed_dims = o->dims == 0 && t.Chance(1, 3);
    return kSer[t.Below(6)];
  }
  int st = t.Pick(o->types);
  if (st == GC) st = MPG;
  o->types = {st};
  if (!o->dims) o->dims = (int)t.Range(1, 4);
  o->empty_point_members = false;
  return MakeT(st, o->dims, (int)t.Range(1, 2));
}
inline bool IsWktType(int type) {
  return type == GEOARROW_TYPE_WKT || type == GEOARROW_TYPE_LARGE_WKT || type == GEOARROW_TYPE_WKT_VIEW;
}
inline bool IsSerialized(int type) { return type >= GEOARROW_TYPE_WKB; }
// What such a column can say about a feature: outside WKT an empty point is
// a point with all ordinates NaN
inline Feat Carried(const Feat& f, int type) {
  Feat r = f;
  if (!f.null && !IsWktType(type)) r.g = WkbForm(f.g);
  return r;
}

// Arrow schema metadata encoding (int32 count, then length-prefixed pairs)
inline std::string EncodeOptions(const std::vector<std::pair<std::string, std::string>>& kv) {
  std::string s;
  auto i32 = [&](int32_t v) { s.append((const char*)&v, 4); };
  i32((int32_t)kv.size());
  for (auto& p : kv) {
    i32((int32_t)p.first.size());
    s += p.first;
    i32((int32_t)p.second.size());
    s += p.second;
  }
  return s;
}

struct KernelHolder {
  struct GeoArrowKernel k;
  struct GeoArrowError err;
  explicit KernelHolder(const char* name, const char* options = nullptr) {
    memset(&k, 0, sizeof(k));
    err.message[0] = 0;
    int rc = GeoArrowKernelInit(&k, name, options);
    VF_CHECK(rc == 0, "KernelInit(%s): %d", name, rc);
  }
  ~KernelHolder() {
    if (k.release) k.release(&k);
  }
  int TryStart(struct ArrowSchema* s, const std::vector<std::pair<std::string, std::string>>& opts,
               struct ArrowSchema* out) {
    std::string o = EncodeOptions(opts);
    Exact eo(o);
    err.message[0] = 0;
    return k.start(&k, s, opts.empty() ? nullptr : (const char*)eo.p, out, &err);
  }
  void Start(struct ArrowSchema* s, const std::vector<std::pair<std::string, std::string>>& opts,
             struct ArrowSchema* out) {
    int rc = TryStart(s, opts, out);
    VF_CHECK(rc == 0, "kernel start: %d %s", rc, err.message);
  }
  void Push(struct ArrowArray* in, struct ArrowArray* out) {
    err.message[0] = 0;
    int rc = k.push_batch(&k, in, out, &err);
    VF_CHECK(rc == 0, "kernel push_batch: %d %s", rc, err.message);
  }
  void FinishNone() {
    int rc = k.finish(&k, nullptr, &err);
    VF_CHECK(rc == 0, "kernel finish: %d %s", rc, err.message);
  }
  void Finish(struct ArrowArray* out) {
    int rc = k.finish(&k, out, &err);
    VF_CHECK(rc == 0, "kernel finish: %d %s", rc, err.message);
  }
};

}  // namespace vf
