// Thin helpers around the public API shared by the properties
#pragma once
#include <cerrno>

#include "core.h"
#include "geoarrow/geoarrow.h"
#include "model.h"

namespace vf {

// Heap copy of exactly n bytes (an access past it is a sanitizer report)
struct Exact {
  uint8_t* p;
  size_t n;
  explicit Exact(const std::string& s) : n(s.size()) {
    p = (uint8_t*)malloc(n ? n : 1);
    if (n) memcpy(p, s.data(), n);
  }
  ~Exact() { free(p); }
  Exact(const Exact&) = delete;
  struct GeoArrowBufferView View() const {
    struct GeoArrowBufferView v;
    v.data = p;
    v.size_bytes = (int64_t)n;
    return v;
  }
  struct GeoArrowStringView Str() const {
    struct GeoArrowStringView v;
    v.data = (const char*)p;
    v.size_bytes = (int64_t)n;
    return v;
  }
};

struct WkbReader {
  struct GeoArrowWKBReader r;
  WkbReader() { VF_CHECK(GeoArrowWKBReaderInit(&r) == 0, "init"); }
  ~WkbReader() { GeoArrowWKBReaderReset(&r); }
};
struct WktReader {
  struct GeoArrowWKTReader r;
  WktReader() { VF_CHECK(GeoArrowWKTReaderInit(&r) == 0, "init"); }
  ~WktReader() { GeoArrowWKTReaderReset(&r); }
};

inline void CheckRecorder(const Recorder& r, const char* what) {
  VF_CHECK(r.protocol_error.empty(), "%s: visitor protocol: %s", what, r.protocol_error.c_str());
  VF_CHECK(r.Complete(), "%s: unfinished feature", what);
}

inline std::vector<Feat> OneFeat(const G& g) {
  Feat f;
  f.g = g;
  return {f};
}

inline std::string ShowFeats(const std::vector<Feat>& fs, size_t max = 6) {
  std::string s = strf("%zu features", fs.size());
  for (size_t i = 0; i < fs.size() && i < max; i++) s += "\n  " + Show(fs[i]).substr(0, 700);
  return s;
}
inline std::string FeatsKey(const std::vector<Feat>& fs) {
  std::string s;
  for (auto& f : fs) s += f.null ? "N;" : ShapeKey(f.g) + ";";
  return s;
}

struct ArrayHolder {
  struct ArrowArray a;
  ArrayHolder() { memset(&a, 0, sizeof(a)); }
  ~ArrayHolder() { Release(); }
  void Release() {
    if (a.release) a.release(&a);
  }
};
struct SchemaHolder {
  struct ArrowSchema s;
  SchemaHolder() { memset(&s, 0, sizeof(s)); }
  ~SchemaHolder() { Release(); }
  void Release() {
    if (s.release) s.release(&s);
  }
};

// A stand-in for the leak counter that survives early failures
struct Live {
  LeakCheck lc;
  void Check(const char* w) { lc.Check(w); }
};

}  // namespace vf
