// C18: unique geometry types kernel
#include "kernel_util.h"
using namespace vf;

static bool AnyCoord(const G& g) {
  if (!g.coords.empty()) return true;
  for (auto& r : g.rings)
    if (!r.empty()) return true;
  for (auto& k : g.kids)
    if (AnyCoord(k)) return true;
  return false;
}

static void Run(Ctx& c) {
  Tape& t = c.t;
  Live live;
  {
    GenOpt o;
    o.huge = true;
    if (t.Chance(1, 3)) o.mixed_dims = true;
    if (t.Chance(1, 4)) o.dims = (int)t.Range(1, 4);
    int type = PickSource(t, &o);
    c.note(strf("type %d", type));
    SchemaHolder is, os;
    VF_CHECK(GeoArrowSchemaInitExtension(&is.s, (enum GeoArrowType)type) == 0, "schema");
    KernelHolder k("unique_geometry_types_agg");
    k.Start(&is.s, {}, &os.s);
    VF_CHECK(os.s.format && !strcmp(os.s.format, "i"), "output format %s", os.s.format);
    std::set<int> want;
    int batches = t.Chance(1, 12) ? 0 : GenBatches(t, 3);
    std::string key = std::to_string(type);
    for (int i = 0; i < batches; i++) {
      auto feats = GenFeats(t, o, 10);
      c.note(ShowFeats(feats, 4));
      for (auto& f : feats) {
        Feat x = Carried(f, type);
        if (!x.null && AnyCoord(x.g)) want.insert((x.g.dims - 1) * 1000 + x.g.type);
      }
      key += FeatsKey(feats);
      SourceColumn col(t, type, feats);
      k.Push(&col.arr->a, nullptr);
    }
    ArrayHolder out;
    k.Finish(&out.a);
    const struct ArrowArray& a = out.a;
    VF_CHECK(a.n_buffers == 2 && a.n_children == 0 && a.null_count == 0 && a.length >= 0, "not an int32 array");
    std::vector<int> got;
    for (int64_t i = 0; i < a.length; i++) got.push_back(((const int32_t*)a.buffers[1])[a.offset + i]);
    VF_CHECK(got == std::vector<int>(want.begin(), want.end()), "%zu types, not %zu (first %d, %d)",
             got.size(), want.size(), got.empty() ? -1 : got[0], want.empty() ? -1 : *want.begin());
    c.label(IsWktType(type) ? "WKT" : IsSerialized(type) ? "WKB" : "native");
    if (want.size() > 1 || (want.size() == 1 && !IsSerialized(type))) c.nontrivial(key);
  }
  live.Check("unique geometry types");
}

VF_PROP("C18", Run,
        "random columns (WKB, WKT, native) of mixed types and dimensions, empties and nulls, in several "
        "batches. Non-trivial: more than one type among the features, or a native column with a "
        "coordinate")
