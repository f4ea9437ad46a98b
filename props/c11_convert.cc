// C11: conversion between encodings
#include "kernel_util.h"
#include "native_util.h"
#include "numfmt.h"
using namespace vf;

static std::map<std::string, std::string> SchemaMeta(const struct ArrowSchema* s) {
  std::map<std::string, std::string> out;
  if (!s->metadata) return out;
  const char* p = s->metadata;
  auto i32 = [&] {
    int32_t v;
    memcpy(&v, p, 4);
    p += 4;
    return v;
  };
  int n = i32();
  for (int i = 0; i < n; i++) {
    int k = i32();
    std::string key(p, k);
    p += k;
    int v = i32();
    out[key] = std::string(p, v);
    p += v;
  }
  return out;
}

static void Run(Ctx& c) {
  Tape& t = c.t;
  Live live;
  {
    // target
    int target, gt = 0, dims = 0;
    switch (t.Below(4)) {
      case 0: target = GEOARROW_TYPE_WKB; break;
      case 1: target = GEOARROW_TYPE_WKT; break;
      default:
        gt = (int)t.Range(1, 6), dims = (int)t.Range(1, 4);
        target = MakeT(gt, dims, (int)t.Range(1, 2));
    }
    // source
    static const int kSer[] = {GEOARROW_TYPE_WKB,      GEOARROW_TYPE_WKT,
                               GEOARROW_TYPE_LARGE_WKB, GEOARROW_TYPE_LARGE_WKT,
                               GEOARROW_TYPE_WKB_VIEW,  GEOARROW_TYPE_WKT_VIEW};
    static const std::vector<int> kNear[] = {{PT, LS, PG, MPT, MLS, MPG, GC}, {PT}, {LS, MLS}, {PG, MPG},
                                             {PT, MPT}, {LS, MLS}, {PG, MPG}};
    GenOpt o;
    o.huge = true;
    o.max_depth = 3;
    o.types = gt && t.Chance(3, 4) ? std::vector<int>{gt} : kNear[t.Chance(1, 12) ? 0 : gt];
    if (gt && t.Coin()) o.dims = dims;
    int source;
    bool src_wkt = false;
    if (t.Coin()) {
      int k = (int)t.Below(6);
      source = kSer[k];
      src_wkt = k & 1;
      o.mixed_dims = o.dims == 0 && t.Chance(1, 4);
    } else {
      int st = t.Pick(o.types);
      if (st == GC) st = MPG;
      o.types = {st};
      if (!o.dims) o.dims = (int)t.Range(1, 4);
      source = MakeT(st, o.dims, (int)t.Range(1, 2));
      o.empty_point_members = false;
    }
    c.note(strf("type %d to type %d", source, target));
    int batches = GenBatches(t, 2);
    int route = (int)t.Below(2);  // kernel, reader to writer
    struct GeoArrowError err;
    err.message[0] = 0;
    std::unique_ptr<KernelHolder> kernel;
    struct GeoArrowArrayReader ar;
    struct GeoArrowArrayWriter aw;
    struct GeoArrowVisitor v;
    memset(&v, 0, sizeof(v));
    bool have_rw = false;
    struct Guard {
      std::function<void()> f;
      ~Guard() { f(); }
    } guard{[&] {
      if (have_rw) GeoArrowArrayReaderReset(&ar), GeoArrowArrayWriterReset(&aw);
    }};
    SchemaHolder os, is;
    // schema with a CRS and edges
    VF_CHECK(GeoArrowSchemaInitExtension(&is.s, (enum GeoArrowType)source) == 0, "schema");
    static const char* kMeta[] = {"{}", "{\"crs\":\"EPSG:4326\"}", "{\"edges\":\"spherical\"}",
                                  "{\"crs\":{\"a\":[1,\"}\"]},\"edges\":\"vincenty\"}"};
    const char* meta = kMeta[t.Below(4)];
    struct GeoArrowMetadataView mv;
    struct GeoArrowStringView ms{meta, (int64_t)strlen(meta)};
    VF_CHECK(GeoArrowMetadataViewInit(&mv, ms, &err) == 0, "metadata view: %s", err.message);
    VF_CHECK(GeoArrowSchemaSetMetadata(&is.s, &mv) == 0, "set metadata");
    if (route == 0) {
      kernel.reset(new KernelHolder("as_geoarrow"));
      kernel->Start(&is.s, {{"type", std::to_string(target)}}, &os.s);
      struct GeoArrowSchemaView sv;
      VF_CHECK(GeoArrowSchemaViewInit(&sv, &os.s, &err) == 0, "output schema: %s", err.message);
      VF_CHECK((int)sv.type == target, "output schema is of type %d", sv.type);
      auto a = SchemaMeta(&is.s), b = SchemaMeta(&os.s);
      VF_CHECK(a["ARROW:extension:metadata"] == b["ARROW:extension:metadata"],
               "metadata %s became %s", a["ARROW:extension:metadata"].c_str(),
               b["ARROW:extension:metadata"].c_str());
    } else {
      int rc = GeoArrowArrayReaderInitFromSchema(&ar, &is.s, &err);
      VF_CHECK(rc == 0, "reader: %d %s", rc, err.message);
      rc = GeoArrowArrayWriterInitFromType(&aw, (enum GeoArrowType)target);
      if (rc) GeoArrowArrayReaderReset(&ar);
      VF_CHECK(rc == 0, "writer: %d", rc);
      have_rw = true;
      rc = GeoArrowArrayWriterInitVisitor(&aw, &v);
      VF_CHECK(rc == 0, "visitor: %d", rc);
      v.error = &err;
    }
    bool nt = false;
    std::string key = strf("%d>%d:", source, target);
    for (int b = 0; b < batches; b++) {
      std::vector<Feat> feats = GenFeats(t, o, 8);
      std::vector<Feat> form, want;
      bool reject = false, either = false;
      for (auto& f : feats) {
        Feat s = f;
        if (!s.null && !src_wkt) s.g = WkbForm(s.g);
        form.push_back(s);
        Feat w = s;
        if (!s.null) {
          if (gt) {
            Fit fit = ToNative(s.g, gt, dims, true, &w.g);
            if (fit == REJECT) reject = true;
            if (fit == EITHER) either = true;
          } else if (target == GEOARROW_TYPE_WKB) {
            w.g = WkbForm(s.g);
          }
        } else {
          w.g = G();
        }
        want.push_back(w);
        if (!s.null && CoordCount(s.g) > 1) nt = true;
      }
      c.note(ShowFeats(feats));
      if (either) {
        c.label("unspecified conversion");
        nt = false;
        break;
      }
      SourceColumn src(t, source, form);
      ArrayHolder out;
      int rc;
      err.message[0] = 0;
      if (route == 0) {
        rc = kernel->k.push_batch(&kernel->k, &src.arr->a, &out.a, &err);
      } else {
        rc = GeoArrowArrayReaderSetArray(&ar, &src.arr->a, &err);
        VF_CHECK(rc == 0, "SetArray: %d %s", rc, err.message);
        rc = GeoArrowArrayReaderVisit(&ar, 0, (int64_t)feats.size(), &v);
        if (!reject) {
          VF_CHECK(rc == 0, "visit: %d %s", rc, err.message);
          rc = GeoArrowArrayWriterFinish(&aw, &out.a, &err);
        }
      }
      if (reject) {
        VF_CHECK(rc != 0, "a feature that type %d cannot hold was converted", target);
        VF_CHECK(err.message[0], "rejected without a message");
        c.label("rejected");
        nt = false;
        break;
      }
      VF_CHECK(rc == 0, "convert: %d %s", rc, err.message);
      std::string why;
      if (gt) {
        for (auto& w : want)
          if (w.null) w.g.type = gt, w.g.dims = dims;
        std::vector<Feat> got = ReadNative(&out.a, (enum GeoArrowType)target);
        VF_CHECK(SameFeats(got, want, &why), "batch %d: %s", b, why.c_str());
      } else {
        auto items = ReadBinary(&out.a, 0);
        VF_CHECK(items.size() == want.size(), "%zu items for %zu rows", items.size(), want.size());
        for (size_t i = 0; i < items.size(); i++) {
          VF_CHECK(items[i].null == want[i].null, "row %zu: null %d, was %d", i, items[i].null,
                   want[i].null);
          if (want[i].null) continue;
          if (target == GEOARROW_TYPE_WKT) {
            std::string e = CheckWktText(items[i].value, want[i].g, true, 16);
            VF_CHECK(e.empty(), "row %zu: %s\n%s", i, e.c_str(), Quote(items[i].value).c_str());
          } else {
            G got;
            size_t used = 0;
            WkbStatus st = RefWkbDecode((const uint8_t*)items[i].value.data(),
                                        items[i].value.size(), &got, &used);
            VF_CHECK(st == WKB_OK && used == items[i].value.size(), "row %zu: malformed WKB", i);
            VF_CHECK(SameG(got, want[i].g, &why), "row %zu: %s", i, why.c_str());
          }
        }
      }
      int64_t nulls = 0;
      for (auto& w : want) nulls += w.null;
      VF_CHECK(out.a.null_count == nulls || out.a.null_count == -1, "null_count %lld, %lld nulls",
               (long long)out.a.null_count, (long long)nulls);
      if (b) c.label("later batch");
      if (nulls) c.label("with nulls");
      key += FeatsKey(form) + "/";
    }
    if (route == 0) {
      kernel->FinishNone();
      c.label("as_geoarrow kernel");
    } else {
      c.label("reader to writer");
    }
    c.label(gt ? "to native" : target == GEOARROW_TYPE_WKB ? "to WKB" : "to WKT");
    c.label(src_wkt ? "from WKT" : source >= 100000 ? "from WKB" : "from native");
    if (nt) c.nontrivial(key);
  }
  live.Check("conversion");
}

VF_PROP("C11", Run,
        "random columns of 6 serialized and 48 native types converted to WKB, WKT and native types by "
        "the as_geoarrow kernel or by a reader driving a writer, in several batches, with offsets, "
        "nulls, CRS and edge metadata. Non-trivial: some feature has several coordinates and the "
        "conversion is specified")
