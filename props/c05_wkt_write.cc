// C05: WKT writing
#include "numfmt.h"
using namespace vf;

static void Run(Ctx& c) {
  Tape& t = c.t;
  Live live;
  {
    GenOpt o;
    o.huge = true;
    o.mixed_dims = t.Chance(1, 4);
    o.max_depth = (int)t.Range(1, 6);
    WktWriter w;
    WktReader rd;
    static const int kP[] = {16, 16, 16, 0, 1, 2, 3, 6, 10, 15, -1, 17, 40};
    int prec = kP[t.Below(13)];
    bool set = t.Coin();
    int flat = (int)t.Below(2);
    if (set) {
      w.w.precision = prec;
      w.w.use_flat_multipoint = flat;
    } else {
      prec = 16;
      flat = 1;
    }
    if (prec < 0 || prec > 16) prec = 16;
    c.note(strf("precision %d flat %d", prec, flat));
    int batches = GenBatches(t, 2);
    bool nt = false;
    std::string key;
    for (int b = 0; b < batches; b++) {
      struct GeoArrowVisitor v;
      struct GeoArrowError err;
      err.message[0] = 0;
      GeoArrowWKTWriterInitVisitor(&w.w, &v);
      v.error = &err;
      std::vector<Feat> feats = GenFeats(t, o, 8);
      c.note(ShowFeats(feats));
      for (auto& f : feats) {
        int rc;
        if (!f.null && t.Chance(1, 4)) {  // through a geometry view
          NodeGeom ng;
          BuildNodes(f.g, &ng, &t);
          rc = GeoArrowGeometryViewVisit(ng.View(), &v);
          c.label("from geometry view");
        } else {
          rc = Emit(f, &v, &t);
        }
        VF_CHECK(rc == 0, "writer visitor returned %d %s", rc, err.message);
        if (!f.null) {
          c.label(TypeName(f.g.type));
          if (NodeCount(f.g) > 1 || CoordCount(f.g) > 1) nt = true;
        }
      }
      key += FeatsKey(feats) + "/";
      ArrayHolder arr;
      int rc = GeoArrowWKTWriterFinish(&w.w, &arr.a, &err);
      VF_CHECK(rc == 0, "finish: %d %s", rc, err.message);
      auto items = ReadBinary(&arr.a, 0);
      VF_CHECK(items.size() == feats.size(), "%zu items for %zu features", items.size(), feats.size());
      int64_t nulls = 0;
      for (size_t i = 0; i < feats.size(); i++) {
        VF_CHECK(items[i].null == feats[i].null, "feature %zu: null %d, item null %d", i,
                 feats[i].null, items[i].null);
        nulls += feats[i].null;
        if (feats[i].null) continue;
        std::string e = CheckWktText(items[i].value, feats[i].g, flat, prec);
        VF_CHECK(e.empty(), "feature %zu: %s\n written: %s", i, e.c_str(),
                 Quote(items[i].value, 2000).c_str());
        // and back through the reader
        Exact buf(items[i].value);
        Recorder rec;
        rc = GeoArrowWKTReaderVisit(&rd.r, buf.Str(), &rec.v);
        VF_CHECK(rc == 0, "own output rejected: %d %s\n%s", rc, rec.error.message,
                 Quote(items[i].value, 2000).c_str());
        CheckRecorder(rec, "reread");
        G model;
        VF_CHECK(RefWktParse(items[i].value, &model, &e), "%s", e.c_str());
        std::string why;
        VF_CHECK(SameFeats(rec.feats, OneFeat(model), &why), "reread: %s\n%s", why.c_str(),
                 Quote(items[i].value, 2000).c_str());
      }
      VF_CHECK(arr.a.null_count == nulls || arr.a.null_count == -1, "null_count %lld, %lld nulls",
               (long long)arr.a.null_count, (long long)nulls);
      if (b) c.label("later batch");
      if (nulls) c.label("with nulls");
    }
    if (nt) c.nontrivial(key + strf("%d%d", prec, flat));
  }
  live.Check("WKT writer");
}

// A batch of exactly as many bytes as offsets can say, and of one more
static void Big(int which, Ctx& c) {
  Live live;
  {
    WktWriter w;
    struct GeoArrowVisitor v;
    struct GeoArrowError err;
    err.message[0] = 0;
    GeoArrowWKTWriterInitVisitor(&w.w, &v);
    v.error = &err;
    // "GEOMETRYCOLLECTION (MULTILINESTRING ZM EMPTY, ...)", "POINT EMPTY" (11), "LINESTRING EMPTY" (16)
    static const char member[] = "MULTILINESTRING ZM EMPTY, ";
    const int64_t len = sizeof(member) - 1;
    int64_t target = (int64_t)INT32_MAX + which;
    int64_t n = (target - 1000) / len, rest = target - (20 + n * len - 2 + 1), a = 0;
    while ((rest - 11 * a) % 16) a++;
    int64_t b = (rest - 11 * a) / 16;
    VF_CHECK(b >= 0, "sizes");
    c.note(strf("a collection of %lld members and %lld + %lld short rows: %lld bytes", (long long)n, (long long)a,
                (long long)b, (long long)target));
    int rc = 0;
    auto empty = [&](enum GeoArrowGeometryType type, enum GeoArrowDimensions dims) {
      if (!rc) rc = v.geom_start(&v, type, dims);
      if (!rc) rc = v.geom_end(&v);
    };
    for (int64_t i = 0; i < a + b && !rc; i++) {
      rc = v.feat_start(&v);
      empty(i < a ? GEOARROW_GEOMETRY_TYPE_POINT : GEOARROW_GEOMETRY_TYPE_LINESTRING, GEOARROW_DIMENSIONS_XY);
      if (!rc) rc = v.feat_end(&v);
    }
    if (!rc) rc = v.feat_start(&v);
    if (!rc) rc = v.geom_start(&v, GEOARROW_GEOMETRY_TYPE_GEOMETRYCOLLECTION, GEOARROW_DIMENSIONS_XY);
    for (int64_t i = 0; i < n && !rc; i++) empty(GEOARROW_GEOMETRY_TYPE_MULTILINESTRING, GEOARROW_DIMENSIONS_XYZM);
    if (!rc) rc = v.geom_end(&v);
    if (!rc) rc = v.feat_end(&v);
    ArrayHolder arr;
    if (!rc) rc = GeoArrowWKTWriterFinish(&w.w, &arr.a, &err);
    if (rc == ENOMEM) throw NoMemory();
    if (target > INT32_MAX) {
      VF_CHECK(rc != 0 && !arr.a.release, "a batch of %lld bytes: %d", (long long)target, rc);
      c.nontrivial("above the limit");
      return;
    }
    VF_CHECK(rc == 0, "a batch of %lld bytes: %d %s", (long long)target, rc, err.message);
    const int32_t* off = (const int32_t*)arr.a.buffers[1];
    const char* data = (const char*)arr.a.buffers[2];
    VF_CHECK(arr.a.length == a + b + 1, "%lld rows", (long long)arr.a.length);
    for (int64_t i = 0; i <= a + b; i++)
      VF_CHECK(off[i] == (i < a ? i * 11 : a * 11 + (i - a) * 16), "offset %lld is %d", (long long)i, off[i]);
    VF_CHECK(off[a + b + 1] == target, "last offset %d", off[a + b + 1]);
    data += off[a + b];
    VF_CHECK(!memcmp(data, "GEOMETRYCOLLECTION (", 20), "start of the collection");
    data += 20;
    for (int64_t i = 0; i < n; i++)
      VF_CHECK(!memcmp(data + i * len, member, (size_t)(i + 1 < n ? len : len - 2)), "member %lld", (long long)i);
    VF_CHECK(data[n * len - 2] == ')', "end of the collection");
    c.nontrivial("at the limit");
  }
  live.Check("big WKT");
}

VF_PROP_BIG("C05", Run,
        "batches of random geometries of all types/dimensions (nested, empties, nulls, any "
        "ordinates) driven through the WKT writer in random coordinate chunks and layouts at "
        "random precision/multipoint style; output compared token by token with the model and "
        "reread. Non-trivial: some geometry has members or more than one coordinate",
            Big, 2)
