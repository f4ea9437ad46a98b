// C08: WKB writing
#include "numfmt.h"
using namespace vf;

static void Run(Ctx& c) {
  Tape& t = c.t;
  Live live;
  {
    GenOpt o;
    o.huge = true;
    o.mixed_dims = t.Chance(1, 3);
    o.mixed_multi = o.mixed_dims && t.Coin();
    o.max_depth = (int)t.Range(1, 6);
    WkbWriter w;
    WkbReader rd;
    int batches = GenBatches(t, 2);
    bool nt = false;
    std::string key;
    for (int b = 0; b < batches; b++) {
      struct GeoArrowVisitor v;
      struct GeoArrowError err;
      err.message[0] = 0;
      GeoArrowWKBWriterInitVisitor(&w.w, &v);
      v.error = &err;
      std::vector<Feat> feats = GenFeats(t, o, 8);
      c.note(ShowFeats(feats));
      std::vector<int> how;
      for (auto& f : feats) {
        int rc, h = (int)t.Below(3);
        how.push_back(h);
        if (h == 0) {
          rc = Emit(f, &v, &t);
          c.label("visitor");
        } else if (f.null) {
          rc = GeoArrowWKBWriterAppendNull(&w.w);
        } else {
          NodeGeom ng;
          BuildNodes(f.g, &ng, &t);
          if (h == 1) {
            rc = GeoArrowWKBWriterAppend(&w.w, ng.View());
            c.label("append");
          } else {
            rc = GeoArrowGeometryViewVisit(ng.View(), &v);
            c.label("geometry view visit");
          }
        }
        VF_CHECK(rc == 0, "writer returned %d %s (path %d)", rc, err.message, h);
        if (!f.null) {
          c.label(TypeName(f.g.type));
          if (CoordCount(f.g) > 96) c.label("long sequence");
          if (NodeCount(f.g) > 1 || CoordCount(f.g) > 1) nt = true;
        }
      }
      key += FeatsKey(feats) + "/";
      ArrayHolder arr;
      int rc = GeoArrowWKBWriterFinish(&w.w, &arr.a, &err);
      VF_CHECK(rc == 0, "finish: %d %s", rc, err.message);
      auto items = ReadBinary(&arr.a, 0);
      VF_CHECK(items.size() == feats.size(), "%zu items for %zu features", items.size(), feats.size());
      int64_t nulls = 0;
      for (size_t i = 0; i < feats.size(); i++) {
        VF_CHECK(items[i].null == feats[i].null, "feature %zu: null %d, item null %d", i,
                 feats[i].null, items[i].null);
        nulls += feats[i].null;
        if (feats[i].null) continue;
        G form = WkbForm(feats[i].g), got;
        size_t used = 0;
        bool unspec = false;
        WkbStatus st = RefWkbDecode((const uint8_t*)items[i].value.data(), items[i].value.size(), &got,
                                    &used, 1 << 20, &unspec);
        VF_CHECK(st == WKB_OK && !unspec && used == items[i].value.size(),
                 "feature %zu (path %d): not well-formed WKB (status %d, %zu of %zu bytes)\n%s", i,
                 how[i], st, used, items[i].value.size(),
                 Hex(items[i].value.data(), items[i].value.size(), 300).c_str());
        std::string why;
        VF_CHECK(SameG(got, form, &why), "feature %zu (path %d): %s\n%s", i, how[i], why.c_str(),
                 Hex(items[i].value.data(), items[i].value.size(), 300).c_str());
        // ISO codes, no SRID: byte for byte what a plain encoder produces
        WkbOpt wo;
        std::string ref = RefWkb(form, wo, nullptr);
        if (CoordCount(form) == CoordCount(feats[i].g))  // NaN payloads of empty points aside
          VF_CHECK(items[i].value.size() == ref.size(), "feature %zu: %zu bytes, plain ISO WKB has %zu",
                   i, items[i].value.size(), ref.size());
        Exact buf(items[i].value);
        Recorder rec;
        rc = GeoArrowWKBReaderVisit(&rd.r, buf.View(), &rec.v);
        VF_CHECK(rc == 0, "own output rejected: %d %s", rc, rec.error.message);
        CheckRecorder(rec, "reread");
        VF_CHECK(SameFeats(rec.feats, OneFeat(form), &why), "reread: %s", why.c_str());
      }
      VF_CHECK(arr.a.null_count == nulls || arr.a.null_count == -1, "null_count %lld, %lld nulls",
               (long long)arr.a.null_count, (long long)nulls);
      if (b) c.label("later batch");
      if (nulls) c.label("with nulls");
    }
    if (nt) c.nontrivial(key);
  }
  live.Check("WKB writer");
}

// A batch of exactly as many bytes as offsets can say, and of one more
static void Big(int which, Ctx& c) {
  Live live;
  {
    WkbWriter w;
    struct GeoArrowVisitor v;
    struct GeoArrowError err;
    err.message[0] = 0;
    GeoArrowWKBWriterInitVisitor(&w.w, &v);
    v.error = &err;
    // rows: points of 21 bytes, then a linestring of 9 + 16 n
    int64_t target = (int64_t)INT32_MAX + (which == 1);
    int64_t points = which == 0 ? 14 : 11, n = (target - 9 - 21 * points) / 16;
    VF_CHECK(21 * points + 9 + 16 * n == target, "sizes");
    c.note(strf("%lld points and a linestring of %lld coordinates: %lld bytes", (long long)points, (long long)n,
                (long long)target));
    const int64_t kChunk = 65536;
    std::vector<double> xy(kChunk * 2);
    for (size_t i = 0; i < xy.size(); i++) xy[i] = (double)i * 0.5;
    struct GeoArrowCoordView cv;
    memset(&cv, 0, sizeof(cv));
    cv.n_values = 2, cv.coords_stride = 2, cv.values[0] = xy.data(), cv.values[1] = xy.data() + 1;
    int rc = 0;
    auto row = [&](enum GeoArrowGeometryType type, int64_t coords) {
      if (!rc) rc = v.feat_start(&v);
      if (!rc) rc = v.geom_start(&v, type, GEOARROW_DIMENSIONS_XY);
      for (int64_t at = 0; at < coords && !rc; at += kChunk) {
        cv.n_coords = std::min(kChunk, coords - at);
        rc = v.coords(&v, &cv);
      }
      if (!rc) rc = v.geom_end(&v);
      if (!rc) rc = v.feat_end(&v);
    };
    for (int64_t i = 0; i < points; i++) row(GEOARROW_GEOMETRY_TYPE_POINT, 1);
    row(GEOARROW_GEOMETRY_TYPE_LINESTRING, n);
    ArrayHolder arr;
    if (!rc) rc = GeoArrowWKBWriterFinish(&w.w, &arr.a, &err);
    if (rc == ENOMEM) throw NoMemory();
    if (target > INT32_MAX) {
      VF_CHECK(rc != 0 && !arr.a.release, "a batch of %lld bytes: %d", (long long)target, rc);
      c.nontrivial("above the limit");
      return;
    }
    VF_CHECK(rc == 0, "a batch of %lld bytes: %d %s", (long long)target, rc, err.message);
    const int32_t* off = (const int32_t*)arr.a.buffers[1];
    const uint8_t* data = (const uint8_t*)arr.a.buffers[2];
    VF_CHECK(arr.a.length == points + 1, "%lld rows", (long long)arr.a.length);
    for (int64_t i = 0; i <= points; i++) VF_CHECK(off[i] == 21 * i, "offset %lld is %d", (long long)i, off[i]);
    VF_CHECK(off[points + 1] == target, "last offset %d", off[points + 1]);
    data += 21 * points;
    uint32_t count;
    memcpy(&count, data + 5, 4);
    VF_CHECK(data[0] == 1 && data[1] == 2 && (int64_t)count == n, "header: %u coordinates", count);
    for (int64_t at = 0; at < n; at += kChunk)
      VF_CHECK(!memcmp(data + 9 + 16 * at, xy.data(), (size_t)(16 * std::min(kChunk, n - at))),
               "coordinates at %lld", (long long)at);
    c.nontrivial("at the limit");
  }
  live.Check("big WKB");
}

VF_PROP_BIG("C08", Run,
        "batches of random geometries (all types/dimensions, mixed member dimensions, empties, "
        "nulls, long sequences) written through the visitor in random chunks, through node lists of "
        "random layout/byte order, and through geometry-view visits; decoded by an independent "
        "decoder and by the reader. Non-trivial: some geometry has members or several coordinates",
            Big, 2)
