// C02: fidelity of WKB decoding
#include "big_util.h"
#include "util.h"
using namespace vf;

static void Run(Ctx& c) {
  Tape& t = c.t;
  Live live;
  {
    GenOpt o;
    o.huge = true;
    o.mixed_dims = t.Chance(1, 3);
    o.mixed_multi = o.mixed_dims && t.Coin();
    o.max_depth = (int)t.Range(1, 6);
    std::vector<Feat> feats;
    std::vector<std::string> blobs;
    std::vector<bool> nulls;
    int n = 1 + t.Small(8);
    WkbReader rd;
    bool nt = false;
    for (int i = 0; i < n; i++) {
      Feat f;
      f.null = t.Chance(1, 8);
      WkbOpt w;
      w.mixed_endian = t.Coin();
      w.endian = (int)t.Below(2);
      w.flavor = (int)t.Below(2);
      w.srid = t.Chance(1, 5);
      if (!f.null) f.g = GenG(t, o);
      std::string b;
      if (!f.null) b = RefWkb(f.g, w, &t);
      if (!f.null) {
        f.g = WkbForm(f.g);
        c.label(TypeName(f.g.type));
        c.label(DimName(f.g.dims));
        if (w.mixed_endian) c.label("mixed byte order");
        if (w.endian == 0) c.label("big endian");
        if (CoordCount(f.g) > 96) c.label("long sequence");
        if (CoordCount(f.g) > 1 || NodeCount(f.g) > 1) nt = true;
      }
      feats.push_back(f);
      blobs.push_back(b);
      nulls.push_back(f.null);
    }
    c.note(ShowFeats(feats));
    if (nt) {
      std::string k;
      for (auto& b : blobs) k += b;
      c.nontrivial(k);
    }
    // one at a time: node view and visitor
    for (int i = 0; i < n; i++) {
      if (feats[i].null) continue;
      Exact buf(blobs[i]);
      struct GeoArrowGeometryView view;
      struct GeoArrowError err;
      err.message[0] = 0;
      int rc = GeoArrowWKBReaderRead(&rd.r, buf.View(), &view, &err);
      VF_CHECK(rc == 0, "valid WKB rejected: %d %s\n%s", rc, err.message,
               Hex(buf.p, buf.n, 600).c_str());
      G got;
      std::string why;
      VF_CHECK(GFromNodes(view, &got, buf.p, buf.p + buf.n, &why), "nodes: %s", why.c_str());
      VF_CHECK(SameG(got, feats[i].g, &why), "node view: %s\n%s", why.c_str(),
               Hex(buf.p, buf.n, 600).c_str());
      VF_CHECK(GeoArrowGeometryViewNumCoords(view) == CoordCount(feats[i].g), "NumCoords");
      Recorder rec;
      rc = t.Coin() ? GeoArrowGeometryViewVisit(view, &rec.v)
                    : GeoArrowWKBReaderVisit(&rd.r, buf.View(), &rec.v);
      VF_CHECK(rc == 0, "visit: %d %s", rc, rec.error.message);
      CheckRecorder(rec, "visit");
      VF_CHECK(SameFeats(rec.feats, OneFeat(feats[i].g), &why), "visitor: %s\n%s", why.c_str(),
               Hex(buf.p, buf.n, 600).c_str());
    }
    // as a column
    int kind = (int)t.Below(3);
    static const enum GeoArrowType kTypes[] = {GEOARROW_TYPE_WKB, GEOARROW_TYPE_LARGE_WKB,
                                               GEOARROW_TYPE_WKB_VIEW};
    NativeOpt no;
    auto arr = BuildBinary(t, kind, blobs, nulls, no);
    struct GeoArrowArrayReader ar;
    int rc = GeoArrowArrayReaderInitFromType(&ar, kTypes[kind]);
    VF_CHECK(rc == 0, "ArrayReaderInitFromType: %d", rc);
    struct GeoArrowError err;
    err.message[0] = 0;
    rc = GeoArrowArrayReaderSetArray(&ar, &arr->a, &err);
    VF_CHECK(rc == 0, "SetArray: %d %s", rc, err.message);
    int64_t from = t.Range(0, n), len = t.Range(0, n - from);
    if (t.Coin()) from = 0, len = n;
    Recorder rec;
    rc = GeoArrowArrayReaderVisit(&ar, from, len, &rec.v);
    VF_CHECK(rc == 0, "array visit: %d %s", rc, rec.error.message);
    CheckRecorder(rec, "array visit");
    std::vector<Feat> want(feats.begin() + from, feats.begin() + from + len);
    std::string why;
    VF_CHECK(SameFeats(rec.feats, want, &why), "column of kind %d [%lld,+%lld): %s", kind,
             (long long)from, (long long)len, why.c_str());
    GeoArrowArrayReaderReset(&ar);
  }
  live.Check("WKB decoding");
}

// A large binary column with a value and offsets that do not fit 32 bits
static void Big(int, Ctx& c) {
  Live live;
  {
    const uint32_t n = (1u << 28) + 12345;  // coordinates
    const int64_t first = 9 + 16 * (int64_t)n;
    BigMap m((size_t)first + 21);
    auto put = [&](int64_t at, uint8_t type, const void* p, size_t k) {
      m.p[at] = 1, m.p[at + 1] = type;
      memcpy(m.p + at + 5, p, k);
    };
    double end[2] = {3, 4}, point[2] = {5, 6};
    put(0, 2, &n, 4);
    memcpy(m.p + first - 16, end, 16);
    put(first, 1, point, 16);
    std::vector<int64_t> offsets = {0, first, first, first + 21};
    uint8_t valid = 5;  // the empty row is null
    BigArray a(m, offsets);
    a.buffers[0] = &valid, a.a.null_count = 1;
    c.note(strf("a linestring of %u coordinates, a null, a point", n));
    struct GeoArrowArrayReader ar;
    VF_CHECK(GeoArrowArrayReaderInitFromType(&ar, GEOARROW_TYPE_LARGE_WKB) == 0, "init");
    struct GeoArrowError err;
    VF_CHECK(GeoArrowArrayReaderSetArray(&ar, &a.a, &err) == 0, "set: %s", err.message);
    Tally y;
    int rc = GeoArrowArrayReaderVisit(&ar, 0, 3, &y.v);
    VF_CHECK(rc == 0, "visit: %d %s", rc, y.error.message);
    VF_CHECK(y.feats == 3 && y.geoms == 2 && y.per_feat[0] == (int64_t)n && y.per_feat[1] == 0 && y.per_feat[2] == 1,
             "%lld features, %lld coordinates", (long long)y.feats, (long long)y.coords);
    VF_CHECK(y.last[0] == 5 && y.last[1] == 6 && y.sum == 18, "ordinates: %g %g, sum %g", y.last[0], y.last[1], y.sum);
    WkbReader rd;
    struct GeoArrowBufferView b;
    b.data = m.p, b.size_bytes = first;
    struct GeoArrowGeometryView g;
    rc = GeoArrowWKBReaderRead(&rd.r, b, &g, &err);
    VF_CHECK(rc == 0 && g.size_nodes == 1 && g.root->size == n, "read: %d", rc);
    b.size_bytes = first - 1;
    VF_CHECK(GeoArrowWKBReaderRead(&rd.r, b, &g, &err) == EINVAL, "one byte less is enough");
    c.nontrivial("big");
    GeoArrowArrayReaderReset(&ar);
  }
  live.Check("big WKB column");
}

VF_PROP_BIG("C02", Run,
        "random geometries of all 7 types x 4 dimensions (nested, mixed member dimensions, empties, "
        "sequences across block sizes) written by a reference encoder with random byte order, "
        "ISO/EWKB flags and SRID per (sub)geometry, read singly and as binary/large/view columns "
        "with offsets. Non-trivial: some geometry has members or more than one coordinate",
            Big, 1)
