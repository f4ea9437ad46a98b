// C10: reading native columns
#include "big_util.h"
#include "util.h"
using namespace vf;

static void RunBox(Ctx& c) {
  Tape& t = c.t;
  int dims = t.Chance(1, 4) ? (int)t.Range(2, 4) : 1;
  int nd = NDim(dims);
  enum GeoArrowType type = (enum GeoArrowType)(GEOARROW_TYPE_BOX + (dims - 1) * 1000);
  int n = 1 + t.Small(12);
  std::vector<std::vector<double>> rows;
  std::vector<bool> nulls;
  std::vector<Feat> want;
  for (int i = 0; i < n; i++) {
    std::vector<double> r(2 * nd);
    for (auto& x : r) x = GenOrdinate(t, t.Chance(1, 4) ? 0 : 2);
    if (!t.Chance(1, 4))
      for (int k = 0; k < nd; k++)
        if (r[k] > r[nd + k]) std::swap(r[k], r[nd + k]);
    nulls.push_back(t.Chance(1, 6));
    rows.push_back(r);
    Feat f;
    f.null = nulls.back();
    if (!f.null && dims == 1) {
      f.g.type = PG;
      f.g.dims = 1;
      if (!(r[0] > r[2] || r[1] > r[3])) {
        auto xy = [](double x, double y) { return C4{x, y, 0, 0}; };
        f.g.rings = {{xy(r[0], r[1]), xy(r[2], r[1]), xy(r[2], r[3]), xy(r[0], r[3]),
                      xy(r[0], r[1])}};
      } else {
        c.label("empty box");
      }
    }
    want.push_back(f);
  }
  c.note(ShowFeats(want));
  NativeOpt no;
  auto arr = BuildBox(t, type, rows, nulls, no);
  struct GeoArrowArrayReader ar;
  VF_CHECK(GeoArrowArrayReaderInitFromType(&ar, type) == 0, "init");
  struct GeoArrowError err;
  err.message[0] = 0;
  int rc = GeoArrowArrayReaderSetArray(&ar, &arr->a, &err);
  VF_CHECK(rc == 0, "SetArray: %d %s", rc, err.message);
  int64_t from = t.Range(0, n), len = t.Range(0, n - from);
  Recorder rec;
  rc = GeoArrowArrayReaderVisit(&ar, from, len, &rec.v);
  GeoArrowArrayReaderReset(&ar);
  if (dims != 1) {
    if (len) {
      VF_CHECK(rc != 0, "box with Z or M visited");
      VF_CHECK(rec.error.message[0], "no message");
    }
    c.label("box with Z or M");
    return;
  }
  VF_CHECK(rc == 0, "visit: %d %s", rc, rec.error.message);
  CheckRecorder(rec, "box visit");
  std::vector<Feat> w(want.begin() + from, want.begin() + from + len);
  std::string why;
  VF_CHECK(SameFeats(rec.feats, w, &why), "boxes [%lld,+%lld): %s", (long long)from, (long long)len,
           why.c_str());
  c.label("box");
  if (len > 1) c.nontrivial(strf("box%lld,%lld:", (long long)from, (long long)len) + FeatsKey(w));
}

// The documented members of the view of an array
static void CheckView(const struct GeoArrowArrayView& v, const struct ArrowArray* a, int gt, int dims, int ct) {
  const struct GeoArrowSchemaView& s = v.schema_view;
  VF_CHECK(s.type == MakeT(gt, dims, ct) && s.geometry_type == gt && s.dimensions == dims && s.coord_type == ct,
           "type of the view");
  VF_CHECK(v.n_offsets == NativeLevels(gt), "%d offsets", v.n_offsets);
  VF_CHECK(v.validity_bitmap == (const uint8_t*)a->buffers[0], "validity bitmap");
  int64_t n = a->length;
  for (int i = 0; i <= v.n_offsets; i++) {
    VF_CHECK(v.offset[i] == a->offset && v.length[i] == a->length, "offset and length of level %d", i);
    if (i == v.n_offsets) break;
    if (a->length) {
      auto off = (const int32_t*)a->buffers[1];
      VF_CHECK(v.offsets[i] == off, "offsets of level %d", i);
      VF_CHECK(v.first_offset[i] == off[a->offset] && v.last_offset[i] == off[a->offset + a->length],
               "first and last offset of level %d: %d, %d", i, v.first_offset[i], v.last_offset[i]);
      n = off[a->offset + a->length] - off[a->offset];
    } else {
      VF_CHECK(v.first_offset[i] == v.last_offset[i], "first and last offset of an empty level %d", i);
      n = 0;
    }
    a = a->children[0];
  }
  int nd = NDim(dims);
  VF_CHECK(v.coords.n_values == nd && v.coords.n_coords == n, "%d values, %lld coordinates, not %lld", v.coords.n_values,
           (long long)v.coords.n_coords, (long long)n);
  VF_CHECK(v.coords.coords_stride == (ct == 1 ? 1 : nd), "stride %d", v.coords.coords_stride);
  for (int j = 0; j < nd; j++) {
    const struct ArrowArray* ch = a->children[ct == 1 ? j : 0];
    VF_CHECK(v.coords.values[j] == (const double*)ch->buffers[1] + ch->offset + (ct == 1 ? 0 : j), "ordinates %d", j);
  }
}

static void Run(Ctx& c) {
  Tape& t = c.t;
  Live live;
  if (t.Chance(1, 8)) {
    RunBox(c);
    live.Check("box reader");
    return;
  }
  {
    int gt = (int)t.Range(1, 6), dims = (int)t.Range(1, 4), ct = (int)t.Range(1, 2);
    enum GeoArrowType type = MakeT(gt, dims, ct);
    GenOpt o;
    o.huge = true;
    o.dims = dims;
    o.types = {gt};
    o.empty_point_members = false;
    struct GeoArrowArrayReader ar;
    bool from_schema = t.Coin();
    struct GeoArrowError err;
    err.message[0] = 0;
    int rc;
    SchemaHolder sc;
    if (from_schema) {
      VF_CHECK(GeoArrowSchemaInitExtension(&sc.s, type) == 0, "schema");
      rc = GeoArrowArrayReaderInitFromSchema(&ar, &sc.s, &err);
    } else {
      rc = GeoArrowArrayReaderInitFromType(&ar, type);
    }
    VF_CHECK(rc == 0, "init: %d %s", rc, err.message);
    struct Guard {
      struct GeoArrowArrayReader* r;
      ~Guard() { GeoArrowArrayReaderReset(r); }
    } guard{&ar};
    int arrays = 1 + t.Small(2);
    bool nt = false;
    std::string key = strf("%d:", type);
    for (int k = 0; k < arrays; k++) {
      std::vector<Feat> feats = GenFeats(t, o, 12);
      for (auto& f : feats)
        if (!f.null && gt == PT && f.g.coords.empty()) f.g = WkbForm(f.g);
      c.note(strf("%s %s coord type %d\n", TypeName(gt), DimName(dims), ct) + ShowFeats(feats));
      NativeOpt no;
      auto arr = BuildNative(t, type, feats, no);
      rc = GeoArrowArrayReaderSetArray(&ar, &arr->a, &err);
      VF_CHECK(rc == 0, "SetArray: %d %s", rc, err.message);
      int slices = 1 + t.Small(2);
      int64_t n = (int64_t)feats.size();
      for (int s = 0; s < slices; s++) {
        int64_t from = t.Range(0, n), len = t.Range(0, n - from);
        if (t.Coin()) from = 0, len = n;
        Recorder rec;
        if (t.Coin()) {
          rc = GeoArrowArrayReaderVisit(&ar, from, len, &rec.v);
        } else {
          const struct GeoArrowArrayView* av = nullptr;
          struct GeoArrowArrayView own;
          if (t.Coin()) {
            rc = GeoArrowArrayReaderArrayView(&ar, &av);
            VF_CHECK(rc == 0 && av, "ArrayView: %d", rc);
          } else {
            rc = from_schema ? GeoArrowArrayViewInitFromSchema(&own, &sc.s, &err)
                             : GeoArrowArrayViewInitFromType(&own, type);
            VF_CHECK(rc == 0, "view init: %d", rc);
            rc = GeoArrowArrayViewSetArray(&own, &arr->a, &err);
            VF_CHECK(rc == 0, "view SetArray: %d %s", rc, err.message);
            av = &own;
          }
          CheckView(*av, &arr->a, gt, dims, ct);
          rc = GeoArrowArrayViewVisitNative(av, from, len, &rec.v);
        }
        VF_CHECK(rc == 0, "visit: %d %s", rc, rec.error.message);
        CheckRecorder(rec, "native visit");
        std::vector<Feat> want(feats.begin() + from, feats.begin() + from + len);
        std::string why;
        VF_CHECK(SameFeats(rec.feats, want, &why), "array %d [%lld,+%lld) of offset %lld: %s", k,
                 (long long)from, (long long)len, (long long)arr->a.offset, why.c_str());
        for (auto& f : want)
          if (!f.null && CoordCount(f.g) > 1) nt = true;
        if (gt == PT && len > 1) nt = true;
        if (arr->a.offset) c.label("offset");
        if (from) c.label("slice");
        key += strf("%lld,%lld", (long long)from, (long long)len) + FeatsKey(want) + "/";
      }
      if (k) c.label("second array");
    }
    c.label(TypeName(gt));
    c.label(DimName(dims));
    c.label(ct == 1 ? "separate" : "interleaved");
    if (nt) c.nontrivial(key);
  }
  live.Check("native reader");
}

// Rows whose index does not fit 31 bits
static void Big(int which, Ctx& c) {
  bool interleaved = which & 1, sliced = which & 2;
  Live live;
  {
    BigPoints p(interleaved, sliced);
    c.note(strf("points, interleaved %d, sliced %d", interleaved, sliced));
    enum GeoArrowType type = interleaved ? GEOARROW_TYPE_INTERLEAVED_POINT : GEOARROW_TYPE_POINT;
    struct GeoArrowArrayReader ar;
    VF_CHECK(GeoArrowArrayReaderInitFromType(&ar, type) == 0, "init");
    struct GeoArrowError err;
    VF_CHECK(GeoArrowArrayReaderSetArray(&ar, &p.a, &err) == 0, "set: %s", err.message);
    std::vector<Feat> want;
    for (int i = 0; i < BigPoints::kRows; i++) {
      Feat f;
      f.null = i == 2;
      f.g.type = GEOARROW_GEOMETRY_TYPE_POINT, f.g.dims = GEOARROW_DIMENSIONS_XY;
      f.g.coords.push_back({(double)(i + 1), 10.0 * (i + 1)});
      want.push_back(f);
    }
    Recorder rec;
    int rc = GeoArrowArrayReaderVisit(&ar, sliced ? 0 : BigPoints::kBefore, BigPoints::kRows, &rec.v);
    VF_CHECK(rc == 0, "visit: %d %s", rc, rec.error.message);
    CheckRecorder(rec, "visit");
    std::string why;
    VF_CHECK(SameFeats(rec.feats, want, &why), "%s", why.c_str());
    c.nontrivial(strf("big %d", which));
    GeoArrowArrayReaderReset(&ar);
  }
  live.Check("big points");
}

VF_PROP_BIG("C10", Run,
        "random features of 6 types x 4 dimensions x 2 coordinate layouts laid out in exactly sized "
        "Arrow buffers with random offsets and unreferenced slack at every nesting level, and boxes; "
        "random slices read through the reader or the array view, several arrays per reader. "
        "Non-trivial: a slice with several coordinates",
            Big, 4)
