// C21: several threads at once
#include "ops.h"
#include "geoarrow/geoarrow.hpp"
#include <atomic>
#include <mutex>
#include <thread>
namespace wu = geoarrow::wkb_util;

// The operations of one case.  Each stays alive (with its inputs) on the stack
// of the function that made it until all are there.
static std::vector<const std::function<Res()>*> g_ops;
static int g_want;
static int g_copies;

struct Outcome {
  Res r;
  std::string fail;
};
static Outcome RunOne(const std::function<Res()>& f) {
  Outcome o;
  try {
    o.r = f();
  } catch (Failure& e) {
    o.fail = e.msg;
  }
  return o;
}

static void Together(Ctx& c) {
  size_t n = g_ops.size() * (size_t)g_copies;
  std::vector<Outcome> got(n);
  for (int round = 0; round < 2; round++) {
    std::atomic<size_t> ready{0};
    std::vector<std::thread> th;
    for (size_t i = 0; i < n; i++)
      th.emplace_back([&, i] {
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
        got[i] = RunOne(*g_ops[i % g_ops.size()]);
      });
    for (auto& t : th) t.join();
    size_t long_ones = 0;
    std::string key;
    for (size_t i = 0; i < n; i++) {
      if (got[i].fail.size()) fail("thread %zu: %s", i, got[i].fail.c_str());
      Outcome alone = RunOne(*g_ops[i % g_ops.size()]);
      if (alone.fail.size()) fail("alone: %s", alone.fail.c_str());
      VF_CHECK(got[i].r.rc == alone.r.rc && got[i].r.out == alone.r.out,
               "thread %zu gave code %d and %s, alone code %d and %s", i, got[i].r.rc, Quote(got[i].r.out).c_str(),
               alone.r.rc, Quote(alone.r.out).c_str());
      if (alone.r.rc == 0 && alone.r.out.size() > 8) long_ones++, key += alone.r.out + "|";
    }
    if (long_ones >= 2) c.nontrivial(key);
  }
  c.label(strf("%zu threads", n));
  c.label(g_copies > 1 ? "the same inputs in several threads" : "inputs of their own");
}

static void Another(Ctx& c);
static void Inject(Ctx& c, const std::function<Res()>& f) {
  g_ops.push_back(&f);
  if ((int)g_ops.size() < g_want) Another(c);
  else Together(c);
}

// Every vertex of every row of an own C++ array over a view that is shared
template <typename Arr>
static void Vertices(Arr& arr, const struct GeoArrowArrayView* view, std::string* out) {
  if (arr.Init(view)) return;
  arr.template VisitVertices<geoarrow::array_util::XYZM<double>>([&](geoarrow::array_util::XYZM<double> v) {
    for (int i = 0; i < 4; i++) *out += Dbl(v[(size_t)i]) + " ";
  });
  for (int64_t i = 0; i < arr.value.size(); i++) *out += arr.is_null(i) ? "N" : "V";
}
static void ForAll(const struct GeoArrowArrayView* view, std::string* out) {
  GEOARROW_DISPATCH_NATIVE_ARRAY_CALL(view->schema_view.type, Vertices, view, out);
}

// What only reads constant objects, which all threads share
static void Shared(Ctx& c) {
  Tape& t = c.t;
  GenOpt o = Opt(t);
  c.label("shared constant objects");
  G g = GenG(t, o);
  c.note("shared " + Show(g));
  NodeGeom ng;
  BuildNodes(g, &ng, &t);
  struct GeoArrowGeometry geom;
  VF_CHECK(GeoArrowGeometryInit(&geom) == 0 && GeoArrowGeometryDeepCopy(ng.View(), &geom) == 0, "geometry");
  AtEnd e{[&] { GeoArrowGeometryReset(&geom); }};
  GenOpt no = o;
  no.types = {(int)t.Range(1, 6)};
  no.dims = (int)t.Range(1, 4);
  no.empty_point_members = false;
  int type = MakeT(no.types[0], no.dims, (int)t.Range(1, 2));
  std::vector<Feat> feats = GenFeats(t, no, 6);
  auto arr = BuildNative(t, (enum GeoArrowType)type, feats, NativeOpt());
  struct GeoArrowArrayView view;
  VF_CHECK(GeoArrowArrayViewInitFromType(&view, (enum GeoArrowType)type) == 0, "view");
  VF_CHECK(GeoArrowArrayViewSetArray(&view, &arr->a, nullptr) == 0, "view");
  size_t n_boxes = t.Below(5);
  std::vector<std::vector<double>> boxes(n_boxes);
  std::vector<bool> box_nulls(n_boxes);
  for (size_t i = 0; i < n_boxes; i++) {
    for (int j = 0; j < 4; j++) boxes[i].push_back((double)t.Below(100) + (j > 1 ? 50 : 0));
    box_nulls[i] = t.Chance(1, 5);
  }
  auto box_arr = BuildBox(t, GEOARROW_TYPE_BOX, boxes, box_nulls, NativeOpt());
  struct GeoArrowArrayView box_view;
  VF_CHECK(GeoArrowArrayViewInitFromType(&box_view, GEOARROW_TYPE_BOX) == 0, "view");
  VF_CHECK(GeoArrowArrayViewSetArray(&box_view, &box_arr->a, nullptr) == 0, "view");
  std::string crs(t.Below(60), 'q');
  const auto ty = geoarrow::GeometryDataType::Make((enum GeoArrowType)type).WithCrs(crs, GEOARROW_CRS_TYPE_UNKNOWN);
  SchemaHolder sh;
  ty.InitSchema(&sh.s);
  WkbOpt wo;
  wo.mixed_endian = t.Coin();
  std::string wkb = RefWkb(g, wo, &t);
  const int64_t rows = (int64_t)feats.size();
  Inject(c, [&] {
    Res r;
    auto record = [&](auto&& visit) {
      Recorder rec;
      int rc = visit(rec);
      if (rc) return rc;
      CheckRecorder(rec, "shared");
      for (auto& f : rec.feats) r.out += Show(f);
      return 0;
    };
    TRY(record([&](Recorder& rec) { return GeoArrowGeometryVisit(&geom, &rec.v); }));
    TRY(record([&](Recorder& rec) { return GeoArrowGeometryViewVisit(ng.View(), &rec.v); }));
    TRY(record([&](Recorder& rec) { return GeoArrowArrayViewVisitNative(&view, 0, rows, &rec.v); }));
    TRY(record([&](Recorder& rec) { return GeoArrowArrayViewVisitNative(&box_view, 0, (int64_t)n_boxes, &rec.v); }));
    ForAll(&view, &r.out);
    // own objects over shared ones
    struct GeoArrowGeometry own;
    TRY(GeoArrowGeometryInit(&own));
    AtEnd e{[&] { GeoArrowGeometryReset(&own); }};
    TRY(GeoArrowGeometryShallowCopy(GeoArrowGeometryAsView(&geom), &own));
    TRY(record([&](Recorder& rec) { return GeoArrowGeometryVisit(&own, &rec.v); }));
    TRY(GeoArrowGeometryDeepCopy(GeoArrowGeometryAsView(&geom), &own));
    int64_t n = GeoArrowGeometryViewNumCoords(ng.View());
    std::vector<double> xs((size_t)n * 4 + 1, -1);
    uint8_t* out[4];
    int32_t st[4] = {32, 32, 32, 32};
    for (int i = 0; i < 4; i++) out[i] = (uint8_t*)(xs.data() + i);
    GeoArrowGeometryViewCopyCoordsGeneric(ng.View(), out, st, GEOARROW_DIMENSIONS_XYZM);
    for (double x : xs) r.out += Dbl(x) + " ";
    // the C++ side
    geoarrow::GeometryDataType copy = ty, other = geoarrow::Wkb();
    r.out += ty.ToString() + ty.crs() + copy.WithEdgeType(GEOARROW_EDGE_TYPE_SPHERICAL).ToString();
    other = ty;
    SchemaHolder s2;
    other.InitSchema(&s2.s);
    r.out += SchemaDigest(&s2.s) + SchemaDigest(&sh.s);
    r.out += geoarrow::GeometryDataType::Make(&sh.s).extension_metadata();
    wu::WKBParser p;
    wu::WKBGeometry wg;
    auto status = p.Parse((const uint8_t*)wkb.data(), (uint32_t)wkb.size(), &wg);
    r.out += p.ErrorToString(status);
    if (status == wu::WKBParser::OK)
      wg.VisitVertices<geoarrow::array_util::XY<double>>([&](geoarrow::array_util::XY<double> v) { r.out += Dbl(v.x()) + "," + Dbl(v.y()) + ";"; });
    return r;
  });
}

// Numbers, metadata, names and messages
static void Small(Ctx& c) {
  Tape& t = c.t;
  c.label("numbers, metadata and names");
  std::vector<double> xs(t.Range(1, 20));
  for (auto& x : xs) x = GenOrdinate(t, 1);
  std::vector<int> precisions(xs.size());
  for (auto& p : precisions) p = (int)t.Below(17);
  std::string meta = "{\"crs\":" + Spell(GenJson(t, 3, Json::OBJ), t, false) + ",\"edges\":\"karney\"}", crs = GenText(t, 30);
  int ct = (int)t.Below(6), et = (int)t.Below(6);
  int type = MakeT((int)t.Range(1, 6), (int)t.Range(1, 4), (int)t.Range(1, 2));
  std::string bad_wkt = t.Coin() ? "POINT (" + crs : "LINESTRING Z (1 2 3, 4 5)";
  c.note(Quote(meta) + " " + Quote(crs));
  Inject(c, [&] {
    Res r;
    for (size_t i = 0; i < xs.size(); i++) {
      char b[64];
      int64_t n = GeoArrowPrintDouble(xs[i], (uint32_t)precisions[i], b);
      r.out.append(b, (size_t)n);
      double back = 0;
      int rc = GeoArrowFromChars(b, b + n, &back);
      r.out += strf(" %d %a;", rc, back);
    }
    struct GeoArrowMetadataView mv;
    struct GeoArrowError err;
    err.message[0] = 0;
    int rc = GeoArrowMetadataViewInit(&mv, GeoArrowStringView{meta.data(), (int64_t)meta.size()}, &err);
    r.out += strf("%d %s", rc, err.message);
    if (!rc) {
      char buf[512];
      int64_t n = GeoArrowMetadataSerialize(&mv, buf, sizeof buf);
      if (n <= (int64_t)sizeof buf) r.out.append(buf, (size_t)n);
      n = GeoArrowUnescapeCrs(mv.crs, buf, sizeof buf);
      if (n <= (int64_t)sizeof buf) r.out.append(buf, (size_t)n);
    }
    memset(&mv, 0, sizeof mv);
    mv.crs = GeoArrowStringView{crs.data(), (int64_t)crs.size()};
    mv.crs_type = (enum GeoArrowCrsType)ct;
    mv.edge_type = (enum GeoArrowEdgeType)et;
    SchemaHolder sh;
    TRY(GeoArrowSchemaInitExtension(&sh.s, (enum GeoArrowType)type));
    TRY(GeoArrowSchemaSetMetadata(&sh.s, &mv));
    r.out += SchemaDigest(&sh.s);
    struct GeoArrowSchemaView sv;
    TRY(GeoArrowSchemaViewInit(&sv, &sh.s, &err));
    r.out += strf("%d %s %s %s %s %s %s", (int)sv.type, GeoArrowExtensionNameFromType(sv.type),
                  GeoArrowGeometryTypeString(sv.geometry_type), GeoArrowDimensionsString(sv.dimensions),
                  GeoArrowCoordTypeString(sv.coord_type), GeoArrowEdgeTypeString(mv.edge_type),
                  GeoArrowCrsTypeString(mv.crs_type));
    struct GeoArrowWKTReader rd;
    TRY(GeoArrowWKTReaderInit(&rd));
    AtEnd e{[&] { GeoArrowWKTReaderReset(&rd); }};
    struct GeoArrowVisitor v;
    GeoArrowVisitorInitVoid(&v);
    err.message[0] = 0;
    v.error = &err;
    rc = GeoArrowWKTReaderVisit(&rd, GeoArrowStringView{bad_wkt.data(), (int64_t)bad_wkt.size()}, &v);
    r.out += strf("%d %s", rc, err.message);
    err.message[0] = 0;
    GeoArrowErrorSet(&err, "%s/%d", meta.c_str(), type);
    r.out += std::string(err.message) + GeoArrowVersion() + strf("%d", GeoArrowVersionInt());
    struct GeoArrowKernel kn;
    r.out += strf("%d", GeoArrowKernelInit(&kn, "no such kernel", nullptr));
    return r;
  });
}

static void Another(Ctx& c) {
  switch (c.t.Below(14)) {
    case 0: Schemas(c); break;
    case 1:
    case 2: Readers(c); break;
    case 3:
    case 4:
    case 5: Writers(c); break;
    case 6:
    case 7: Kernels(c); break;
    case 8: Geometries(c); break;
    case 9: Builders(c); break;
    case 10: ReadersOfArrays(c); break;
    case 11: Types(c); break;
    case 12: Shared(c); break;
    default: Small(c);
  }
}

static void Run(Ctx& c) {
  g_ops.clear();
  g_copies = c.t.Coin() ? 2 : 1;
  g_want = g_copies == 2 ? (int)c.t.Range(1, 2) : (int)c.t.Range(2, 4);
  Another(c);
}

VF_PROP("C21", Run,
        "one to four operations of any parts (schemas, readers, writers, kernels, geometry objects, builders, array "
        "readers, C++ types, numbers, metadata, and reading of shared constant objects) on random inputs, run in two to "
        "four threads at once under ThreadSanitizer, each on objects of its own but with the same inputs in two threads "
        "in half of the cases, and then alone. Non-trivial: at least two threads succeed with a result of more than 8 "
        "characters")
