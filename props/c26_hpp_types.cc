// C26: GeometryDataType and the C++ readers and writers
#include <deque>
#include <type_traits>

#include "hpp_type_model.h"
using namespace vf;

static void Types(Ctx& c) {
  Tape& t = c.t;
  std::deque<std::pair<GeometryDataType, M>> pool;
  int steps = 2 + t.Small(12);
  std::string key;
  for (int s = 0; s < steps; s++) {
    int op = (int)t.Below(pool.empty() ? 4 : 20);
    auto src = [&]() -> std::pair<GeometryDataType, M>& { return pool[t.Below(pool.size())]; };
    c.note(strf("op %d", op));
    key += (char)('a' + op);
    bool threw = false, must_throw = false;
    auto put = [&](GeometryDataType d, M m) {
      if (pool.size() < 5)
        pool.emplace_back(std::move(d), m);
      else
        pool[t.Below(pool.size())] = {std::move(d), m};
    };
    try {
      switch (op) {
        case 0: {
          M m = GenM(t);
          std::string meta = GenMeta(t, &m);
          c.note(strf("%d ", m.id) + Quote(meta));
          put(GeometryDataType::Make((enum GeoArrowType)m.id, meta), m);
          break;
        }
        case 1: {
          int gt = t.Chance(1, 8) ? GEOARROW_GEOMETRY_TYPE_BOX : (int)t.Below(7);
          int dims = (int)t.Below(t.Chance(1, 4) ? 5 : 4) + 1, ct = (int)t.Below(3);
          if (dims > 4) dims = 0;
          must_throw = !Valid(gt, dims, ct);
          M m = must_throw ? M() : MakeM(gt, dims, ct);
          std::string meta = GenMeta(t, &m);
          GeometryDataType d = GeometryDataType::Make((enum GeoArrowGeometryType)gt, (enum GeoArrowDimensions)dims,
                                                      (enum GeoArrowCoordType)ct, meta);
          put(d, m);
          break;
        }
        case 2: {  // malformed or missing things
          must_throw = true;
          switch (t.Below(3)) {
            case 0: GeometryDataType::Make(GEOARROW_TYPE_UNINITIALIZED); break;
            case 1: {
              std::string bad = t.Coin() ? "{\"crs\": " : "not json";
              GeometryDataType::Make(GEOARROW_TYPE_POINT, bad);
              break;
            }
            default: {
              SchemaHolder h;
              GeoArrowSchemaInitExtension(&h.s, GEOARROW_TYPE_LINESTRING);
              GeometryDataType::Make(&h.s, "geoarrow.polygon", "");
            }
          }
          break;
        }
        case 3:
          switch (t.Below(7)) {
            case 0: put(GeometryDataType(), M()); break;
            case 1: put(geoarrow::Wkb(), SerM(GEOARROW_TYPE_WKB)); break;
            case 2: put(geoarrow::Wkt(), SerM(GEOARROW_TYPE_WKT)); break;
            case 3: put(geoarrow::Box(), MakeM(GEOARROW_GEOMETRY_TYPE_BOX, 1, 1)); break;
            case 4: put(geoarrow::Point(), MakeM(1, 1, 1)); break;
            case 5: put(geoarrow::Linestring(), MakeM(2, 1, 1)); break;
            default: put(geoarrow::Polygon(), MakeM(3, 1, 1));
          }
          break;
        case 4:
        case 5: {  // copies, through temporaries
          auto& p = src();
          GeometryDataType a(p.first);
          M m = p.second;
          if (t.Coin()) {
            GeometryDataType b;
            b = a;
            put(b, m);
          } else {
            put(a, m);
          }
          break;
        }
        case 6: {
          auto& p = src();
          auto& q = src();
          q.first = p.first;  // maybe itself
          q.second = p.second;
          break;
        }
        case 7: {
          auto& p = src();
          GeometryDataType a(std::move(p.first));
          M m = p.second;
          p.second = M();
          p.second.moved = true;
          (void)p.first.ToString();
          put(std::move(a), m);
          break;
        }
        case 8: {
          auto& p = src();
          auto& q = src();
          if (&p == &q) break;
          q.first = std::move(p.first);
          q.second = p.second;
          p.second = M();
          p.second.moved = true;
          (void)p.first.ToString();
          break;
        }
        case 9: {
          auto& p = src();
          if (p.second.moved) break;
          int gt = t.Chance(1, 8) ? GEOARROW_GEOMETRY_TYPE_BOX : (int)t.Below(7);
          M m = p.second;
          must_throw = !Valid(gt, m.dims, m.ct);
          GeometryDataType d = p.first.WithGeometryType((enum GeoArrowGeometryType)gt);
          M n = MakeM(gt, m.dims, m.ct);
          n.edges = m.edges, n.crs_type = m.crs_type, n.crs = m.crs;
          put(d, n);
          break;
        }
        case 10: {
          auto& p = src();
          if (p.second.moved) break;
          int ct = (int)t.Below(3);
          M m = p.second;
          must_throw = !Valid(m.gt, m.dims, ct);
          GeometryDataType d = p.first.WithCoordType((enum GeoArrowCoordType)ct);
          M n = MakeM(m.gt, m.dims, ct);
          n.edges = m.edges, n.crs_type = m.crs_type, n.crs = m.crs;
          put(d, n);
          break;
        }
        case 11:
        case 12: {
          auto& p = src();
          if (p.second.moved) break;
          int dims = (int)t.Below(5);
          M m = p.second;
          must_throw = !Valid(m.gt, dims, m.ct);
          GeometryDataType d = dims == 0 || t.Coin() ? p.first.WithDimensions((enum GeoArrowDimensions)dims)
                               : dims == 1           ? p.first.XY()
                               : dims == 2           ? p.first.XYZ()
                               : dims == 3           ? p.first.XYM()
                                                     : p.first.XYZM();
          M n = MakeM(m.gt, dims, m.ct);
          n.edges = m.edges, n.crs_type = m.crs_type, n.crs = m.crs;
          put(d, n);
          break;
        }
        case 13:
        case 14: {
          auto& p = src();
          if (p.second.moved) break;
          M m = p.second;
          int e = (int)t.Below(6);
          m.edges = e;
          put(p.first.WithEdgeType((enum GeoArrowEdgeType)e), m);
          break;
        }
        case 15:
        case 16: {
          auto& p = src();
          if (p.second.moved) break;
          M m = p.second;
          m.crs_type = (int)t.Below(6);
          std::string raw;
          if (m.crs_type) {
            m.crs = GenText(t, 50);
            if (m.crs.empty() || m.crs[0] == '"' || m.crs[0] == '{') m.crs = "c" + m.crs;
            raw = m.crs;
            if (t.Chance(1, 4)) raw = m.crs = Spell(GenJson(t, 3, Json::OBJ), t, false);
          } else {
            m.crs.clear();
          }
          if (m.crs_type == 1 && t.Coin())
            put(p.first.WithCrs(raw), m);
          else
            put(p.first.WithCrs(raw, (enum GeoArrowCrsType)m.crs_type), m);
          break;
        }
        case 17: {
          auto& p = src();
          if (p.second.moved) break;
          M m = p.second;
          GeometryDataType d = p.first.WithCrsLonLat();
          VF_CHECK(d.crs().find("CRS84") != std::string::npos, "no lon/lat CRS");
          m.crs_type = 2;
          m.crs = d.crs();
          put(d, m);
          break;
        }
        default: {
          auto& p = src();
          if (p.second.moved) break;
          M m = p.second;
          bool multi = op == 18;
          must_throw = m.gt < 1 || m.gt > 6;
          GeometryDataType d = multi ? p.first.Multi() : p.first.Simple();
          int gt = (m.gt - 1) % 3 + 1 + (multi ? 3 : 0);
          M n = MakeM(gt, m.dims, m.ct);
          n.edges = m.edges, n.crs_type = m.crs_type, n.crs = m.crs;
          put(d, n);
        }
      }
    } catch (const geoarrow::Exception& e) {
      threw = true;
      VF_CHECK(must_throw, "threw: %s", e.what());
      VF_CHECK(e.what()[0], "no message");
    }
    VF_CHECK(threw || !must_throw, "accepted");
    for (size_t i = 0; i < pool.size(); i++) CheckType(t, pool[i].first, pool[i].second, i + 1 == pool.size() || t.Chance(1, 6));
  }
  if (steps > 3) c.nontrivial("t" + key);
  c.label("types");
}

template <typename T>
static typename std::enable_if<std::is_copy_constructible<T>::value>::type CopyIfPossible(T& x) {
  T y(x);  // sharing would be a double free
}
template <typename T>
static typename std::enable_if<!std::is_copy_constructible<T>::value>::type CopyIfPossible(T&) {}

static void Readers(Ctx& c) {
  Tape& t = c.t;
  GenOpt o;
  o.max_coords = 8;
  int type = PickSource(t, &o);
  bool view_type = type == GEOARROW_TYPE_WKB_VIEW || type == GEOARROW_TYPE_WKT_VIEW ||
                   type == GEOARROW_TYPE_LARGE_WKB || type == GEOARROW_TYPE_LARGE_WKT;
  std::vector<std::unique_ptr<SourceColumn>> cols;
  std::vector<bool> owned;
  c.note(strf("type %d", type));
  std::string key = strf("r%d;", type);
  {
    SchemaHolder sh;
    VF_CHECK(GeoArrowSchemaInitExtension(&sh.s, (enum GeoArrowType)type) == 0, "schema");
    std::unique_ptr<geoarrow::ArrayReader> rd;
    switch (t.Below(3)) {
      case 0: rd.reset(new geoarrow::ArrayReader((enum GeoArrowType)type)); break;
      case 1: rd.reset(new geoarrow::ArrayReader(&sh.s)); break;
      default: rd.reset(new geoarrow::ArrayReader(GeometryDataType::Make((enum GeoArrowType)type)));
    }
    CopyIfPossible(*rd);
    int rounds = 1 + (int)t.Below(3);
    for (int r = 0; r < rounds; r++) {
      std::vector<Feat> feats = GenFeats(t, o, 6);
      c.note(ShowFeats(feats));
      cols.emplace_back(new SourceColumn(t, type, feats));
      for (auto& f : feats) f = Carried(f, type);
      bool own = t.Coin();
      owned.push_back(own);
      if (own) {
        struct ArrowArray a = cols.back()->arr->a;
        cols.back()->arr->a.release = nullptr;
        rd->SetArray(&a);
        VF_CHECK(a.release == nullptr, "the array was not taken over");
      } else {
        rd->SetArrayNonOwning(&cols.back()->arr->a);
      }
      for (size_t i = 0; i < cols.size(); i++) {
        if (!owned[i]) VF_CHECK(cols[i]->arr->released == 0, "released an array it does not own");
        if (owned[i]) VF_CHECK(cols[i]->arr->released <= 1, "released twice");
      }
      if (own) VF_CHECK(cols.back()->arr->released == 0, "released the array it is reading");
      size_t from = t.Below(feats.size() + 1), n = t.Below(feats.size() - from + 1);
      if (t.Coin()) from = 0, n = feats.size();
      Recorder rec;
      struct GeoArrowError err;
      err.message[0] = 0;
      int rc = rd->Visit(&rec.v, (int64_t)from, (int64_t)n, t.Coin() ? &err : nullptr);
      VF_CHECK(rc == 0, "visit: %d %s", rc, err.message);
      CheckRecorder(rec, "ArrayReader");
      std::string why;
      VF_CHECK(SameFeats(rec.feats, std::vector<Feat>(feats.begin() + from, feats.begin() + from + n), &why), "%s", why.c_str());
      if (view_type) {
        bool threw = false;
        try {
          rd->View();
        } catch (const geoarrow::Exception&) {
          threw = true;
        }
        (void)threw;
      } else {
        const struct GeoArrowArrayView* v = rd->View().array_view();
        VF_CHECK(rd->View().is_valid() && v && (int)v->schema_view.type == type && v->length[0] == (int64_t)feats.size(),
                 "array view of %lld rows", v ? (long long)v->length[0] : -1);
      }
      key += FeatsKey(feats);
      if (feats.size() > 1 && rounds > 1) c.nontrivial(key);
    }
  }
  for (size_t i = 0; i < cols.size(); i++)
    VF_CHECK(cols[i]->arr->released == (owned[i] ? 1 : 0), "array %zu released %d times", i, cols[i]->arr->released);
  c.label("reader");
}

static void Writers(Ctx& c) {
  Tape& t = c.t;
  static const int kTypes[] = {GEOARROW_TYPE_WKT, GEOARROW_TYPE_WKB};
  int type = t.Chance(2, 3) ? kTypes[t.Below(2)] : MakeT((int)t.Range(1, 6), (int)t.Range(1, 4), (int)t.Range(1, 2));
  if (t.Chance(1, 8)) {
    // types that cannot be written
    static const int kNo[] = {GEOARROW_TYPE_LARGE_WKT, GEOARROW_TYPE_LARGE_WKB, GEOARROW_TYPE_WKT_VIEW, GEOARROW_TYPE_WKB_VIEW};
    bool threw = false;
    try {
      geoarrow::ArrayWriter w((enum GeoArrowType)kNo[t.Below(4)]);
    } catch (const geoarrow::Exception& e) {
      threw = true;
    }
    c.label(threw ? "refused type" : "accepted type");
    return;
  }
  GenOpt o;
  o.max_coords = 8;
  o.ordinates = 1;
  if (type < 100000 && !IsSerialized(type)) {
    o.types = {type % 1000};
    o.dims = type / 1000 % 10 + 1;
    o.empty_point_members = false;
  } else {
    o.mixed_dims = t.Coin();
  }
  SchemaHolder sh;
  VF_CHECK(GeoArrowSchemaInitExtension(&sh.s, (enum GeoArrowType)type) == 0, "schema");
  std::unique_ptr<geoarrow::ArrayWriter> w;
  switch (t.Below(3)) {
    case 0: w.reset(new geoarrow::ArrayWriter((enum GeoArrowType)type)); break;
    case 1: w.reset(new geoarrow::ArrayWriter(&sh.s)); break;
    default: w.reset(new geoarrow::ArrayWriter(GeometryDataType::Make((enum GeoArrowType)type)));
  }
  CopyIfPossible(*w);
  struct GeoArrowArrayWriter cw;
  VF_CHECK(GeoArrowArrayWriterInitFromType(&cw, (enum GeoArrowType)type) == 0, "C writer");
  struct Guard {
    struct GeoArrowArrayWriter* w;
    ~Guard() { GeoArrowArrayWriterReset(w); }
  } guard{&cw};
  for (int k = (int)t.Below(4); k > 0; k--) {
    bool flat = t.Coin(), threw = false;
    int arg = flat ? (int)t.Below(2) : (int)t.Below(17), rc;
    c.note(strf("%s(%d)", flat ? "SetFlatMultipoint" : "SetPrecision", arg));
    try {
      if (flat)
        w->SetFlatMultipoint(arg);
      else
        w->SetPrecision(arg);
    } catch (const geoarrow::Exception& e) {
      threw = true;
      VF_CHECK(e.what()[0], "no message");
    }
    rc = flat ? GeoArrowArrayWriterSetFlatMultipoint(&cw, arg) : GeoArrowArrayWriterSetPrecision(&cw, arg);
    VF_CHECK(threw == (type != GEOARROW_TYPE_WKT), "%s on a writer of type %d", threw ? "refused" : "accepted", type);
    VF_CHECK(threw == (rc != 0), "the C function returned %d", rc);
  }
  int rounds = 1 + (int)t.Below(2);
  std::string key = strf("w%d;", type);
  for (int r = 0; r < rounds; r++) {
    std::vector<Feat> feats = GenFeats(t, o, 6);
    if (!IsSerialized(type))
      for (auto& f : feats) f.g = WkbForm(f.g);
    c.note(ShowFeats(feats));
    struct GeoArrowVisitor cv;
    GeoArrowVisitorInitVoid(&cv);
    VF_CHECK(GeoArrowArrayWriterInitVisitor(&cw, &cv) == 0, "C visitor");
    for (auto& f : feats) {
      int rc = Emit(f, w->visitor(), nullptr);
      VF_CHECK(rc == 0, "writing: %d", rc);
      rc = Emit(f, &cv, nullptr);
      VF_CHECK(rc == 0, "writing in C: %d", rc);
    }
    ArrayHolder got, want;
    w->Finish(&got.a);
    VF_CHECK(GeoArrowArrayWriterFinish(&cw, &want.a, nullptr) == 0, "C finish");
    std::string why;
    if (IsSerialized(type)) {
      auto a = ReadBinary(&got.a, 0), b = ReadBinary(&want.a, 0);
      VF_CHECK(a.size() == feats.size() && b.size() == feats.size(), "%zu rows", a.size());
      for (size_t i = 0; i < a.size(); i++)
        VF_CHECK(a[i].null == b[i].null && a[i].value == b[i].value, "row %zu: %s, in C %s", i, Quote(a[i].value).c_str(),
                 Quote(b[i].value).c_str());
    } else {
      VF_CHECK(SameFeats(ReadNative(&got.a, (enum GeoArrowType)type), ReadNative(&want.a, (enum GeoArrowType)type), &why),
               "%s", why.c_str());
    }
    key += FeatsKey(feats);
    if (feats.size() > 1) c.nontrivial(key);
  }
  c.label("writer");
}

static void Run(Ctx& c) {
  Live live;
  uint64_t k = c.t.Below(8);
  if (k < 2)
    Writers(c);
  else if (k < 4)
    Readers(c);
  else
    Types(c);
  live.Check("C++ types, readers and writers");
}

VF_PROP("C26", Run,
        "histories of up to a few dozen operations on up to five GeometryDataType values (made from ids, parts, "
        "schemas, storage and JSON metadata; copied, moved, assigned, modified) against a plain model; C++ readers "
        "given several arrays with and without ownership; C++ writers against the C writers with the same options. "
        "Non-trivial: more than three operations, or more than one row")
