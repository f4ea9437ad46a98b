// Operations of every part of the library on random inputs.  Each generates its inputs and
// then hands Inject() a function that runs the operation on objects of its own and can be
// called any number of times.
#pragma once
#include "hpp_util.h"
#include "kernel_util.h"
#include "meta_util.h"
using namespace vf;

// What one run of an operation gave: its code and, if it is OK, a digest of
// everything it produced
struct Res {
  int rc = 0;
  int redone = 0;  // the code of the step that failed and was done again
  std::string out;
};

static std::string ArrayDigest(const struct ArrowArray* a, int type) {
  std::string s = strf("[%lld %lld]", (long long)a->length, (long long)a->null_count);
  if (type >= GEOARROW_TYPE_WKB) {
    for (auto& x : ReadBinary(a, type == GEOARROW_TYPE_LARGE_WKB || type == GEOARROW_TYPE_LARGE_WKT)) s += x.null ? "N;" : x.value + ";";
    return s;
  }
  if (type % 1000 == GEOARROW_GEOMETRY_TYPE_BOX) {
    const uint8_t* v = (const uint8_t*)a->buffers[0];
    for (int64_t i = 0; i < a->length; i++) {
      bool null = v && !(v[i / 8] >> (i % 8) & 1);
      s += null ? "N" : "V";
      for (int64_t j = 0; j < a->n_children && !null; j++) s += Dbl(((const double*)a->children[j]->buffers[1])[i]) + ",";
    }
    return s;
  }
  for (auto& f : ReadNative(a, (enum GeoArrowType)type)) s += Show(f);
  return s;
}
static std::string SchemaDigest(const struct ArrowSchema* s) {
  std::string o = std::string(s->format ? s->format : "-") + "/" + (s->name ? s->name : "-") + "/";
  for (auto& kv : ReadSchemaMetadata(s->metadata)) o += kv.first + "=" + kv.second + ",";
  for (int64_t i = 0; i < s->n_children; i++) o += "(" + SchemaDigest(s->children[i]) + ")";
  return o;
}
// An output of a failed call was not produced
#define UNTOUCHED(rc, x) VF_CHECK(!(rc) || (x).release == nullptr, "code %d with an output", (rc))

static void Inject(Ctx& c, const std::function<Res()>& f);

#define TRY(x)            \
  do {                    \
    int rc_ = (x);        \
    if (rc_) {            \
      r.rc = rc_;         \
      return r;           \
    }                     \
  } while (0)

struct AtEnd {
  std::function<void()> f;
  ~AtEnd() { f(); }
};

static GenOpt Opt(Tape& t) {
  GenOpt o;
  o.max_depth = (int)t.Range(1, 4);
  o.max_coords = 12;
  o.long_seqs = t.Chance(1, 8);
  return o;
}

static void Schemas(Ctx& c) {
  Tape& t = c.t;
  std::vector<int> types;
  for (int i = 1; i < 8; i++)
    for (int d = 1; d <= 4; d++)
      for (int ct = 1; ct <= 2; ct++)
        if (i < 7) types.push_back(MakeT(i, d, ct));
  for (int d = 0; d < 4; d++) types.push_back(GEOARROW_TYPE_BOX + 1000 * d);
  for (int x : {GEOARROW_TYPE_WKB, GEOARROW_TYPE_WKT, GEOARROW_TYPE_LARGE_WKB, GEOARROW_TYPE_LARGE_WKT, GEOARROW_TYPE_WKB_VIEW, GEOARROW_TYPE_WKT_VIEW})
    types.push_back(x);
  int type = t.Pick(types), kind = (int)t.Below(4);
  c.label("schema");
  c.note(strf("schema of type %d, %d", type, kind));
  std::string crs = t.Coin() ? "\"EPSG:4326\"" : "{\"a\":\"" + std::string((size_t)t.Below(600), 'x') + "\"}";
  struct GeoArrowMetadataView mv;
  std::string meta = "{\"crs\":" + crs + ",\"edges\":\"spherical\"}";
  struct GeoArrowStringView ms{meta.data(), (int64_t)meta.size()};
  VF_CHECK(GeoArrowMetadataViewInit(&mv, ms, nullptr) == 0, "metadata");
  SchemaHolder src;
  VF_CHECK(GeoArrowSchemaInitExtension(&src.s, (enum GeoArrowType)type) == 0, "schema");
  VF_CHECK(GeoArrowSchemaSetMetadata(&src.s, &mv) == 0, "schema");
  Inject(c, [&] {
    Res r;
    SchemaHolder sh;
    int rc = kind & 1 ? GeoArrowSchemaInit(&sh.s, (enum GeoArrowType)type) : GeoArrowSchemaInitExtension(&sh.s, (enum GeoArrowType)type);
    if (rc) memset(&sh.s, 0, sizeof sh.s);  // nothing to release; the leak count tells
    TRY(rc);
    if (kind >= 2) {
      std::string before = SchemaDigest(&sh.s);
      rc = t.replaying() && kind == 9 ? 0 : (type & 1) ? GeoArrowSchemaSetMetadata(&sh.s, &mv) : GeoArrowSchemaSetMetadataFrom(&sh.s, &src.s);
      if (rc) VF_CHECK(SchemaDigest(&sh.s) == before, "changed by a failed call: %s, was %s", SchemaDigest(&sh.s).c_str(), before.c_str());
      TRY(rc);
    }
    if (!(kind & 1)) {
      struct GeoArrowSchemaView sv;
      TRY(GeoArrowSchemaViewInit(&sv, &sh.s, nullptr));
      VF_CHECK((int)sv.type == type, "type %d", sv.type);
    }
    r.out = SchemaDigest(&sh.s);
    return r;
  });
}

static void Readers(Ctx& c) {
  Tape& t = c.t;
  GenOpt o = Opt(t);
  o.max_depth = (int)t.Range(1, 12);
  std::vector<std::string> items;
  bool wkt = t.Coin();
  c.label(wkt ? "WKT reader" : "WKB reader");
  for (int i = 0; i < 3; i++) {
    G g = GenG(t, o);
    c.note(Show(g));
    WktStyle st;
    items.push_back(wkt ? RefWkt(g, st, nullptr, RefNum17, nullptr) : RefWkb(g, WkbOpt()));
  }
  bool view = t.Coin();
  Inject(c, [&] {
    Res r;
    auto one = [&](const std::string& s, auto&& visit) {
      // the first failure is reported; the next value is read all the same
      Recorder rec;
      int rc = visit(s, rec);
      long failing = g_alloc.fail_at;
      if (rc && g_alloc.failed) {
        g_alloc.fail_at = -1;
        Recorder again;
        VF_CHECK(visit(s, again) == 0, "still failing with memory back: %s", again.error.message);
        CheckRecorder(again, "again");
        g_alloc.fail_at = failing;
      }
      if (!rc) {
        CheckRecorder(rec, "reader");
        for (auto& f : rec.feats) r.out += Show(f);
      }
      return rc;
    };
    if (wkt) {
      struct GeoArrowWKTReader rd;
      memset(&rd, 0, sizeof rd);
      TRY(GeoArrowWKTReaderInit(&rd));
      AtEnd e{[&] { GeoArrowWKTReaderReset(&rd); }};
      for (auto& s : items)
        TRY(one(s, [&](const std::string& x, Recorder& rec) {
          struct GeoArrowStringView v{x.data(), (int64_t)x.size()};
          return GeoArrowWKTReaderVisit(&rd, v, &rec.v);
        }));
    } else {
      struct GeoArrowWKBReader rd;
      memset(&rd, 0, sizeof rd);
      TRY(GeoArrowWKBReaderInit(&rd));
      AtEnd e{[&] { GeoArrowWKBReaderReset(&rd); }};
      for (auto& s : items)
        TRY(one(s, [&](const std::string& x, Recorder& rec) {
          struct GeoArrowBufferView v;
          v.data = (const uint8_t*)x.data();
          v.size_bytes = (int64_t)x.size();
          if (!view) return (int)GeoArrowWKBReaderVisit(&rd, v, &rec.v);
          struct GeoArrowGeometryView gv;
          int rc = GeoArrowWKBReaderRead(&rd, v, &gv, &rec.error);
          return rc ? rc : GeoArrowGeometryViewVisit(gv, &rec.v);
        }));
    }
    return r;
  });
}

static void Writers(Ctx& c) {
  Tape& t = c.t;
  GenOpt o = Opt(t);
  int kind = (int)t.Below(4);  // WKT, WKB, native, array writer
  int type = kind == 0 ? GEOARROW_TYPE_WKT : kind == 1 ? GEOARROW_TYPE_WKB : MakeT((int)t.Range(1, 6), (int)t.Range(1, 4), (int)t.Range(1, 2));
  if (kind == 3 && t.Coin()) type = t.Coin() ? GEOARROW_TYPE_WKT : GEOARROW_TYPE_WKB;
  if (type < 100000) {
    o.types = {type % 1000};
    o.empty_point_members = false;
    if (t.Coin()) o.dims = type % 10000 / 1000 + 1;
  }
  static const char* kNames[] = {"WKT writer", "WKB writer", "native writer", "array writer"};
  c.label(kNames[kind]);
  std::vector<std::vector<Feat>> batches;
  for (int i = 1 + (int)t.Below(2); i > 0; i--) {
    batches.push_back(GenFeats(t, o, 10, t.Coin() ? 20 : 0));
    c.note(ShowFeats(batches.back(), 3));
  }
  // geometries as node lists, made beforehand
  bool append = kind >= 1 && kind <= 2 && t.Coin();
  std::vector<std::vector<std::unique_ptr<NodeGeom>>> nodes(batches.size());
  if (append)
    for (size_t b = 0; b < batches.size(); b++)
      for (auto& f : batches[b]) {
        nodes[b].emplace_back(new NodeGeom());
        if (!f.null) BuildNodes(f.g, nodes[b].back().get(), &t);
      }
  Inject(c, [&] {
    Res r;
    struct GeoArrowWKTWriter tw;
    struct GeoArrowWKBWriter bw;
    struct GeoArrowNativeWriter nw;
    struct GeoArrowArrayWriter aw;
    memset(&tw, 0, sizeof tw), memset(&bw, 0, sizeof bw), memset(&nw, 0, sizeof nw), memset(&aw, 0, sizeof aw);
    switch (kind) {
      case 0: TRY(GeoArrowWKTWriterInit(&tw)); break;
      case 1: TRY(GeoArrowWKBWriterInit(&bw)); break;
      case 2: TRY(GeoArrowNativeWriterInit(&nw, (enum GeoArrowType)type)); break;
      default: TRY(GeoArrowArrayWriterInitFromType(&aw, (enum GeoArrowType)type));
    }
    AtEnd e{[&] {
      switch (kind) {
        case 0: GeoArrowWKTWriterReset(&tw); break;
        case 1: GeoArrowWKBWriterReset(&bw); break;
        case 2: GeoArrowNativeWriterReset(&nw); break;
        default: GeoArrowArrayWriterReset(&aw);
      }
    }};
    struct GeoArrowError err;
    err.message[0] = 0;
    for (size_t b = 0; b < batches.size(); b++) {
      struct GeoArrowVisitor v;
      memset(&v, 0, sizeof v);
      switch (kind) {
        case 0: GeoArrowWKTWriterInitVisitor(&tw, &v); break;
        case 1: GeoArrowWKBWriterInitVisitor(&bw, &v); break;
        case 2: TRY(GeoArrowNativeWriterInitVisitor(&nw, &v)); break;
        default: TRY(GeoArrowArrayWriterInitVisitor(&aw, &v));
      }
      v.error = &err;
      for (size_t i = 0; i < batches[b].size(); i++) {
        const Feat& f = batches[b][i];
        if (!append)
          TRY(Emit(f, &v, nullptr));
        else if (kind == 1)
          TRY(f.null ? GeoArrowWKBWriterAppendNull(&bw) : GeoArrowWKBWriterAppend(&bw, nodes[b][i]->View()));
        else
          TRY(f.null ? GeoArrowNativeWriterAppendNull(&nw) : GeoArrowNativeWriterAppend(&nw, nodes[b][i]->View(), &err));
      }
      ArrayHolder out;
      int rc;
      switch (kind) {
        case 0: rc = GeoArrowWKTWriterFinish(&tw, &out.a, &err); break;
        case 1: rc = GeoArrowWKBWriterFinish(&bw, &out.a, &err); break;
        case 2: rc = GeoArrowNativeWriterFinish(&nw, &out.a, &err); break;
        default: rc = GeoArrowArrayWriterFinish(&aw, &out.a, &err);
      }
      UNTOUCHED(rc, out.a);
      TRY(rc);
      r.out += ArrayDigest(&out.a, type);
    }
    return r;
  });
}

static void Kernels(Ctx& c) {
  Tape& t = c.t;
  GenOpt o = Opt(t);
  static const char* kNames[] = {"void", "void_agg", "visit_void_agg", "format_wkt", "as_geoarrow", "unique_geometry_types_agg", "box", "box_agg"};
  int k = (int)t.Below(8);
  bool agg = k == 1 || k == 2 || k == 5 || k == 7;
  c.label(kNames[k]);
  if (k == 4) o.dims = (int)t.Range(1, 4), o.types = {(int)t.Range(1, 6)};
  int target = o.types.size() == 1 ? MakeT(o.types[0], o.dims, (int)t.Range(1, 2)) : 0;
  int type = PickSource(t, &o);
  if (k == 4 && t.Chance(1, 3)) target = t.Coin() ? GEOARROW_TYPE_WKT : GEOARROW_TYPE_WKB;
  c.note(strf("kernel %s of type %d to %d", kNames[k], type, target));
  std::vector<std::unique_ptr<SourceColumn>> cols;
  for (int i = (int)t.Range(1, 2); i > 0; i--) cols.emplace_back(new SourceColumn(t, type, GenFeats(t, o, 8)));
  SchemaHolder is;
  VF_CHECK(GeoArrowSchemaInitExtension(&is.s, (enum GeoArrowType)type) == 0, "schema");
  std::string meta = t.Coin() ? "{\"crs\":\"EPSG:4326\"}" : "{\"crs\":{\"a\":\"" + std::string((size_t)t.Below(300), 'x') + "\"}}";
  struct GeoArrowMetadataView mv;
  VF_CHECK(GeoArrowMetadataViewInit(&mv, GeoArrowStringView{meta.data(), (int64_t)meta.size()}, nullptr) == 0, "metadata");
  VF_CHECK(GeoArrowSchemaSetMetadata(&is.s, &mv) == 0, "metadata");
  std::string opts = EncodeOptions({{"type", std::to_string(target)}});
  Inject(c, [&] {
    Res r;
    struct GeoArrowKernel kn;
    memset(&kn, 0, sizeof kn);
    struct GeoArrowError err;
    err.message[0] = 0;
    TRY(GeoArrowKernelInit(&kn, kNames[k], nullptr));
    AtEnd e{[&] { kn.release(&kn); }};
    SchemaHolder os;
    int rc = kn.start(&kn, &is.s, k == 4 ? opts.data() : nullptr, &os.s, &err);
    UNTOUCHED(rc, os.s);
    if (rc && g_alloc.failed) {
      // a refused start can be tried again
      long at = g_alloc.fail_at;
      g_alloc.fail_at = -1;
      SchemaHolder os2;
      int rc2 = kn.start(&kn, &is.s, k == 4 ? opts.data() : nullptr, &os2.s, &err);
      VF_CHECK(rc2 == 0, "start still failing with memory back: %d %s", rc2, err.message);
      for (auto& col : cols) {
        ArrayHolder out;
        rc2 = kn.push_batch(&kn, &col->arr->a, agg ? nullptr : &out.a, &err);
        VF_CHECK(rc2 == 0, "push_batch after a start tried again: %d %s", rc2, err.message);
      }
      ArrayHolder out;
      rc2 = kn.finish(&kn, agg ? &out.a : nullptr, &err);
      VF_CHECK(rc2 == 0, "finish after a start tried again: %d %s", rc2, err.message);
      g_alloc.fail_at = at;
    }
    TRY(rc);
    r.out = SchemaDigest(&os.s);
    auto digest = [&](const struct ArrowArray* a) {
      switch (k) {
        case 3: return ArrayDigest(a, GEOARROW_TYPE_WKT);
        case 4: return ArrayDigest(a, target);
        case 6:
        case 7: return ArrayDigest(a, GEOARROW_TYPE_BOX);
        case 5: {
          std::string s;
          for (int64_t i = 0; i < a->length; i++) s += strf("%d,", ((const int32_t*)a->buffers[1])[i]);
          return s;
        }
        default: return strf("%lld", (long long)a->length);
      }
    };
    for (auto& col : cols) {
      ArrayHolder out;
      rc = kn.push_batch(&kn, &col->arr->a, agg ? nullptr : &out.a, &err);
      UNTOUCHED(rc, out.a);
      TRY(rc);
      if (!agg) r.out += digest(&out.a);
    }
    ArrayHolder out;
    rc = kn.finish(&kn, agg ? &out.a : nullptr, &err);
    UNTOUCHED(rc, out.a);
    TRY(rc);
    if (agg) r.out += digest(&out.a);
    return r;
  });
}

static void Geometries(Ctx& c) {
  Tape& t = c.t;
  GenOpt o = Opt(t);
  o.mixed_dims = t.Chance(1, 4);
  c.label("geometry objects");
  G g[2] = {GenG(t, o), GenG(t, o)};
  NodeGeom ng;
  BuildNodes(g[1], &ng, &t);
  c.note(Show(g[0]) + "\n" + Show(g[1]));
  int tail = (int)t.Below(3);
  Inject(c, [&] {
    Res r;
    struct GeoArrowGeometry a, b;
    memset(&a, 0, sizeof a), memset(&b, 0, sizeof b);
    TRY(GeoArrowGeometryInit(&a));
    AtEnd e{[&] { GeoArrowGeometryReset(&a); }};
    TRY(GeoArrowGeometryInit(&b));
    AtEnd e2{[&] { GeoArrowGeometryReset(&b); }};
    struct GeoArrowVisitor v;
    GeoArrowVisitorInitVoid(&v);
    GeoArrowGeometryInitVisitor(&a, &v);
    struct GeoArrowError err;
    v.error = &err;
    auto show = [&](struct GeoArrowGeometry* x) {
      Recorder rec;
      int rc = GeoArrowGeometryVisit(x, &rec.v);
      VF_CHECK(rc == 0, "visit: %d %s", rc, rec.error.message);
      CheckRecorder(rec, "geometry");
      for (auto& f : rec.feats) r.out += Show(f);
    };
    auto retry = [&](const std::function<int()>& f) {
      int rc = f();
      if (rc && g_alloc.failed) {
        long at = g_alloc.fail_at;
        g_alloc.fail_at = -1;
        VF_CHECK(f() == 0, "still failing with memory back");
        g_alloc.fail_at = at;
        std::string keep = r.out;
        show(&a);
        r.out = keep;
      }
      return rc;
    };
    TRY(retry([&] {
      Feat f;
      f.g = g[0];
      return Emit(f, &v, nullptr);
    }));
    show(&a);
    TRY(GeoArrowGeometryDeepCopy(GeoArrowGeometryAsView(&a), &b));
    show(&b);
    {
      // a copy that fails leaves the geometry as it was
      std::string keep = r.out;
      r.out.clear();
      show(&a);
      std::string before = r.out;
      TRY(retry([&] {
        int rc = GeoArrowGeometryDeepCopy(ng.View(), &a);
        if (rc) {
          r.out.clear();
          long at = g_alloc.fail_at;
          g_alloc.fail_at = -1;
          show(&a);
          g_alloc.fail_at = at;
          VF_CHECK(r.out == before, "changed by a copy that failed: %s, was %s", Quote(r.out).c_str(), Quote(before).c_str());
        }
        return rc;
      }));
      r.out = keep;
    }
    show(&a);
    if (tail == 0) TRY(retry([&] { return GeoArrowGeometryShallowCopy(ng.View(), &a); }));
    if (tail == 1) {
      int64_t n = a.size_nodes;
      struct GeoArrowGeometryNode* node = nullptr;
      int rc = GeoArrowGeometryAppendNode(&a, &node);
      VF_CHECK(rc ? a.size_nodes == n && !node : a.size_nodes == n + 1, "%lld nodes after code %d", (long long)a.size_nodes, rc);
      if (rc) show(&a);
      TRY(rc);
    }
    if (tail == 2) {
      int64_t n = a.size_nodes;
      int rc = GeoArrowGeometryResizeNodes(&a, n * 3 + 40);
      VF_CHECK(a.size_nodes == (rc ? n : n * 3 + 40), "%lld nodes", (long long)a.size_nodes);
      if (rc) show(&a);
      TRY(rc);
    }
    return r;
  });
}

static void GiveBack(uint8_t*, int64_t, void* p) { ++*(int*)p; }

static void Builders(Ctx& c) {
  Tape& t = c.t;
  int type = t.Chance(1, 4) ? (t.Coin() ? GEOARROW_TYPE_WKB : GEOARROW_TYPE_BOX) : MakeT((int)t.Range(1, 6), (int)t.Range(1, 4), (int)t.Range(1, 2));
  c.label("builder");
  c.note(strf("builder of type %d", type));
  size_t n = 1 + t.Below(40);
  bool native = type % 1000 <= 6 && type < 100000;
  int nd = native ? NDim(type % 10000 / 1000 + 1) : 0;
  std::vector<double> xs(n * 4);
  for (auto& x : xs) x = GenOrdinate(t, 1);
  std::vector<int32_t> offs{0, (int32_t)n}, one{0, 1};
  int levels = native ? NativeLevels(type % 1000) : 0;
  bool owned = t.Coin(), hpp = t.Coin();
  bool from_schema = t.Coin();
  std::vector<size_t> parts;
  for (size_t at = 0; at < n; at += parts.back()) parts.push_back(parts.size() < 6 ? 1 + t.Below(n - at) : n - at);
  SchemaHolder sh;
  VF_CHECK(GeoArrowSchemaInitExtension(&sh.s, (enum GeoArrowType)type) == 0, "schema");
  Inject(c, [&] {
    Res r;
    int given = 0, back = 0;
    // an operation that fails is done again with memory back and the rest goes on as if nothing had been
    int reported = 0;
    auto retry = [&](const std::function<int()>& f) {
      int rc = f();
      if (!rc || !g_alloc.failed || reported) return rc;
      reported = rc;
      g_alloc.fail_at = -1;
      rc = f();
      VF_CHECK(rc == 0, "still failing with memory back: %d", rc);
      return rc;
    };
    struct GeoArrowBuilder cb;
    memset(&cb, 0, sizeof cb);
    std::unique_ptr<geoarrow::ArrayBuilder> bp;
    struct GeoArrowBuilder* b = &cb;
    if (hpp) {
      try {
        bp.reset(from_schema ? new geoarrow::ArrayBuilder(&sh.s) : new geoarrow::ArrayBuilder((enum GeoArrowType)type));
      } catch (const geoarrow::ErrnoException& e) {
        r.rc = e.code;
        return r;
      }
      b = bp->builder();
    } else {
      TRY(from_schema ? GeoArrowBuilderInitFromSchema(&cb, &sh.s, nullptr) : GeoArrowBuilderInitFromType(&cb, (enum GeoArrowType)type));
    }
    auto body = [&] {
      for (int round = 0; round < 2; round++) {
        int64_t last = b->view.n_buffers - 1;
        for (int64_t i = 1; i <= last; i++) {
          std::string bytes;
          if (native ? i <= levels : type != GEOARROW_TYPE_BOX && i == 1) {
            auto& o = native && i < levels ? one : offs;
            bytes.assign((const char*)o.data(), o.size() * 4);
          } else if (native) {
            bytes.assign((const char*)xs.data(), n * 8 * (size_t)(type >= 10000 ? nd : 1));
          } else {
            bytes.assign((const char*)xs.data(), type == GEOARROW_TYPE_BOX ? n * 8 : n);
          }
          struct GeoArrowBufferView v;
          v.data = (const uint8_t*)bytes.data();
          v.size_bytes = (int64_t)bytes.size();
          if (owned) {
            v.data = (const uint8_t*)malloc(bytes.size());
            memcpy((void*)v.data, bytes.data(), bytes.size());
            struct Own {
              int* back;
            }* own = new Own{&back};
            int rc = retry([&] {
              return (int)GeoArrowBuilderSetOwnedBuffer(
                  b, i, v,
                  [](uint8_t* p, int64_t, void* pd) {
                    ++*((Own*)pd)->back;
                    free(p);
                    delete (Own*)pd;
                  },
                  own);
            });
            if (rc) {
              free((void*)v.data);
              delete own;
            } else {
              given++;
            }
            TRY(rc);
          } else if (native && i > levels) {
            if (i == levels + 1) {
              struct GeoArrowCoordView cv;
              memset(&cv, 0, sizeof cv);
              cv.n_coords = (int64_t)n;
              cv.n_values = nd;
              cv.coords_stride = 1;
              for (int j = 0; j < nd; j++) cv.values[j] = xs.data() + (size_t)j * n;
              // in parts; one that fails is done again a coordinate at a time such that the first may fit
              // in what had been reserved before
              size_t at = 0;
              for (size_t m : parts) {
                int tries = 0;
                auto coords = [&](size_t from, size_t count) {
                  return (int)GeoArrowBuilderCoordsAppend(b, &cv, (enum GeoArrowDimensions)(type % 10000 / 1000 + 1), (int64_t)from, (int64_t)count);
                };
                TRY(retry([&] {
                  if (!tries++) return coords(at, m);
                  for (size_t k = 0; k < m; k++)
                    if (int rc = coords(at + k, 1)) return rc;
                  return 0;
                }));
                at += m;
              }
            }
          } else {
            TRY(retry([&] { return (int)GeoArrowBuilderAppendBuffer(b, i, v); }));
          }
        }
        ArrayHolder out;
        struct GeoArrowError err;
        err.message[0] = 0;
        int rc = retry([&] {
          int rc2 = GeoArrowBuilderFinish(b, &out.a, &err);
          UNTOUCHED(rc2, out.a);
          return rc2;
        });
        TRY(rc);
        r.out += ArrayDigest(&out.a, type);
      }
      return r;
    };
    r = body();
    if (!hpp) GeoArrowBuilderReset(&cb);
    bp.reset();
    VF_CHECK(given == back, "%d buffers handed over, %d given back", given, back);
    r.redone = reported;
    return r;
  });
}

static void ReadersOfArrays(Ctx& c) {
  Tape& t = c.t;
  GenOpt o = Opt(t);
  int type = PickSource(t, &o);
  c.label("array reader");
  c.note(strf("array reader of type %d", type));
  std::vector<std::unique_ptr<SourceColumn>> cols;
  for (int i = (int)t.Range(1, 2); i > 0; i--) cols.emplace_back(new SourceColumn(t, type, GenFeats(t, o, 8)));
  int how = (int)t.Below(3);
  SchemaHolder sh;
  VF_CHECK(GeoArrowSchemaInitExtension(&sh.s, (enum GeoArrowType)type) == 0, "schema");
  Inject(c, [&] {
    Res r;
    struct GeoArrowArrayReader rd;
    memset(&rd, 0, sizeof rd);
    std::unique_ptr<geoarrow::ArrayReader> rp;
    if (how == 2) {
      try {
        rp.reset(new geoarrow::ArrayReader(&sh.s));
        for (auto& col : cols) {
          Recorder rec;
          rp->SetArrayNonOwning(&col->arr->a);
          TRY(rp->Visit(&rec.v, 0, col->arr->a.length, &rec.error));
          for (auto& f : rec.feats) r.out += Show(f);
        }
      } catch (const geoarrow::ErrnoException& e) {
        r.rc = e.code;
      }
      return r;
    }
    TRY(how ? GeoArrowArrayReaderInitFromSchema(&rd, &sh.s, nullptr) : GeoArrowArrayReaderInitFromType(&rd, (enum GeoArrowType)type));
    AtEnd e{[&] { GeoArrowArrayReaderReset(&rd); }};
    for (auto& col : cols) {
      Recorder rec;
      int rc = GeoArrowArrayReaderSetArray(&rd, &col->arr->a, nullptr);
      if (!rc) rc = GeoArrowArrayReaderVisit(&rd, 0, col->arr->a.length, &rec.v);
      if (rc && g_alloc.failed) {
        // the same reader takes the same array once memory is back
        long at = g_alloc.fail_at;
        g_alloc.fail_at = -1;
        Recorder again;
        VF_CHECK(GeoArrowArrayReaderSetArray(&rd, &col->arr->a, nullptr) == 0 &&
                     GeoArrowArrayReaderVisit(&rd, 0, col->arr->a.length, &again.v) == 0,
                 "still failing with memory back: %s", again.error.message);
        CheckRecorder(again, "again");
        VF_CHECK((int64_t)again.feats.size() == col->arr->a.length, "%zu features", again.feats.size());
        g_alloc.fail_at = at;
      }
      TRY(rc);
      for (auto& f : rec.feats) r.out += Show(f);
    }
    return r;
  });
}

static void Types(Ctx& c) {
  Tape& t = c.t;
  c.label("C++ types");
  int type = MakeT((int)t.Range(1, 6), (int)t.Range(1, 4), (int)t.Range(1, 2));
  std::string crs(t.Below(400), 'q');
  Inject(c, [&] {
    Res r;
    try {
      auto ty = geoarrow::GeometryDataType::Make((enum GeoArrowType)type).WithCrs(crs, GEOARROW_CRS_TYPE_UNKNOWN);
      SchemaHolder s1, s2;
      ty.InitSchema(&s1.s);
      ty.InitStorageSchema(&s2.s);
      r.out = SchemaDigest(&s1.s) + SchemaDigest(&s2.s);
      auto back = geoarrow::GeometryDataType::Make(&s1.s);
      r.out += back.ToString() + back.crs();
    } catch (const geoarrow::ErrnoException& e) {
      r.rc = e.code;
      VF_CHECK(r.rc, "an exception with code 0: %s", e.what());
    } catch (const std::exception& e) {
      r.rc = ENOMEM;
    }
    return r;
  });
}
