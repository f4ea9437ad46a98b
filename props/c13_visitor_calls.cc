// C13: writers and any sequence of visitor calls
#include "kernel_util.h"
#include "native_util.h"
using namespace vf;

enum Kind { FS, NF, GS, RS, CO, RE, GE, FE };
struct Ev {
  Kind k;
  int gt = 0, dims = 0, nv = 2, n = 0;
  std::vector<double> xs;
  std::string Key() const {
    std::string s = strf("%d,%d,%d,%d,%d:", (int)k, gt, dims, nv, n);
    s.append((const char*)xs.data(), xs.size() * 8);
    return s;
  }
};

// Turns a visit into a list of calls
struct EvRec {
  struct GeoArrowVisitor v;
  std::vector<Ev> evs;
  static int Add(struct GeoArrowVisitor* v, Kind k, int gt = 0, int dims = 0) {
    Ev e;
    e.k = k, e.gt = gt, e.dims = dims;
    ((EvRec*)v->private_data)->evs.push_back(e);
    return 0;
  }
  EvRec() {
    memset(&v, 0, sizeof v);
    v.private_data = this;
    v.feat_start = [](struct GeoArrowVisitor* v) { return Add(v, FS); };
    v.null_feat = [](struct GeoArrowVisitor* v) { return Add(v, NF); };
    v.geom_start = [](struct GeoArrowVisitor* v, enum GeoArrowGeometryType g, enum GeoArrowDimensions d) { return Add(v, GS, g, d); };
    v.ring_start = [](struct GeoArrowVisitor* v) { return Add(v, RS); };
    v.ring_end = [](struct GeoArrowVisitor* v) { return Add(v, RE); };
    v.geom_end = [](struct GeoArrowVisitor* v) { return Add(v, GE); };
    v.feat_end = [](struct GeoArrowVisitor* v) { return Add(v, FE); };
    v.coords = [](struct GeoArrowVisitor* v, const struct GeoArrowCoordView* c) {
      Ev e;
      e.k = CO, e.nv = c->n_values, e.n = (int)c->n_coords;
      for (int64_t i = 0; i < c->n_coords; i++)
        for (int j = 0; j < c->n_values; j++) e.xs.push_back(GEOARROW_COORD_VIEW_VALUE(c, i, j));
      ((EvRec*)v->private_data)->evs.push_back(e);
      return 0;
    };
  }
};

static Ev Random(Tape& t) {
  Ev e;
  e.k = (Kind)t.Below(8);
  e.gt = (int)t.Below(8);
  e.dims = t.Chance(1, 12) ? 0 : (int)t.Range(1, 4);
  e.nv = (int)t.Range(2, 4);
  if (e.k == CO) {
    e.n = t.Small(5);
    for (int i = 0; i < e.n * e.nv; i++) e.xs.push_back((double)t.Below(100));
  }
  return e;
}

// nv: the ordinates of the geometry begun last. A coordinate view always agrees with it
static int Call(struct GeoArrowVisitor* v, Ev e, int nv, Tape& t) {
  if (e.k == CO && e.nv != nv) {
    std::vector<double> xs((size_t)(e.n * nv), 7);
    for (int i = 0; i < e.n; i++)
      for (int j = 0; j < nv && j < e.nv; j++) xs[(size_t)(i * nv + j)] = e.xs[(size_t)(i * e.nv + j)];
    e.nv = nv, e.xs = xs;
  }
  switch (e.k) {
    case FS: return v->feat_start(v);
    case NF: return v->null_feat(v);
    case GS: return v->geom_start(v, (enum GeoArrowGeometryType)e.gt, (enum GeoArrowDimensions)e.dims);
    case RS: return v->ring_start(v);
    case RE: return v->ring_end(v);
    case GE: return v->geom_end(v);
    case FE: return v->feat_end(v);
    case CO: {
      struct GeoArrowCoordView c;
      memset(&c, 0, sizeof c);
      c.n_coords = e.n;
      c.n_values = e.nv;
      std::unique_ptr<double[]> xs(new double[e.xs.size()]);
      bool sep = t.Coin();
      for (int i = 0; i < e.n; i++)
        for (int j = 0; j < e.nv; j++) xs[sep ? j * e.n + i : i * e.nv + j] = e.xs[(size_t)(i * e.nv + j)];
      c.coords_stride = sep ? 1 : e.nv;
      for (int j = 0; j < e.nv; j++) c.values[j] = xs.get() + (sep ? j * e.n : j);
      return v->coords(v, &c);
    }
  }
  return 0;
}

// Is an array what its type says, by its own buffers?
static void CheckList(const struct ArrowArray* a, const char* what) {
  VF_CHECK(a->n_buffers == 2 && a->n_children == 1, "%s: %lld buffers, %lld children", what, (long long)a->n_buffers, (long long)a->n_children);
  if (a->length + a->offset == 0) return;
  const int32_t* o = (const int32_t*)a->buffers[1];
  VF_CHECK(o && o[0] >= 0, "%s: first offset", what);
  for (int64_t i = 0; i < a->length + a->offset; i++) VF_CHECK(o[i] <= o[i + 1], "%s: offset %lld", what, (long long)i + 1);
  VF_CHECK(o[a->length + a->offset] <= a->children[0]->length, "%s: offsets up to %d over %lld elements", what,
           (int)o[a->length + a->offset], (long long)a->children[0]->length);
}

static void CheckArray(const struct ArrowArray* a, int type) {
  VF_CHECK(a->release && a->length >= 0 && a->offset >= 0, "length %lld offset %lld", (long long)a->length, (long long)a->offset);
  int64_t nulls = 0;
  const uint8_t* bits = (const uint8_t*)a->buffers[0];
  if (bits)
    for (int64_t i = 0; i < a->length; i++) {
      int64_t k = i + a->offset;
      nulls += !(bits[k / 8] >> (k % 8) & 1);
    }
  VF_CHECK(a->null_count == -1 || a->null_count == nulls, "null_count %lld, %lld nulls", (long long)a->null_count, (long long)nulls);
  int gt = type % 1000;
  if (type > 100000) {
    bool large = type == GEOARROW_TYPE_LARGE_WKB || type == GEOARROW_TYPE_LARGE_WKT;
    VF_CHECK(a->n_buffers == 3, "%lld buffers", (long long)a->n_buffers);
    int64_t last = 0;
    for (int64_t i = 0; a->length && i <= a->length + a->offset; i++) {
      int64_t o = large ? ((const int64_t*)a->buffers[1])[i] : ((const int32_t*)a->buffers[1])[i];
      VF_CHECK(o >= last, "offset %lld", (long long)i);
      last = o;
    }
    // Every byte is there
    if (last) VF_CHECK(Hash(a->buffers[2], (size_t)last) != 1, "never");
    return;
  }
  const struct ArrowArray* x = a;
  for (int l = NativeLevels(gt); l > 0; l--) {
    CheckList(x, "list");
    x = x->children[0];
  }
  int nv = NDim((type % 10000) / 1000 + 1);
  double sum = 0;
  if (type >= 10000) {
    VF_CHECK(x->n_children == 1 && x->children[0]->length >= (x->length + x->offset) * nv, "%lld ordinates for %lld coordinates",
             (long long)x->children[0]->length, (long long)x->length);
    for (int64_t i = 0; i < x->length * nv; i++) sum += ((const double*)x->children[0]->buffers[1])[i];
  } else {
    VF_CHECK(x->n_children == nv, "%lld children", (long long)x->n_children);
    for (int j = 0; j < nv; j++) {
      VF_CHECK(x->children[j]->length >= x->length + x->offset, "%lld ordinates for %lld coordinates", (long long)x->children[j]->length,
               (long long)x->length);
      for (int64_t i = 0; i < x->length; i++) sum += ((const double*)x->children[j]->buffers[1])[i];
    }
  }
  volatile double sink = sum;
  (void)sink;
}

static void Run(Ctx& c) {
  Tape& t = c.t;
  Live live;
  {
    int type = 0;  // 0: a geometry object
    switch (t.Below(6)) {
      case 0: break;
      case 1: type = t.Coin() ? GEOARROW_TYPE_WKT : GEOARROW_TYPE_LARGE_WKT; break;
      case 2: type = t.Coin() ? GEOARROW_TYPE_WKB : GEOARROW_TYPE_LARGE_WKB; break;
      default: type = MakeT((int)t.Range(1, 6), (int)t.Range(1, 4), (int)t.Range(1, 2)); break;
    }
    struct GeoArrowGeometry geom;
    struct GeoArrowArrayWriter w;
    memset(&w, 0, sizeof w);
    memset(&geom, 0, sizeof geom);
    int rc = type ? GeoArrowArrayWriterInitFromType(&w, (enum GeoArrowType)type) : GeoArrowGeometryInit(&geom);
    if (rc != 0) {
      VF_CHECK(type == GEOARROW_TYPE_LARGE_WKT || type == GEOARROW_TYPE_LARGE_WKB, "no writer for %d: %d", type, rc);
      type = type == GEOARROW_TYPE_LARGE_WKT ? GEOARROW_TYPE_WKT : GEOARROW_TYPE_WKB;
      rc = GeoArrowArrayWriterInitFromType(&w, (enum GeoArrowType)type);
      VF_CHECK(rc == 0, "no writer for %d: %d", type, rc);
    }
    struct Guard {
      std::function<void()> f;
      ~Guard() { f(); }
    } guard{[&] {
      if (type) GeoArrowArrayWriterReset(&w);
      else GeoArrowGeometryReset(&geom);
    }};
    struct GeoArrowVisitor v;
    struct GeoArrowError err;
    err.message[0] = 0;
    GeoArrowVisitorInitVoid(&v);
    if (type) {
      rc = GeoArrowArrayWriterInitVisitor(&w, &v);
      VF_CHECK(rc == 0, "InitVisitor: %d", rc);
    } else {
      GeoArrowGeometryInitVisitor(&geom, &v);
    }
    v.error = t.Chance(1, 8) ? nullptr : &err;

    // Calls: those of some features, with changes
    GenOpt o;
    o.max_coords = 6, o.max_depth = 3, o.long_seqs = false;
    if (type && type < 100000 && t.Coin()) o.types = {type % 1000};
    EvRec rec;
    auto base = GenFeats(t, o, 3);
    for (auto& f : base) VF_CHECK(Emit(f, &rec.v, &t) == 0, "recording");
    std::vector<Ev> evs = rec.evs;
    int changes = t.Small(6);
    if (t.Chance(1, 10)) {  // deep
      int d = (int)t.Range(25, 40);
      std::vector<Ev> deep;
      for (int i = 0; i < d; i++) {
        Ev e;
        e.k = GS, e.gt = t.Chance(1, 6) ? (int)t.Below(8) : GC, e.dims = (int)t.Range(1, 4);
        deep.push_back(e);
      }
      if (t.Coin()) deep.push_back(Random(t));
      size_t at = t.Below(evs.size() + 1);
      evs.insert(evs.begin() + (long)at, deep.begin(), deep.end());
    }
    for (int i = 0; i < changes; i++) {
      size_t n = evs.size();
      switch (t.Below(6)) {
        case 0:
          if (n) evs.erase(evs.begin() + (long)t.Below(n));
          break;
        case 1: evs.insert(evs.begin() + (long)t.Below(n + 1), Random(t)); break;
        case 2:
          if (n) {
            Ev e = evs[t.Below(n)];
            evs.insert(evs.begin() + (long)t.Below(n + 1), e);
          }
          break;
        case 3:
          if (n) {
            size_t x = t.Below(n), y = t.Below(n);
            std::swap(evs[x], evs[y]);
          }
          break;
        case 4:
          if (n) evs.resize(t.Below(n + 1));
          break;
        default:
          for (int k = t.Small(12); k > 0; k--) evs.push_back(Random(t));
          break;
      }
    }
    // Features begin with feat_start and end with feat_end, and every other call is inside one. A producer whose call failed
    // may leave its feature without an end
    bool go_on = t.Coin();  // also after a call that failed
    bool failed = false, feat_failed = false;
    int nv = 4;
    std::vector<int> row;  // per feature begun: -1 not ended, 0, 1 null
    bool null = false;
    int64_t ended = 0;
    std::string key = strf("%d:", type);
    long done = 0;
    c.note(strf("type %d, %zu calls, %d changes%s", type, evs.size(), changes, go_on ? ", goes on" : ""));
    static const char* names[] = {"feat_start", "null_feat", "geom_start", "ring_start", "coords", "ring_end", "geom_end", "feat_end"};
    bool leave = t.Coin();  // leaves a feature with a failed call
    {
      std::vector<Ev> fixed;
      bool in = false;
      for (auto& e : evs) {
        if (!in && e.k != FS) continue;
        if (in && e.k == FS) {
          Ev end;
          end.k = FE;
          fixed.push_back(end);
        }
        if (e.k == FS) in = true;
        if (e.k == FE) in = false;
        fixed.push_back(e);
      }
      if (in) {
        Ev end;
        end.k = FE;
        fixed.push_back(end);
      }
      evs = fixed;
    }
    for (auto& e : evs) {
      if (feat_failed && leave && e.k != FS) continue;
      if (e.k == FS) feat_failed = false, nv = 4;
      if (e.k == GS) nv = e.dims ? NDim(e.dims) : 4;
      err.message[0] = 0;
      rc = Call(&v, e, nv, t);
      c.note(strf("%s %d %d %dx%d -> %d", names[e.k], e.gt, e.dims, e.n, e.nv, rc));
      key += e.Key();
      done++;
      VF_CHECK(memchr(err.message, 0, sizeof err.message), "message without an end");
      if (rc) {
        failed = feat_failed = true;
        c.label(strf("%s fails", names[e.k]));
        if (!go_on) break;
      } else {
        if (e.k == FS) row.push_back(-1), null = false;
        if (e.k == NF) null = true;
        if (e.k == FE) row.back() = null, ended++;
      }
    }
    // What comes out
    if (type) {
      ArrayHolder a;
      err.message[0] = 0;
      rc = GeoArrowArrayWriterFinish(&w, &a.a, &err);
      if (rc) {
        VF_CHECK(!a.a.release, "Finish fails with %d and gives an array", rc);
        c.label("Finish fails");
      } else if (failed && type > 100000) {
        // A feature that failed is a row, and the others are as they would be
        CheckArray(&a.a, type);
        VF_CHECK(a.a.length == (int64_t)row.size(), "%lld rows for %zu features", (long long)a.a.length, row.size());
        const uint8_t* bits = (const uint8_t*)a.a.buffers[0];
        for (size_t i = 0; i < row.size(); i++) {
          bool is_null = bits && !(bits[i / 8] >> (i % 8) & 1);
          VF_CHECK(row[i] < 0 || is_null == (row[i] == 1), "row %zu %s null", i, is_null ? "is" : "is not");
        }
        c.label("Finish after a failed call");
      } else if (!failed) {
        CheckArray(&a.a, type);
        VF_CHECK(a.a.length == ended, "%lld rows for %lld features", (long long)a.a.length, (long long)ended);
        c.label("Finish");
        // The next batch is as it should be
        GenOpt o2;
        o2.max_coords = 5, o2.max_depth = 2, o2.long_seqs = false, o2.empty_point_members = false;
        if (type < 100000) o2.types = {type % 1000}, o2.dims = (type % 10000) / 1000 + 1;
        auto feats = GenFeats(t, o2, 3);
        for (auto& f : feats) {
          rc = Emit(f, &v, &t);
          VF_CHECK(rc == 0, "next batch: %d %s", rc, err.message);
        }
        ArrayHolder b;
        rc = GeoArrowArrayWriterFinish(&w, &b.a, &err);
        VF_CHECK(rc == 0, "next batch: Finish %d %s", rc, err.message);
        CheckArray(&b.a, type);
        Recorder r;
        struct GeoArrowArrayReader ar;
        VF_CHECK(GeoArrowArrayReaderInitFromType(&ar, (enum GeoArrowType)type) == 0, "reader");
        rc = GeoArrowArrayReaderSetArray(&ar, &b.a, nullptr);
        if (rc == 0) rc = GeoArrowArrayReaderVisit(&ar, 0, b.a.length, &r.v);
        GeoArrowArrayReaderReset(&ar);
        VF_CHECK(rc == 0, "next batch: visit %d", rc);
        std::vector<Feat> want;
        for (auto& f : feats) {
          want.push_back(Carried(f, type));
          if (type < 100000 && !f.null) {
            want.back().g.type = type % 1000, want.back().g.dims = (type % 10000) / 1000 + 1;
            VF_CHECK(ToNative(f.g, type % 1000, (type % 10000) / 1000 + 1, true, &want.back().g) == FIT, "generator");
          }
        }
        if (type != GEOARROW_TYPE_WKT && type != GEOARROW_TYPE_LARGE_WKT) {
          std::string why;
          VF_CHECK(SameFeats(r.feats, want, &why), "next batch: %s", why.c_str());
        } else {
          VF_CHECK(r.feats.size() == want.size(), "next batch: %zu rows", r.feats.size());
        }
        c.label("next batch");
      }
    } else {
      // The object is written again by the next feature, whatever was before
      GenOpt o2;
      o2.max_coords = 5, o2.max_depth = 3, o2.long_seqs = false;
      auto feats = GenFeats(t, o2, 3);
      for (auto& f : feats) {
        rc = Emit(f, &v, &t);
        VF_CHECK(rc == 0, "next feature: %d %s", rc, err.message);
        Recorder r;
        VF_CHECK(r.v.feat_start(&r.v) == 0, "rec");
        if (f.null) continue;
        Recorder r2;
        rc = GeoArrowGeometryVisit(&geom, &r2.v);
        VF_CHECK(rc == 0, "next feature: visit %d %s", rc, r2.error.message);
        std::string why;
        VF_CHECK(SameFeats(r2.feats, {f}, &why), "next feature: %s", why.c_str());
      }
      c.label("geometry");
    }
    c.label(type == 0 ? "to geometry" : type > 100000 ? "to text or bytes" : "to native");
    if (changes && done >= 4) c.nontrivial(key);
  }
  live.Check("visitor calls");
}

VF_PROP("C13", Run,
        "the visitor calls of random features with calls dropped, repeated, swapped, inserted and cut off, and deep nesting, made "
        "on WKT, WKB and native writers of every type and on geometry objects, on and on or up to the first error; then Finish "
        "and a well-formed batch. Non-trivial: changed sequences of at least four calls")
