// C24: visitors that stop a visit
#include "kernel_util.h"
using namespace vf;

// Writes down every call with its arguments, and stops where asked to
struct Tracer {
  struct GeoArrowVisitor v;
  struct GeoArrowError error;
  std::vector<std::string> calls;
  long fail_at = -1;
  int code = 0;
  bool message = false;
  long after = 0;
  bool stopped = false;
  Recorder inner;
  bool protocol = true;
  Tracer() {
    memset(&v, 0, sizeof v);
    error.message[0] = 0;
    v.feat_start = [](struct GeoArrowVisitor* v) { return T(v)->Hit("feat_start", v, [](auto* i) { return i->feat_start(i); }); };
    v.null_feat = [](struct GeoArrowVisitor* v) { return T(v)->Hit("null_feat", v, [](auto* i) { return i->null_feat(i); }); };
    v.geom_start = [](struct GeoArrowVisitor* v, enum GeoArrowGeometryType g, enum GeoArrowDimensions d) {
      return T(v)->Hit(strf("geom_start %d %d", (int)g, (int)d), v, [=](auto* i) { return i->geom_start(i, g, d); });
    };
    v.ring_start = [](struct GeoArrowVisitor* v) { return T(v)->Hit("ring_start", v, [](auto* i) { return i->ring_start(i); }); };
    v.coords = [](struct GeoArrowVisitor* v, const struct GeoArrowCoordView* c) {
      std::string s = strf("coords %lld of %d:", (long long)c->n_coords, (int)c->n_values);
      for (int64_t i = 0; i < c->n_coords; i++)
        for (int j = 0; j < c->n_values; j++) {
          double x = GEOARROW_COORD_VIEW_VALUE(c, i, j);
          if (std::isnan(x)) x = NAN;
          s.append((const char*)&x, 8);
        }
      return T(v)->Hit(s, v, [=](auto* i) { return i->coords(i, c); });
    };
    v.ring_end = [](struct GeoArrowVisitor* v) { return T(v)->Hit("ring_end", v, [](auto* i) { return i->ring_end(i); }); };
    v.geom_end = [](struct GeoArrowVisitor* v) { return T(v)->Hit("geom_end", v, [](auto* i) { return i->geom_end(i); }); };
    v.feat_end = [](struct GeoArrowVisitor* v) { return T(v)->Hit("feat_end", v, [](auto* i) { return i->feat_end(i); }); };
    v.private_data = this;
    v.error = &error;
  }
  Tracer(const Tracer&) = delete;
  static Tracer* T(struct GeoArrowVisitor* v) { return (Tracer*)v->private_data; }
  template <class F>
  int Hit(const std::string& what, struct GeoArrowVisitor* given, F f) {
    VF_CHECK(given == &v, "a callback got a copy of the visitor");
    if (stopped) {
      after++;
      return code;
    }
    if ((long)calls.size() == fail_at) {
      stopped = true;
      if (message && v.error) snprintf(v.error->message, sizeof v.error->message, "the visitor stops here");
      calls.push_back(what);
      return code;
    }
    calls.push_back(what);
    return f(&inner.v);
  }
};

// Something that drives a visitor, any number of times
using Source = std::function<int(struct GeoArrowVisitor*)>;

static std::string Name(const std::string& s) { return s.substr(0, s.find(':')); }

static void Run(Ctx& c) {
  Tape& t = c.t;
  Live live;
  {
    GenOpt o;
    o.max_coords = t.Chance(1, 8) ? 40 : 6;
    o.long_seqs = t.Chance(1, 6);
    o.max_depth = (int)t.Range(1, 4);
    int kind = (int)t.Below(8);
    Source src;
    std::vector<Feat> want;
    bool have_want = true;
    std::string what;
    std::vector<std::shared_ptr<void>> keep;
    auto hold = [&](auto p) {
      keep.push_back(p);
      return p.get();
    };
    bool malformed = false;
    if (kind <= 1) {
      o.mixed_dims = t.Chance(1, 3);
      G g = GenG(t, o);
      std::string bytes;
      if (kind == 0) {
        WktStyle s;
        s.flat_multipoint = t.Coin();
        bytes = RefWkt(g, s, &t, SourceColumn::NumTok, nullptr);
        what = "WKT reader";
        want = OneFeat(g);
      } else {
        WkbOpt w;
        w.endian = (int)t.Below(2);
        w.flavor = (int)t.Below(2);
        w.mixed_endian = t.Coin();
        bytes = RefWkb(g, w, &t);
        what = "WKB reader";
        want = OneFeat(WkbForm(g));
      }
      have_want = kind == 1 || !o.mixed_dims;
      if (t.Chance(1, 5) && bytes.size()) {
        if (t.Coin())
          bytes.resize(t.Below(bytes.size()));
        else
          bytes[t.Below(bytes.size())] = (char)t.Byte();
        malformed = true;
      }
      c.note(what + " of " + (kind == 0 ? Quote(bytes) : Hex(bytes.data(), bytes.size(), 200)));
      auto* e = hold(std::make_shared<Exact>(bytes));
      if (kind == 0) {
        auto* r = hold(std::make_shared<WktReader>());
        src = [=](struct GeoArrowVisitor* v) { return GeoArrowWKTReaderVisit(&r->r, e->Str(), v); };
      } else {
        auto* r = hold(std::make_shared<WkbReader>());
        src = [=](struct GeoArrowVisitor* v) { return GeoArrowWKBReaderVisit(&r->r, e->View(), v); };
      }
    } else if (kind <= 5) {
      int type = PickSource(t, &o);
      auto feats = GenFeats(t, o, 6, 20);
      auto* col = hold(std::make_shared<SourceColumn>(t, type, feats));
      for (auto& f : feats) want.push_back(Carried(f, type));
      int n = (int)feats.size();
      int64_t from = t.Range(0, n), len = t.Range(0, n - from);
      if (t.Coin()) from = 0, len = n;
      want = std::vector<Feat>(want.begin() + from, want.begin() + from + len);
      what = strf("array of type %d, rows %lld+%lld", type, (long long)from, (long long)len);
      c.note(what + "\n" + ShowFeats(want));
      struct AR {
        struct GeoArrowArrayReader r;
        ~AR() { GeoArrowArrayReaderReset(&r); }
      };
      auto p = std::make_shared<AR>();
      int rc = t.Coin() ? GeoArrowArrayReaderInitFromType(&p->r, (enum GeoArrowType)type)
                        : GeoArrowArrayReaderInitFromSchema(&p->r, &col->schema.s, nullptr);
      VF_CHECK(rc == 0, "init: %d", rc);
      auto* r = hold(p);
      rc = GeoArrowArrayReaderSetArray(&r->r, &col->arr->a, nullptr);
      VF_CHECK(rc == 0, "SetArray: %d", rc);
      const struct GeoArrowArrayView* av = nullptr;
      if (!IsSerialized(type) && t.Coin()) {
        VF_CHECK(GeoArrowArrayReaderArrayView(&r->r, &av) == 0, "ArrayView");
        src = [=](struct GeoArrowVisitor* v) { return GeoArrowArrayViewVisitNative(av, from, len, v); };
        what += " (view)";
      } else {
        src = [=](struct GeoArrowVisitor* v) { return GeoArrowArrayReaderVisit(&r->r, from, len, v); };
      }
      c.label(IsSerialized(type) ? (IsWktType(type) ? "array of WKT" : "array of WKB") : strf("native %s", TypeName(type % 1000)));
    } else if (kind == 6) {
      o.mixed_dims = t.Chance(1, 3);
      G g = GenG(t, o);
      want = OneFeat(g);
      auto* n = hold(std::make_shared<NodeGeom>());
      BuildNodes(g, n, &t);
      what = "geometry";
      if (t.Coin()) {
        what = "geometry view";
        src = [=](struct GeoArrowVisitor* v) { return GeoArrowGeometryViewVisit(n->View(), v); };
      } else {
        struct GG {
          struct GeoArrowGeometry g;
          ~GG() { GeoArrowGeometryReset(&g); }
        };
        auto p = std::make_shared<GG>();
        VF_CHECK(GeoArrowGeometryInit(&p->g) == 0, "init");
        auto* gg = hold(p);
        VF_CHECK(GeoArrowGeometryDeepCopy(n->View(), &gg->g) == 0, "copy");
        src = [=](struct GeoArrowVisitor* v) { return GeoArrowGeometryVisit(&gg->g, v); };
      }
      c.note(what + " " + Show(g));
    } else {
      int n = 1 + t.Small(5);
      std::vector<std::vector<double>> rows;
      std::vector<bool> nulls;
      for (int i = 0; i < n; i++) {
        std::vector<double> r(4);
        for (auto& x : r) x = GenOrdinate(t, 2);
        if (r[0] > r[2] && !t.Chance(1, 5)) std::swap(r[0], r[2]);
        if (r[1] > r[3] && !t.Chance(1, 5)) std::swap(r[1], r[3]);
        nulls.push_back(t.Chance(1, 6));
        rows.push_back(r);
      }
      have_want = false;
      NativeOpt no;
      auto* arr = hold(std::shared_ptr<RefArray>(BuildBox(t, GEOARROW_TYPE_BOX, rows, nulls, no)));
      struct AR {
        struct GeoArrowArrayReader r;
        ~AR() { GeoArrowArrayReaderReset(&r); }
      };
      auto p = std::make_shared<AR>();
      VF_CHECK(GeoArrowArrayReaderInitFromType(&p->r, GEOARROW_TYPE_BOX) == 0, "init");
      auto* r = hold(p);
      VF_CHECK(GeoArrowArrayReaderSetArray(&r->r, &arr->a, nullptr) == 0, "SetArray");
      src = [=](struct GeoArrowVisitor* v) { return GeoArrowArrayReaderVisit(&r->r, 0, n, v); };
      what = strf("%d boxes", n);
      c.note(what);
    }
    c.label(what.substr(0, what.find(' ')));

    // Uninterrupted
    Tracer full;
    int full_rc = src(&full.v);
    std::string full_msg = full.error.message;
    VF_CHECK(full.inner.protocol_error.empty(), "%s: visitor protocol: %s", what.c_str(), full.inner.protocol_error.c_str());
    if (!malformed) {
      VF_CHECK(full_rc == 0, "%s: %d %s", what.c_str(), full_rc, full_msg.c_str());
      CheckRecorder(full.inner, what.c_str());
      std::string why;
      if (have_want) VF_CHECK(SameFeats(full.inner.feats, want, &why), "%s: %s", what.c_str(), why.c_str());
    } else {
      c.label(full_rc ? "malformed" : "changed");
    }
    long n = (long)full.calls.size();
    auto same = [&](const Tracer& x, long upto, const char* when) {
      VF_CHECK((long)x.calls.size() == upto, "%s: %zu calls %s, expected %ld", what.c_str(), x.calls.size(), when, upto);
      for (long i = 0; i < upto; i++)
        VF_CHECK(x.calls[i] == full.calls[i], "%s: call %ld %s is '%s', uninterrupted '%s'", what.c_str(), i, when,
                 Name(x.calls[i]).c_str(), Name(full.calls[i]).c_str());
    };
    std::vector<long> at;
    if (n <= 24) {
      for (long i = 0; i < n; i++) at.push_back(i);
    } else {
      for (int i = 0; i < 16; i++) at.push_back((long)t.Below((uint64_t)n));
      at.push_back(n - 1);
    }
    static const int kCodes[] = {EINVAL, EAGAIN, ENOMEM, ENOTSUP, EIO, ENODATA, 1, -1, 2147483647, -2147483647 - 1, 3000, ERANGE, EOVERFLOW};
    for (long k : at) {
      Tracer x;
      x.fail_at = k;
      x.code = kCodes[t.Below(sizeof kCodes / sizeof *kCodes)];
      x.message = t.Coin();
      if (t.Chance(1, 6)) x.v.error = nullptr;
      int rc = src(&x.v);
      std::string when = strf("when call %ld ('%s') returns %d", k, Name(full.calls[k]).c_str(), x.code);
      VF_CHECK(x.stopped, "%s: never got to call %ld", what.c_str(), k);
      VF_CHECK(x.after == 0, "%s: %ld more calls %s", what.c_str(), x.after, when.c_str());
      VF_CHECK(rc == x.code, "%s: %d %s", what.c_str(), rc, when.c_str());
      same(x, k + 1, when.c_str());
      if (x.v.error && x.message)
        VF_CHECK(!strcmp(x.error.message, "the visitor stops here"), "%s: message '%s' %s", what.c_str(), x.error.message, when.c_str());
      if (t.Chance(1, 3)) {  // as if nothing had happened
        Tracer y;
        rc = src(&y.v);
        VF_CHECK(rc == full_rc, "%s: %d afterwards, %d before", what.c_str(), rc, full_rc);
        same(y, n, "afterwards");
        VF_CHECK(full_msg == y.error.message, "%s: message '%s' afterwards", what.c_str(), y.error.message);
      }
    }
    Tracer y;
    int rc = src(&y.v);
    VF_CHECK(rc == full_rc, "%s: %d at last, %d before", what.c_str(), rc, full_rc);
    same(y, n, "at last");
    {  // without anywhere to put a message
      Tracer z;
      z.v.error = nullptr;
      rc = src(&z.v);
      VF_CHECK(rc == full_rc, "%s: %d without an error, %d with one", what.c_str(), rc, full_rc);
      same(z, n, "without an error");
    }
    struct GeoArrowVisitor none;
    memset(&none, 0, sizeof none);
    GeoArrowVisitorInitVoid(&none);
    rc = src(&none);
    VF_CHECK(rc == full_rc, "%s: %d with the void visitor, %d before", what.c_str(), rc, full_rc);
    if (n >= 6) {
      std::string key = what.substr(0, 8);
      for (auto& s : full.calls) key += s[0], key += s.size() > 6 ? s[5] : '.';
      c.nontrivial(key + FeatsKey(full.inner.feats));
    }
  }
  live.Check("visit");
}

VF_PROP("C24", Run,
    "readers of every kind (WKT, WKB, arrays of every type, geometry objects, boxes) over generated geometries, some malformed, "
    "with a visitor that returns a code of its own at each call in turn (all of them if at most 24, else 17 of them). "
    "Non-trivial: a visit of at least six calls")
