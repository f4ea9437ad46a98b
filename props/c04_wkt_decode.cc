// C04: fidelity of WKT decoding
#include "big_util.h"
#include "util.h"
using namespace vf;

// Spellings of the same number
static std::string Num(double v, void* ctx) {
  Tape& t = *(Tape*)ctx;
  if (v != v) return t.Coin() ? "nan" : "NaN";
  if (std::isinf(v)) return v > 0 ? (t.Coin() ? "inf" : "Infinity") : (t.Coin() ? "-inf" : "-Infinity");
  switch (t.Below(5)) {
    case 0: return strf("%.16e", v);
    case 1: return strf("%.16E", v);
    case 2: {
      std::string s = strf("%.*f", (int)t.Below(20), v);
      if (s.size() < 60 && strtod(s.c_str(), nullptr) == v) return s;
      return strf("%.17g", v);
    }
    case 3: {  // shortest
      for (int p = 1; p < 17; p++) {
        std::string s = strf("%.*g", p, v);
        if (strtod(s.c_str(), nullptr) == v) return s;
      }
      return strf("%.17g", v);
    }
    default: return strf("%.17g", v);
  }
}

static void Run(Ctx& c) {
  Tape& t = c.t;
  Live live;
  {
    GenOpt o;
    o.huge = true;
    o.mixed_dims = t.Chance(1, 3);
    o.max_depth = (int)t.Range(1, 6);
    if (t.Coin()) o.ordinates = 1;
    std::vector<Feat> feats;
    std::vector<std::string> texts;
    std::vector<bool> nulls;
    int n = 1 + t.Small(8);
    WktReader rd;
    bool nt = false;
    for (int i = 0; i < n; i++) {
      Feat f;
      f.null = t.Chance(1, 8);
      std::string b;
      if (!f.null) {
        f.g = GenG(t, o);
        WktStyle s;
        s.flat_multipoint = t.Coin();
        s.ws = t.Coin();
        b = RefWkt(f.g, s, &t, Num, &t);
        if (s.ws) b = (t.Coin() ? " \n" : "") + b + (t.Coin() ? "\t " : "");
        c.label(TypeName(f.g.type));
        c.label(DimName(f.g.dims));
        if (s.ws) c.label("odd whitespace");
        if (CoordCount(f.g) > 64) c.label("long sequence");
        if (s.flat_multipoint && f.g.type == MPT) c.label("flat multipoint");
        if (CoordCount(f.g) > 1 || NodeCount(f.g) > 1) nt = true;
      }
      feats.push_back(f);
      texts.push_back(b);
      nulls.push_back(f.null);
    }
    for (auto& s : texts) c.note(Quote(s));
    if (nt) {
      std::string k;
      for (auto& b : texts) k += b;
      c.nontrivial(k);
    }
    for (int i = 0; i < n; i++) {
      if (feats[i].null) continue;
      Exact buf(texts[i]);
      Recorder rec;
      int rc = GeoArrowWKTReaderVisit(&rd.r, buf.Str(), &rec.v);
      VF_CHECK(rc == 0, "valid WKT rejected: %d %s\n%s", rc, rec.error.message,
               Quote(texts[i], 2000).c_str());
      CheckRecorder(rec, "visit");
      std::string why;
      VF_CHECK(SameFeats(rec.feats, OneFeat(feats[i].g), &why), "%s\n%s", why.c_str(),
               Quote(texts[i], 2000).c_str());
    }
    int kind = (int)t.Below(3);
    static const enum GeoArrowType kTypes[] = {GEOARROW_TYPE_WKT, GEOARROW_TYPE_LARGE_WKT,
                                               GEOARROW_TYPE_WKT_VIEW};
    NativeOpt no;
    auto arr = BuildBinary(t, kind, texts, nulls, no);
    struct GeoArrowArrayReader ar;
    int rc = GeoArrowArrayReaderInitFromType(&ar, kTypes[kind]);
    VF_CHECK(rc == 0, "ArrayReaderInitFromType: %d", rc);
    struct GeoArrowError err;
    err.message[0] = 0;
    rc = GeoArrowArrayReaderSetArray(&ar, &arr->a, &err);
    VF_CHECK(rc == 0, "SetArray: %d %s", rc, err.message);
    int64_t from = t.Range(0, n), len = t.Range(0, n - from);
    if (t.Coin()) from = 0, len = n;
    Recorder rec;
    rc = GeoArrowArrayReaderVisit(&ar, from, len, &rec.v);
    VF_CHECK(rc == 0, "array visit: %d %s", rc, rec.error.message);
    CheckRecorder(rec, "array visit");
    std::vector<Feat> want(feats.begin() + from, feats.begin() + from + len);
    std::string why;
    VF_CHECK(SameFeats(rec.feats, want, &why), "column of kind %d [%lld,+%lld): %s", kind,
             (long long)from, (long long)len, why.c_str());
    GeoArrowArrayReaderReset(&ar);
  }
  live.Check("WKT decoding");
}

// A large string column with a value and offsets that do not fit 31 bits
static void Big(int, Ctx& c) {
  Live live;
  {
    const int64_t gap = ((int64_t)1 << 31) + 777, first = 7 + gap + 4;
    BigMap m((size_t)first + 11);
    memcpy(m.p, "POINT (", 7);
    memset(m.p + 7, ' ', (size_t)gap);
    memcpy(m.p + 7 + gap, "3 4)", 4);
    memcpy(m.p + first, "POINT (5 6)", 11);
    std::vector<int64_t> offsets = {0, first, first, first + 11};
    uint8_t valid = 5;  // the empty row is null
    BigArray a(m, offsets);
    a.buffers[0] = &valid, a.a.null_count = 1;
    c.note(strf("a point with %lld spaces, a null, a point", (long long)gap));
    struct GeoArrowArrayReader ar;
    VF_CHECK(GeoArrowArrayReaderInitFromType(&ar, GEOARROW_TYPE_LARGE_WKT) == 0, "init");
    struct GeoArrowError err;
    VF_CHECK(GeoArrowArrayReaderSetArray(&ar, &a.a, &err) == 0, "set: %s", err.message);
    Tally y;
    int rc = GeoArrowArrayReaderVisit(&ar, 0, 3, &y.v);
    VF_CHECK(rc == 0, "visit: %d %s", rc, y.error.message);
    VF_CHECK(y.feats == 3 && y.geoms == 2 && y.per_feat[0] == 1 && y.per_feat[1] == 0 && y.per_feat[2] == 1,
             "%lld features, %lld coordinates", (long long)y.feats, (long long)y.coords);
    VF_CHECK(y.last[0] == 5 && y.last[1] == 6 && y.sum == 18, "ordinates: %g %g, sum %g", y.last[0], y.last[1], y.sum);
    c.nontrivial("big");
    GeoArrowArrayReaderReset(&ar);
  }
  live.Check("big WKT column");
}

VF_PROP_BIG("C04", Run,
        "random geometries of all 7 types x 4 dimensions (nested, mixed member dimensions, empties, "
        "long sequences) written by a reference WKT writer with random number spellings, whitespace "
        "and multipoint style, read singly and as utf8/large/view columns with offsets. Non-trivial: "
        "some geometry has members or more than one coordinate",
            Big, 1)
