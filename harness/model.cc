#include "model.h"

#include <algorithm>
#include <cerrno>
#include <strings.h>

namespace vf {

bool SameBits(double a, double b) {
  if (a != a && b != b) return true;
  uint64_t x, y;
  memcpy(&x, &a, 8);
  memcpy(&y, &b, 8);
  return x == y;
}

static bool SameCoord(const C4& a, const C4& b, int n) {
  for (int i = 0; i < n; i++)
    if (!SameBits(a[i], b[i])) return false;
  return true;
}

static bool SameSeq(const std::vector<C4>& a, const std::vector<C4>& b, int n,
                    std::string* why) {
  if (a.size() != b.size()) {
    if (why) *why = strf("sequence of %zu vs %zu coordinates", a.size(), b.size());
    return false;
  }
  for (size_t i = 0; i < a.size(); i++)
    if (!SameCoord(a[i], b[i], n)) {
      if (why) {
        *why = strf("coordinate %zu differs:", i);
        for (int j = 0; j < n; j++) *why += " " + Dbl(a[i][j]);
        *why += " vs";
        for (int j = 0; j < n; j++) *why += " " + Dbl(b[i][j]);
      }
      return false;
    }
  return true;
}

bool SameG(const G& a, const G& b, std::string* why) {
  if (a.type != b.type) {
    if (why) *why = strf("type %s vs %s", TypeName(a.type), TypeName(b.type));
    return false;
  }
  if (a.dims != b.dims) {
    if (why) *why = strf("%s dims %d vs %d", TypeName(a.type), a.dims, b.dims);
    return false;
  }
  int n = NDim(a.dims);
  if (!SameSeq(a.coords, b.coords, n, why)) return false;
  if (a.rings.size() != b.rings.size()) {
    if (why) *why = strf("%zu vs %zu rings", a.rings.size(), b.rings.size());
    return false;
  }
  for (size_t i = 0; i < a.rings.size(); i++)
    if (!SameSeq(a.rings[i], b.rings[i], n, why)) return false;
  if (a.kids.size() != b.kids.size()) {
    if (why) *why = strf("%s with %zu vs %zu members", TypeName(a.type), a.kids.size(),
                         b.kids.size());
    return false;
  }
  for (size_t i = 0; i < a.kids.size(); i++)
    if (!SameG(a.kids[i], b.kids[i], why)) return false;
  return true;
}

bool SameFeats(const std::vector<Feat>& a, const std::vector<Feat>& b, std::string* why) {
  if (a.size() != b.size()) {
    if (why) *why = strf("%zu vs %zu features", a.size(), b.size());
    return false;
  }
  for (size_t i = 0; i < a.size(); i++) {
    if (a[i].null != b[i].null) {
      if (why) *why = strf("feature %zu: null %d vs %d", i, a[i].null, b[i].null);
      return false;
    }
    if (!a[i].null && !SameG(a[i].g, b[i].g, why)) {
      if (why)
        *why = strf("feature %zu: ", i) + *why + "\n  a: " + Show(a[i]) + "\n  b: " + Show(b[i]);
      return false;
    }
  }
  return true;
}

const char* TypeName(int type) {
  static const char* n[] = {"GEOMETRY",   "POINT",           "LINESTRING",   "POLYGON",
                            "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "GEOMETRYCOLLECTION"};
  return type >= 0 && type <= 7 ? n[type] : "?";
}
const char* DimName(int dims) {
  static const char* n[] = {"?", "XY", "XYZ", "XYM", "XYZM"};
  return dims >= 0 && dims <= 4 ? n[dims] : "?";
}

static std::string ShowSeq(const std::vector<C4>& s, int n) {
  std::string o = "(";
  for (size_t i = 0; i < s.size(); i++) {
    if (i) o += ", ";
    if (i >= 12) return o + strf("... %zu)", s.size());
    for (int j = 0; j < n; j++) o += (j ? " " : "") + Dbl(s[i][j]);
  }
  return o + ")";
}

std::string Show(const G& g, int depth) {
  std::string o = std::string(TypeName(g.type)) + "/" + DimName(g.dims);
  int n = NDim(g.dims);
  if (depth > 40) return o + "...";
  if (g.type == PT || g.type == LS) return o + ShowSeq(g.coords, n);
  o += "[";
  size_t k = 0;
  for (auto& r : g.rings) {
    if (k++) o += ", ";
    if (o.size() > 3000) return o + "...";
    o += ShowSeq(r, n);
  }
  for (auto& c : g.kids) {
    if (k++) o += ", ";
    if (o.size() > 3000) return o + "...";
    o += Show(c, depth + 1);
  }
  return o + "]";
}
std::string Show(const Feat& f) { return f.null ? "NULL" : Show(f.g); }

size_t CoordCount(const G& g) {
  size_t n = g.coords.size();
  for (auto& r : g.rings) n += r.size();
  for (auto& k : g.kids) n += CoordCount(k);
  return n;
}
size_t NodeCount(const G& g) {
  size_t n = 1 + g.rings.size();
  for (auto& k : g.kids) n += NodeCount(k);
  return n;
}
int Depth(const G& g) {
  int d = 0;
  for (auto& k : g.kids) d = std::max(d, Depth(k));
  return d + 1;
}
std::string ShapeKey(const G& g) {
  std::string s = strf("%d.%d:%zu", g.type, g.dims, g.coords.size());
  for (auto& r : g.rings) s += strf("r%zu", r.size());
  for (auto& k : g.kids) s += "(" + ShapeKey(k) + ")";
  return s;
}

// ------------------------------------------------------------- generators

double GenOrdinate(Tape& t, int mode) {
  double v;
  switch (mode == 2 ? t.Below(3) : t.Below(12)) {
    case 0:
      return (double)t.Range(0, 9);
    case 1:
      return (double)t.Range(-200, 200);
    case 2:
      return (double)t.Range(-2000000, 2000000) / 1000.0;
    case 3:
      return (double)t.Range(-100000000, 100000000) / 1048576.0;
    case 4: {
      uint64_t u = t.Bits(8);
      memcpy(&v, &u, 8);
      break;
    }
    case 5: {
      static const double k[] = {0.0, -0.0, 1e15, 1e16, 9.9999999999999e16, 1e17, 1.0000000001e17,
                                 1e18, 1e300, 1.7976931348623157e308, 2.2250738585072014e-308,
                                 5e-324, -5e-324, 1e-5, 1e-16, 1e-17, 0.1, 0.5, 1.5, 2.5, -0.5,
                                 123456789.123456789, 9007199254740993.0, 4294967296.0,
                                 -1e17, -1.7976931348623157e308, 0.30000000000000004, 0.7};
      return k[t.Below(sizeof(k) / sizeof(k[0]))];
    }
    case 6:
      v = ldexp((double)t.Range(-1000, 1000), (int)t.Range(-60, 60));
      break;
    case 7:
      if (mode == 1 || mode == 3) return (double)t.Range(-5, 5);
      {
        static const uint64_t k[] = {0x7ff8000000000000ull, 0xfff8000000000000ull,
                                     0x7ff8000000000123ull, 0x7ff0000000000001ull};
        uint64_t u = k[t.Below(4)];
        memcpy(&v, &u, 8);
        return v;
      }
    case 8:
      if (mode == 1) return (double)t.Range(-5, 5);
      return t.Coin() ? INFINITY : -INFINITY;
    case 9:
      return (double)t.Range(-180, 180) + (double)t.Range(0, 9999999) * 1e-7;
    case 10:
      v = (double)(int64_t)t.Bits(8);
      break;
    default:
      return (double)t.Range(0, 3);
  }
  if (mode == 1 && !std::isfinite(v)) return 1;
  if (mode == 3 && std::isnan(v)) return 1;
  return v;
}

C4 GenCoord(Tape& t, int dims, int mode) {
  C4 c{};
  for (int i = 0; i < NDim(dims); i++) c[i] = GenOrdinate(t, mode);
  return c;
}

// Sequence lengths; now and then one around an internal block size
static int GenLen(Tape& t, const GenOpt& o, bool allow0) {
  static const int kEdge[] = {95, 96, 97, 127, 128, 129, 191, 192, 193, 255, 256, 257, 383, 384,
                              385, 400, 511, 513, 769, 1025};
  if (o.long_seqs && t.Chance(1, 48)) {
    if (o.huge && t.Chance(1, 200)) return 65534 + (int)t.Below(5) + (t.Coin() ? 8 << t.Below(14) : 0);
    return kEdge[t.Below(sizeof(kEdge) / sizeof(int))];
  }
  int n = t.Small(o.max_coords);
  return n == 0 && !allow0 ? 1 : n;
}

static std::vector<C4> GenSeq(Tape& t, int n, int dims, int mode) {
  std::vector<C4> s;
  // runs of cheap ordinates keep long sequences small on the tape
  for (int i = 0; i < n; i++) {
    if (i > 24) {
      C4 c{};
      for (int j = 0; j < NDim(dims); j++) c[j] = i * 4 + j;
      s.push_back(c);
    } else {
      s.push_back(GenCoord(t, dims, mode));
    }
  }
  return s;
}

static int GenCount(Tape& t, int max, bool allow0) {
  int n = t.Small(max);
  if (n == 0 && !allow0) n = 1;
  return n;
}

// Rarely a number of members around 2^8 or (of cheap ones) 2^16
static int HugeCount(Tape& t, bool cheap) {
  if (!t.Chance(1, 1500)) return 0;
  return (cheap && t.Chance(1, 4) ? 65534 : 254) + (int)t.Below(5) + (t.Coin() ? 4 << t.Below(7) : 0);
}
// From then on members repeat
static const int kOwnMembers = 12;
GenOpt SmallMembers(const GenOpt& o) {
  GenOpt k = o;
  k.huge = k.long_seqs = false;
  k.max_coords = std::min(k.max_coords, 3);
  return k;
}

G GenSimple(Tape& t, int type, int dims, const GenOpt& o) {
  G g;
  g.type = type;
  g.dims = dims;
  switch (type) {
    case PT:
      if (!(o.empties && t.Chance(1, 8))) g.coords = GenSeq(t, 1, dims, o.ordinates);
      break;
    case LS:
      g.coords = GenSeq(t, GenLen(t, o, o.empties), dims, o.ordinates);
      break;
    case PG: {
      int n = GenCount(t, 5, o.empties), many = o.huge ? HugeCount(t, true) : 0;
      GenOpt k = many ? SmallMembers(o) : o;
      if (many) n = many;
      for (int i = 0; i < n; i++)
        if (i >= kOwnMembers)
          g.rings.push_back(g.rings[(size_t)(i % kOwnMembers)]);
        else
          g.rings.push_back(GenSeq(t, GenLen(t, k, k.empties), dims, k.ordinates));
      break;
    }
    default: {
      int n = GenCount(t, type == MPT ? o.max_coords : 6, o.empties);
      int many = o.huge ? HugeCount(t, type != MPG) : 0;
      if (many) n = many;
      for (int i = 0; i < n; i++) {
        if (many && i >= kOwnMembers) {
          g.kids.push_back(G(g.kids[(size_t)(i % kOwnMembers)]));
          continue;
        }
        GenOpt k = many ? SmallMembers(o) : o;
        if (type == MPT && !o.empty_point_members) k.empties = false;
        g.kids.push_back(GenSimple(t, type - 3, dims, k));
      }
    }
  }
  return g;
}

G GenG(Tape& t, const GenOpt& o, int depth) {
  int type = t.Pick(o.types);
  int dims = o.dims ? o.dims : (int)t.Below(4) + 1;
  if (type == GC && depth >= o.max_depth) type = PT;
  if (type != GC && !o.mixed_multi) return GenSimple(t, type, dims, o);
  if (type != GC) {
    G g = GenSimple(t, type, dims, o);
    if (type >= MPT)
      for (auto& k : g.kids)
        if (t.Chance(1, 3)) k = GenSimple(t, k.type, (int)t.Below(4) + 1, o);
    return g;
  }
  G g;
  g.type = GC;
  g.dims = dims;
  int n = GenCount(t, 5, o.empties), many = o.huge && !depth ? HugeCount(t, false) : 0;
  if (many) n = many;
  for (int i = 0; i < n; i++) {
    if (many && i >= kOwnMembers) {
      g.kids.push_back(G(g.kids[(size_t)(i % kOwnMembers)]));
      continue;
    }
    GenOpt k = many ? SmallMembers(o) : o;
    k.dims = (o.mixed_dims && t.Chance(1, 4)) ? 0 : dims;
    g.kids.push_back(GenG(t, k, depth + 1));
  }
  return g;
}

int GenRows(Tape& t, const GenOpt& o, int max_n) {
  if (!o.huge || !t.Chance(1, 1000)) return t.Small(max_n);
  static const int kAround[] = {32, 64, 64, 128, 128, 256, 256, 512, 1024, 4096};
  int around = t.Chance(1, 25) ? 65536 : kAround[t.Below(sizeof(kAround) / sizeof(int))];
  return around - 2 + (int)t.Below(5);
}

int GenBatches(Tape& t, int max_more) { return 1 + (t.Chance(1, 200) ? (int)t.Range(4, 40) : t.Small(max_more)); }

std::vector<Feat> GenFeats(Tape& t, const GenOpt& o, int max_n, int null_pct) {
  std::vector<Feat> fs;
  int n = GenRows(t, o, max_n);
  bool many = n > max_n && n > kOwnRows;
  GenOpt k = many ? SmallMembers(o) : o;
  uint64_t seed = many && null_pct && t.Coin() ? t.Bits(4) : 0;
  for (int i = 0; i < n; i++) {
    if (many && i >= kOwnRows) {
      Feat f = fs[(size_t)(i % kOwnRows)];
      if (seed && NullAt(seed, (uint64_t)i)) f = Feat(), f.null = true;
      fs.push_back(f);
      continue;
    }
    Feat f;
    f.null = t.Chance(null_pct, 100);
    if (!f.null) f.g = GenG(t, k);
    fs.push_back(f);
  }
  return fs;
}

// ------------------------------------------------------------- emitting

static int EmitSeq(const std::vector<C4>& s, int dims, struct GeoArrowVisitor* v, Tape* t) {
  int nd = NDim(dims);
  size_t pos = 0;
  if (s.empty()) {
    if (t && t->Chance(1, 4)) {
      struct GeoArrowCoordView cv;
      memset(&cv, 0, sizeof(cv));
      cv.n_values = nd;
      cv.coords_stride = 1;
      return v->coords(v, &cv);
    }
    return GEOARROW_OK;
  }
  while (pos < s.size()) {
    size_t n = s.size() - pos;
    int layout = 0;
    if (t) {
      if (t->Chance(1, 3)) n = t->Range(0, n);
      layout = (int)t->Below(4);
    }
    struct GeoArrowCoordView cv;
    memset(&cv, 0, sizeof(cv));
    cv.n_values = nd;
    cv.n_coords = (int64_t)n;
    int pad = layout == 2 ? 1 : (layout == 3 ? 3 : 0);
    // exactly sized heap buffers: an over-read is an ASan report
    double* buf = nullptr;
    if (layout == 1) {  // separated
      buf = (double*)malloc(n * nd * 8 + (n == 0));
      cv.coords_stride = 1;
      for (int j = 0; j < nd; j++) {
        cv.values[j] = buf + j * n;
        for (size_t i = 0; i < n; i++) buf[j * n + i] = s[pos + i][j];
      }
    } else {
      int stride = nd + pad;
      size_t total = n ? (n - 1) * stride + nd : 0;
      buf = (double*)malloc(total * 8 + (total == 0));
      for (size_t i = 0; i < total; i++) buf[i] = -777.25;
      cv.coords_stride = stride;
      for (int j = 0; j < nd; j++) {
        cv.values[j] = buf + j;
        for (size_t i = 0; i < n; i++) buf[i * stride + j] = s[pos + i][j];
      }
    }
    int rc = v->coords(v, &cv);
    free(buf);
    if (rc) return rc;
    pos += n;
    if (n == 0 && t && t->Exhausted()) t = nullptr;
  }
  return GEOARROW_OK;
}

#define RNZ(x)      \
  do {              \
    int rc_ = (x);  \
    if (rc_) return rc_; \
  } while (0)

int EmitG(const G& g, struct GeoArrowVisitor* v, Tape* t) {
  RNZ(v->geom_start(v, (enum GeoArrowGeometryType)g.type, (enum GeoArrowDimensions)g.dims));
  switch (g.type) {
    case PT:
    case LS:
      RNZ(EmitSeq(g.coords, g.dims, v, t));
      break;
    case PG:
      for (auto& r : g.rings) {
        RNZ(v->ring_start(v));
        RNZ(EmitSeq(r, g.dims, v, t));
        RNZ(v->ring_end(v));
      }
      break;
    default:
      for (auto& k : g.kids) RNZ(EmitG(k, v, t));
  }
  return v->geom_end(v);
}

int Emit(const Feat& f, struct GeoArrowVisitor* v, Tape* t) {
  RNZ(v->feat_start(v));
  if (f.null)
    RNZ(v->null_feat(v));
  else
    RNZ(EmitG(f.g, v, t));
  return v->feat_end(v);
}

// ------------------------------------------------------------- recorder

int Recorder::Hit(const char* name) {
  if (keep_log && log.size() < 3000) {
    log += name;
    log += ' ';
  }
  if (failed) calls_after_fail++;
  if (fail_at >= 0 && calls == fail_at) {
    calls++;
    failed = true;
    return fail_code;
  }
  calls++;
  return 0;
}

#define REC ((Recorder*)v->private_data)
#define PROTO(cond, msg) \
  if (!(cond) && r->protocol_error.empty() && !r->failed) r->protocol_error = msg

static int RecFeatStart(struct GeoArrowVisitor* v) {
  Recorder* r = REC;
  int rc = r->Hit("feat_start");
  if (rc) return rc;
  PROTO(!r->in_feat, "feat_start inside a feature");
  r->in_feat = true;
  r->got = false;
  r->in_ring = false;
  r->stack.clear();
  r->feats.push_back(Feat());
  return 0;
}
static int RecNullFeat(struct GeoArrowVisitor* v) {
  Recorder* r = REC;
  int rc = r->Hit("null_feat");
  if (rc) return rc;
  PROTO(r->in_feat && !r->got && r->stack.empty(), "null_feat not directly inside a feature");
  r->got = true;
  if (!r->feats.empty()) r->feats.back().null = true;
  return 0;
}
static int RecGeomStart(struct GeoArrowVisitor* v, enum GeoArrowGeometryType gt,
                        enum GeoArrowDimensions d) {
  Recorder* r = REC;
  int rc = r->Hit("geom_start");
  if (rc) return rc;
  PROTO(r->in_feat, "geom_start outside a feature");
  PROTO(!r->in_ring, "geom_start inside a ring");
  PROTO((int)gt >= 1 && (int)gt <= 7, "geom_start with an unexpected geometry type");
  PROTO((int)d >= 1 && (int)d <= 4, "geom_start with unexpected dimensions");
  if (r->stack.empty()) {
    PROTO(!r->got, "second geometry in a feature");
  } else {
    PROTO(r->stack.back().type >= MPT, "geom_start inside a point, linestring or polygon");
  }
  G g;
  g.type = (int)gt;
  g.dims = (int)d;
  r->stack.push_back(g);
  return 0;
}
static int RecRingStart(struct GeoArrowVisitor* v) {
  Recorder* r = REC;
  int rc = r->Hit("ring_start");
  if (rc) return rc;
  PROTO(!r->stack.empty() && r->stack.back().type == PG, "ring_start outside a polygon");
  PROTO(!r->in_ring, "ring_start inside a ring");
  r->in_ring = true;
  if (!r->stack.empty()) r->stack.back().rings.emplace_back();
  return 0;
}
static int RecCoords(struct GeoArrowVisitor* v, const struct GeoArrowCoordView* c) {
  Recorder* r = REC;
  int rc = r->Hit("coords");
  if (rc) return rc;
  PROTO(!r->stack.empty(), "coords outside a geometry");
  if (r->stack.empty()) return 0;
  G& g = r->stack.back();
  PROTO(g.type == PT || g.type == LS || (g.type == PG && r->in_ring),
        "coords directly inside a collection or outside a ring");
  PROTO(c->n_coords >= 0, "negative coordinate count");
  PROTO(c->n_values == NDim(g.dims), "coordinate size differs from the geometry dimensions");
  if (c->n_coords == 0) r->empty_coord_calls++;
  std::vector<C4>* dst = (g.type == PG && !g.rings.empty()) ? &g.rings.back() : &g.coords;
  int nd = c->n_values < 4 ? c->n_values : 4;
  for (int64_t i = 0; i < c->n_coords; i++) {
    C4 x{};
    for (int j = 0; j < nd; j++) x[j] = c->values[j][i * c->coords_stride];
    dst->push_back(x);
  }
  PROTO(g.type != PT || g.coords.size() <= 1, "point with more than one coordinate");
  return 0;
}
static int RecRingEnd(struct GeoArrowVisitor* v) {
  Recorder* r = REC;
  int rc = r->Hit("ring_end");
  if (rc) return rc;
  PROTO(r->in_ring, "ring_end without ring_start");
  r->in_ring = false;
  return 0;
}
static int RecGeomEnd(struct GeoArrowVisitor* v) {
  Recorder* r = REC;
  int rc = r->Hit("geom_end");
  if (rc) return rc;
  PROTO(!r->stack.empty(), "geom_end without geom_start");
  PROTO(!r->in_ring, "geom_end inside a ring");
  if (r->stack.empty()) return 0;
  G g = std::move(r->stack.back());
  r->stack.pop_back();
  if (r->stack.empty()) {
    r->got = true;
    if (!r->feats.empty()) r->feats.back().g = std::move(g);
  } else {
    r->stack.back().kids.push_back(std::move(g));
  }
  return 0;
}
static int RecFeatEnd(struct GeoArrowVisitor* v) {
  Recorder* r = REC;
  int rc = r->Hit("feat_end");
  if (rc) return rc;
  PROTO(r->in_feat, "feat_end without feat_start");
  PROTO(r->got, "feature with neither a geometry nor a null");
  PROTO(r->stack.empty() && !r->in_ring, "feat_end inside a geometry");
  r->in_feat = false;
  return 0;
}

Recorder::Recorder() {
  memset(&v, 0, sizeof(v));
  error.message[0] = 0;
  v.feat_start = RecFeatStart;
  v.null_feat = RecNullFeat;
  v.geom_start = RecGeomStart;
  v.ring_start = RecRingStart;
  v.coords = RecCoords;
  v.ring_end = RecRingEnd;
  v.geom_end = RecGeomEnd;
  v.feat_end = RecFeatEnd;
  v.private_data = this;
  v.error = &error;
}

// ------------------------------------------------------------- nodes

static double NodeOrdinate(const struct GeoArrowGeometryNode* n, int j, uint32_t i) {
  uint8_t b[8];
  memcpy(b, n->coords[j] + (int64_t)i * n->coord_stride[j], 8);
  if (n->flags & GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN) std::reverse(b, b + 8);
  double d;
  memcpy(&d, b, 8);
  return d;
}

static bool NodeTree(const struct GeoArrowGeometryNode** cur,
                     const struct GeoArrowGeometryNode* end, int level, G* g, bool ring,
                     const uint8_t* lo, const uint8_t* hi, std::string* err) {
  if (*cur >= end) {
    *err = "node list too short";
    return false;
  }
  const struct GeoArrowGeometryNode* n = (*cur)++;
  g->type = n->geometry_type;
  g->dims = n->dimensions;
  if (g->type < 1 || g->type > 7 || g->dims < 1 || g->dims > 4) {
    *err = strf("node with geometry type %d, dimensions %d", g->type, g->dims);
    return false;
  }
  if (n->level != level) {
    *err = strf("node at level %d says %d", level, n->level);
    return false;
  }
  // documented: never NULL, at least one value readable, NaN where there is no
  // such dimension
  for (int j = 0; j < 4; j++) {
    if (n->coords[j] == nullptr) {
      *err = strf("coords[%d] of a %s node is NULL", j, TypeName(g->type));
      return false;
    }
  }
  if (g->type == PT || g->type == LS) {
    int nd = NDim(g->dims);
    for (int j = 0; j < 4; j++) {
      volatile double seen = NodeOrdinate(n, j, 0);  // in bounds?
      (void)seen;
      double raw;
      memcpy(&raw, n->coords[j], 8);
      if (j >= nd && (raw == raw || n->coord_stride[j] != 0)) {
        *err = strf("missing dimension %d of a %s %s node holds %s with stride %d", j,
                    DimName(g->dims), TypeName(g->type), Dbl(raw).c_str(), n->coord_stride[j]);
        return false;
      }
    }
    for (uint32_t i = 0; i < n->size; i++) {
      C4 c{};
      for (int j = 0; j < nd; j++) {
        const uint8_t* p = n->coords[j] + (int64_t)i * n->coord_stride[j];
        if (lo && (p < lo || p + 8 > hi)) {
          *err = strf("coordinate %u ordinate %d lies outside the source (at %lld of %lld)", i, j,
                      (long long)(p - lo), (long long)(hi - lo));
          return false;
        }
        c[j] = NodeOrdinate(n, j, i);
      }
      g->coords.push_back(c);
    }
    return true;
  }
  for (uint32_t i = 0; i < n->size; i++) {
    G k;
    if (!NodeTree(cur, end, level + 1, &k, g->type == PG, lo, hi, err)) return false;
    if (g->type == PG) {
      if (k.type != LS || k.dims != g->dims) {
        *err = "ring node is not a linestring of the polygon's dimensions";
        return false;
      }
      g->rings.push_back(std::move(k.coords));
    } else {
      g->kids.push_back(std::move(k));
    }
  }
  return true;
}

bool GFromNodes(struct GeoArrowGeometryView v, G* out, const uint8_t* lo, const uint8_t* hi,
                std::string* err) {
  *out = G();
  const struct GeoArrowGeometryNode* cur = v.root;
  const struct GeoArrowGeometryNode* end = v.root + v.size_nodes;
  if (!NodeTree(&cur, end, 0, out, false, lo, hi, err)) return false;
  if (cur != end) {
    *err = strf("%lld nodes left over", (long long)(end - cur));
    return false;
  }
  return true;
}

static const uint8_t kFiller[8] = {0, 0, 0, 0, 0, 0, 0xf8, 0x7f};

static void SeqNode(const std::vector<C4>& s, int type, int dims, NodeGeom* out, Tape* t,
                    int level) {
  struct GeoArrowGeometryNode n;
  memset(&n, 0, sizeof(n));
  for (int j = 0; j < 4; j++) n.coords[j] = kFiller;
  n.geometry_type = (uint8_t)type;
  n.dimensions = (uint8_t)dims;
  n.level = (uint8_t)level;
  n.size = (uint32_t)s.size();
  int nd = NDim(dims);
  bool swap = t && t->Chance(1, 3);
  int layout = t ? (int)t->Below(4) : 0;
  if (swap) n.flags = GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN;
  if (!s.empty()) {
    auto put = [&](uint8_t* p, double d) {
      uint8_t b[8];
      memcpy(b, &d, 8);
      if (swap) std::reverse(b, b + 8);
      memcpy(p, b, 8);
    };
    if (layout == 1) {  // every ordinate in a buffer of its own
      for (int j = 0; j < nd; j++) {
        uint8_t* p = (uint8_t*)malloc(s.size() * 8);
        out->owned.push_back(p);
        for (size_t i = 0; i < s.size(); i++) put(p + 8 * i, s[i][j]);
        n.coords[j] = p;
        n.coord_stride[j] = 8;
      }
    } else if (layout == 2) {  // different strides, reversed storage, odd alignment
      for (int j = 0; j < nd; j++) {
        int stride = 8 + (int)t->Below(9);
        size_t total = (s.size() - 1) * stride + 8;
        uint8_t* p = (uint8_t*)malloc(total);
        memset(p, 0x77, total);
        out->owned.push_back(p);
        bool back = t->Coin();
        for (size_t i = 0; i < s.size(); i++)
          put(p + stride * (back ? s.size() - 1 - i : i), s[i][j]);
        n.coords[j] = back ? p + stride * (s.size() - 1) : p;
        n.coord_stride[j] = back ? -stride : stride;
      }
    } else {
      int pad = layout == 3 ? 1 : 0;
      int stride = 8 * (nd + pad);
      size_t total = (s.size() - 1) * stride + nd * 8;
      uint8_t* p = (uint8_t*)malloc(total);
      memset(p, 0x77, total);
      out->owned.push_back(p);
      for (int j = 0; j < nd; j++) {
        for (size_t i = 0; i < s.size(); i++) put(p + stride * i + 8 * j, s[i][j]);
        n.coords[j] = p + 8 * j;
        n.coord_stride[j] = stride;
      }
    }
  }
  out->nodes.push_back(n);
}

void BuildNodes(const G& g, NodeGeom* out, Tape* t, int level) {
  if (g.type == PT || g.type == LS) {
    SeqNode(g.coords, g.type, g.dims, out, t, level);
    return;
  }
  struct GeoArrowGeometryNode n;
  memset(&n, 0, sizeof(n));
  for (int j = 0; j < 4; j++) n.coords[j] = kFiller;
  n.geometry_type = (uint8_t)g.type;
  n.dimensions = (uint8_t)g.dims;
  n.level = (uint8_t)level;
  n.size = (uint32_t)(g.type == PG ? g.rings.size() : g.kids.size());
  out->nodes.push_back(n);
  for (auto& r : g.rings) SeqNode(r, LS, g.dims, out, t, level + 1);
  for (auto& k : g.kids) BuildNodes(k, out, t, level + 1);
}

// ------------------------------------------------------------- WKB

static void PutU32(std::string& s, uint32_t v, int endian) {
  for (int i = 0; i < 4; i++) s += (char)(v >> (endian ? 8 * i : 24 - 8 * i));
}
static void PutF64(std::string& s, double d, int endian) {
  uint64_t v;
  memcpy(&v, &d, 8);
  for (int i = 0; i < 8; i++) s += (char)(v >> (endian ? 8 * i : 56 - 8 * i));
}

static void WkbInto(std::string& s, const G& g, const WkbOpt& o, Tape* t, int depth) {
  int e = o.endian;
  int flavor = o.flavor;
  bool srid = o.srid;
  if (o.mixed_endian && t) {
    e = (int)t->Below(2);
    flavor = (int)t->Below(2);
    srid = t->Chance(1, 4);
  }
  s += (char)e;
  uint32_t ty = (uint32_t)g.type;
  if (flavor == 0) {
    ty += (uint32_t)(g.dims - 1) * 1000;
  } else {
    if (HasZ(g.dims)) ty |= 0x80000000u;
    if (HasM(g.dims)) ty |= 0x40000000u;
  }
  if (srid) ty |= 0x20000000u;
  PutU32(s, ty, e);
  if (srid) PutU32(s, t ? (uint32_t)t->Bits(4) : 4326, e);
  int nd = NDim(g.dims);
  auto seq = [&](const std::vector<C4>& c) {
    for (auto& x : c)
      for (int j = 0; j < nd; j++) PutF64(s, x[j], e);
  };
  switch (g.type) {
    case PT:
      if (g.coords.empty())
        for (int j = 0; j < nd; j++) PutF64(s, NAN, e);
      else
        seq(g.coords);
      break;
    case LS:
      PutU32(s, (uint32_t)g.coords.size(), e);
      seq(g.coords);
      break;
    case PG:
      PutU32(s, (uint32_t)g.rings.size(), e);
      for (auto& r : g.rings) {
        PutU32(s, (uint32_t)r.size(), e);
        seq(r);
      }
      break;
    default:
      PutU32(s, (uint32_t)g.kids.size(), e);
      for (auto& k : g.kids) WkbInto(s, k, o, t, depth + 1);
  }
}

std::string RefWkb(const G& g, const WkbOpt& o, Tape* t) {
  std::string s;
  WkbInto(s, g, o, t, 0);
  return s;
}

namespace {
struct Dec {
  const uint8_t* p;
  size_t n, pos = 0;
  int max_depth;
  bool unspecified = false;
  bool U8(uint8_t* v) {
    if (n - pos < 1) return false;
    *v = p[pos++];
    return true;
  }
  bool U32(uint32_t* v, int e) {
    if (n - pos < 4) return false;
    uint32_t x = 0;
    for (int i = 0; i < 4; i++) x |= (uint32_t)p[pos + i] << (e ? 8 * i : 24 - 8 * i);
    pos += 4;
    *v = x;
    return true;
  }
  bool Seq(std::vector<C4>* out, uint64_t count, int nd, int e) {
    if ((n - pos) / (8 * (uint64_t)nd) < count) return false;
    for (uint64_t i = 0; i < count; i++) {
      C4 c{};
      for (int j = 0; j < nd; j++) {
        uint64_t x = 0;
        for (int b = 0; b < 8; b++) x |= (uint64_t)p[pos + b] << (e ? 8 * b : 56 - 8 * b);
        pos += 8;
        memcpy(&c[j], &x, 8);
      }
      out->push_back(c);
    }
    return true;
  }
  WkbStatus Geom(G* g, int depth) {
    if (depth > max_depth) return WKB_DEEP;
    uint8_t e;
    if (!U8(&e)) return WKB_SHORT;
    if (e > 1) unspecified = true;  // bytes other than 0 and 1: either outcome
    if (e > 1) return WKB_ENDIAN;
    uint32_t ty;
    if (!U32(&ty, e)) return WKB_SHORT;
    if (ty & 0x1fff0000u) unspecified = true;  // flag bits no one assigned
    bool z = ty & 0x80000000u, m = ty & 0x40000000u;
    if (ty & 0x20000000u) {
      uint32_t srid;
      if (!U32(&srid, e)) return WKB_SHORT;
    }
    ty &= 0x0000ffffu;
    switch (ty / 1000) {
      case 0: break;
      case 1: z = true; break;
      case 2: m = true; break;
      case 3: z = m = true; break;
      default: return WKB_TYPE;
    }
    ty %= 1000;
    if (ty < 1 || ty > 7) return WKB_TYPE;
    g->type = (int)ty;
    g->dims = 1 + (z ? 1 : 0) + (m ? 2 : 0);
    int nd = NDim(g->dims);
    uint32_t count;
    switch (g->type) {
      case PT:
        return Seq(&g->coords, 1, nd, e) ? WKB_OK : WKB_SHORT;
      case LS:
        if (!U32(&count, e)) return WKB_SHORT;
        return Seq(&g->coords, count, nd, e) ? WKB_OK : WKB_SHORT;
      case PG:
        if (!U32(&count, e)) return WKB_SHORT;
        for (uint32_t i = 0; i < count; i++) {
          uint32_t k;
          if (!U32(&k, e)) return WKB_SHORT;
          g->rings.emplace_back();
          if (!Seq(&g->rings.back(), k, nd, e)) return WKB_SHORT;
        }
        return WKB_OK;
      default:
        if (!U32(&count, e)) return WKB_SHORT;
        for (uint32_t i = 0; i < count; i++) {
          g->kids.emplace_back();
          WkbStatus st = Geom(&g->kids.back(), depth + 1);
          if (st != WKB_OK) return st;
        }
        return WKB_OK;
    }
  }
};
}  // namespace

WkbStatus RefWkbDecode(const uint8_t* p, size_t n, G* out, size_t* consumed, int max_depth,
                       bool* unspecified) {
  Dec d{p, n, 0, max_depth};
  *out = G();
  WkbStatus st = d.Geom(out, 1);
  if (unspecified) *unspecified = d.unspecified;
  if (consumed) *consumed = d.pos;
  return st;
}

G WkbForm(const G& g) {
  G o = g;
  if (o.type == PT && o.coords.empty()) o.coords.push_back({NAN, NAN, NAN, NAN});
  for (auto& k : o.kids) k = WkbForm(k);
  return o;
}

// ------------------------------------------------------------- WKT

std::string RefNum17(double v, void*) {
  if (v != v) return "nan";
  if (std::isinf(v)) return v > 0 ? "inf" : "-inf";
  return strf("%.17g", v);
}

static std::string WktTagged(const G& g, const WktStyle& s, Tape* t,
                             std::string (*num)(double, void*), void* ctx, bool tag) {
  auto ws = [&](bool required) -> std::string {
    if (!s.ws || !t) return required ? " " : "";
    std::string w;
    for (uint64_t n = t->Below(4) + (required ? 1 : 0); n > 0 && w.size() < 3; n--) w += " \t\n\r"[t->Below(4)];
    return w;
  };
  auto word = [&](std::string w) {
    if (s.lower && t)
      for (auto& c : w)
        if (t->Coin()) c = (char)tolower(c);
    return w;
  };
  int nd = NDim(g.dims);
  std::string o;
  if (tag) {
    o += word(TypeName(g.type));
    if (g.dims == 2) o += ws(true) + word("Z");
    if (g.dims == 3) o += ws(true) + word("M");
    if (g.dims == 4) o += ws(true) + word("ZM");
    if (!s.ws || !t) o += " ";
  }
  // blanks between the tag and an opening parenthesis are optional
  auto join = [&](const std::string& body) -> std::string {
    return tag && s.ws && t ? o + ws(body[0] != '(') + body : o + body;
  };
  auto coord = [&](const C4& c) {
    std::string x;
    for (int j = 0; j < nd; j++) x += (j ? ws(true) : std::string()) + num(c[j], ctx);
    return x;
  };
  auto seq = [&](const std::vector<C4>& cs) -> std::string {
    if (cs.empty()) return word("EMPTY");
    std::string x = "(" + ws(false);
    for (size_t i = 0; i < cs.size(); i++) {
      if (i) x += ws(false) + "," + ws(false);
      x += coord(cs[i]);
    }
    return x + ws(false) + ")";
  };
  switch (g.type) {
    case PT:
    case LS:
      return join(seq(g.coords));
    case PG: {
      if (g.rings.empty()) return join(word("EMPTY"));
      std::string x = "(" + ws(false);
      for (size_t i = 0; i < g.rings.size(); i++) {
        if (i) x += ws(false) + "," + ws(false);
        x += seq(g.rings[i]);
      }
      return join(x + ws(false) + ")");
    }
    default: {
      if (g.kids.empty()) return join(word("EMPTY"));
      std::string x = "(" + ws(false);
      for (size_t i = 0; i < g.kids.size(); i++) {
        if (i) x += ws(false) + "," + ws(false);
        const G& k = g.kids[i];
        if (g.type == MPT && s.flat_multipoint && !k.coords.empty())
          x += coord(k.coords[0]);
        else
          x += WktTagged(k, s, t, num, ctx, g.type == GC);
      }
      return join(x + ws(false) + ")");
    }
  }
}

std::string RefWkt(const G& g, const WktStyle& s, Tape* t, std::string (*num)(double, void*),
                   void* ctx) {
  return WktTagged(g, s, t, num, ctx, true);
}

namespace {
struct WktP {
  const std::string& s;
  size_t i = 0;
  std::string err;
  bool Fail(const char* m) {
    if (err.empty()) err = strf("%s at %zu", m, i);
    return false;
  }
  void Ws() {
    while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) i++;
  }
  bool Lit(char c) {
    Ws();
    if (i < s.size() && s[i] == c) {
      i++;
      return true;
    }
    return false;
  }
  std::string Word() {
    Ws();
    std::string w;
    while (i < s.size() && isalpha((unsigned char)s[i])) w += (char)toupper(s[i++]);
    return w;
  }
  bool Empty() {
    size_t j = i;
    if (Word() == "EMPTY") return true;
    i = j;
    return false;
  }
  bool Num(double* v) {
    Ws();
    std::string tok;
    while (i < s.size() && s[i] != ' ' && s[i] != ',' && s[i] != ')' && s[i] != '(' &&
           s[i] != '\t' && s[i] != '\n' && s[i] != '\r')
      tok += s[i++];
    if (tok.empty()) return Fail("expected number");
    char* end;
    *v = strtod(tok.c_str(), &end);
    if (*end) return Fail("bad number");
    return true;
  }
  bool Coord(C4* c, int nd) {
    for (int j = 0; j < nd; j++)
      if (!Num(&(*c)[j])) return false;
    return true;
  }
  bool Seq(std::vector<C4>* out, int nd) {
    if (Empty()) return true;
    if (!Lit('(')) return Fail("expected (");
    do {
      C4 c{};
      if (!Coord(&c, nd)) return false;
      out->push_back(c);
    } while (Lit(','));
    return Lit(')') || Fail("expected )");
  }
  bool Body(G* g, int depth) {
    if (depth > 2000) return Fail("too deep");
    int nd = NDim(g->dims);
    switch (g->type) {
      case PT:
        if (!Seq(&g->coords, nd)) return false;
        return g->coords.size() <= 1 || Fail("point with several coordinates");
      case LS:
        return Seq(&g->coords, nd);
      case PG:
        if (Empty()) return true;
        if (!Lit('(')) return Fail("expected (");
        do {
          g->rings.emplace_back();
          if (!Seq(&g->rings.back(), nd)) return false;
        } while (Lit(','));
        return Lit(')') || Fail("expected )");
      case GC:
        if (Empty()) return true;
        if (!Lit('(')) return Fail("expected (");
        do {
          g->kids.emplace_back();
          if (!Tagged(&g->kids.back(), depth + 1)) return false;
        } while (Lit(','));
        return Lit(')') || Fail("expected )");
      default:
        if (Empty()) return true;
        if (!Lit('(')) return Fail("expected (");
        do {
          G k;
          k.type = g->type - 3;
          k.dims = g->dims;
          Ws();
          bool paren = i < s.size() && s[i] == '(';
          size_t j = i;
          bool empty = Empty();
          i = j;
          if (g->type == MPT && !paren && !empty) {
            C4 c{};
            if (!Coord(&c, nd)) return false;
            k.coords.push_back(c);
          } else if (!Body(&k, depth + 1)) {
            return false;
          }
          g->kids.push_back(k);
        } while (Lit(','));
        return Lit(')') || Fail("expected )");
    }
  }
  bool Tagged(G* g, int depth) {
    std::string w = Word();
    g->type = 0;
    for (int k = 1; k <= 7; k++)
      if (w == TypeName(k)) g->type = k;
    if (!g->type) return Fail("unknown geometry tag");
    size_t j = i;
    std::string d = Word();
    g->dims = 1;
    if (d == "Z")
      g->dims = 2;
    else if (d == "M")
      g->dims = 3;
    else if (d == "ZM")
      g->dims = 4;
    else
      i = j;
    return Body(g, depth);
  }
};
}  // namespace

bool RefWktParse(const std::string& s, G* out, std::string* err) {
  WktP p{s};
  *out = G();
  bool ok = p.Tagged(out, 0);
  if (ok) {
    p.Ws();
    if (p.i != s.size()) ok = p.Fail("trailing characters");
  }
  if (!ok && err) *err = p.err;
  return ok;
}

NumClass ClassifyNumber(const std::string& tok, double* v) {
  *v = 0;
  size_t i = 0, n = tok.size();
  bool neg = false, plus = false;
  if (i < n && tok[i] == '-') neg = true, i++;
  else if (i < n && tok[i] == '+') plus = true, i++;
  std::string low;
  for (size_t k = i; k < n; k++) low += (char)tolower((unsigned char)tok[k]);
  if (low == "nan") {
    *v = NAN;
    return plus ? NUM_MAY : NUM_MUST;
  }
  if (low == "inf" || low == "infinity") {
    *v = neg ? -INFINITY : INFINITY;
    return plus ? NUM_MAY : NUM_MUST;
  }
  if (low.compare(0, 4, "nan(") == 0) {
    *v = NAN;
    return NUM_MAY;
  }
  size_t start = i, int_digits = 0, frac_digits = 0;
  bool dot = false, nonzero = false;
  while (i < n && isdigit((unsigned char)tok[i])) nonzero |= tok[i] != '0', int_digits++, i++;
  if (i < n && tok[i] == '.') {
    dot = true;
    i++;
    while (i < n && isdigit((unsigned char)tok[i])) nonzero |= tok[i] != '0', frac_digits++, i++;
  }
  (void)start;
  if (int_digits + frac_digits == 0) return NUM_NOT;
  if (i < n && (tok[i] == 'e' || tok[i] == 'E')) {
    i++;
    if (i < n && (tok[i] == '-' || tok[i] == '+')) i++;
    size_t d = 0;
    while (i < n && isdigit((unsigned char)tok[i])) d++, i++;
    if (d == 0) return NUM_NOT;
  }
  if (i != n) return NUM_NOT;
  *v = strtod(tok.c_str(), nullptr);
  if (plus || n > 63 || std::isinf(*v) || (*v == 0 && nonzero) || int_digits == 0 ||
      (dot && frac_digits == 0)) {
    if (std::isinf(*v) || (*v == 0 && nonzero)) *v = NAN;
    return NUM_MAY;
  }
  return NUM_MUST;
}

namespace {
struct WktR {
  const std::string& s;
  size_t i = 0;
  bool unspec = false;
  static bool IsWs(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
  static bool IsSep(char c) { return IsWs(c) || c == ',' || c == '(' || c == ')'; }
  bool End() const { return i >= s.size(); }
  void Ws() {
    while (!End() && IsWs(s[i])) i++;
  }
  std::string Peek() const {
    size_t j = i;
    while (j < s.size() && !IsSep(s[j])) j++;
    return s.substr(i, j - i);
  }
  bool Ch(char c) {
    Ws();
    if (!End() && s[i] == c) {
      i++;
      return true;
    }
    return false;
  }
  // Words in another case: not specified
  bool Word(const std::string& w, const char* want) {
    if (w == want) return true;
    if (w.size() == strlen(want) && strcasecmp(w.c_str(), want) == 0) unspec = true;
    return false;
  }
  bool Empty() {
    Ws();
    std::string w = Peek();
    if (Word(w, "EMPTY")) {
      i += 5;
      return true;
    }
    return false;
  }
  bool Coord(C4* c, int nd) {
    for (int j = 0; j < nd; j++) {
      if (j > 0) {
        if (End() || !IsWs(s[i])) return false;
        Ws();
      }
      std::string tok = Peek();
      switch (ClassifyNumber(tok, &(*c)[j])) {
        case NUM_NOT: return false;
        case NUM_MAY: unspec = true; break;
        default: break;
      }
      i += tok.size();
    }
    return true;
  }
  bool Seq(std::vector<C4>* out, int nd, bool one) {
    if (Empty()) return true;
    if (!Ch('(')) return false;
    do {
      if (one && !out->empty()) return false;
      Ws();
      C4 c{};
      if (!Coord(&c, nd)) return false;
      out->push_back(c);
    } while (Ch(','));
    return Ch(')');
  }
  bool Body(G* g, int depth) {
    int nd = NDim(g->dims);
    if (g->type == PT || g->type == LS) return Seq(&g->coords, nd, g->type == PT);
    if (Empty()) return true;
    if (!Ch('(')) return false;
    bool bare = false, paren = false;
    do {
      Ws();
      if (g->type == PG) {
        g->rings.emplace_back();
        if (!Seq(&g->rings.back(), nd, false)) return false;
        continue;
      }
      g->kids.emplace_back();
      G* k = &g->kids.back();
      if (g->type == GC) {
        if (!Tagged(k, depth + 1)) return false;
        continue;
      }
      k->type = g->type - 3;
      k->dims = g->dims;
      if (g->type == MPT && !End() && s[i] != '(' && s[i] != 'E' && s[i] != 'e') {
        bare = true;
        C4 c{};
        if (!Coord(&c, nd)) return false;
        k->coords.push_back(c);
      } else {
        if (!End() && s[i] == '(') paren = true;
        if (!Body(k, depth + 1)) return false;
      }
      if (bare && paren) unspec = true;
    } while (Ch(','));
    return Ch(')');
  }
  bool Tagged(G* g, int depth) {
    if (depth > 120) unspec = true;
    if (depth > 400) return false;
    Ws();
    std::string w = Peek();
    g->type = 0;
    for (int k = 1; k <= 7; k++)
      if (Word(w, TypeName(k))) g->type = k;
    if (!g->type) {
      // POINTZ and the like
      for (int k = 1; k <= 7; k++)
        for (const char* d : {"Z", "M", "ZM"})
          if (strcasecmp(w.c_str(), (std::string(TypeName(k)) + d).c_str()) == 0) unspec = true;
      return false;
    }
    i += w.size();
    Ws();
    w = Peek();
    g->dims = 1;
    if (Word(w, "Z")) g->dims = 2, i += 1;
    else if (Word(w, "M")) g->dims = 3, i += 1;
    else if (Word(w, "ZM")) g->dims = 4, i += 2;
    return Body(g, depth);
  }
};
}  // namespace

WktStatus RefWktRead(const std::string& s, G* out) {
  *out = G();
  WktR r{s};
  if (s.find('\0') != std::string::npos) r.unspec = true;
  bool ok = r.Tagged(out, 0);
  if (ok) {
    r.Ws();
    ok = r.End();
  }
  if (r.unspec) return WKT_UNSPEC;
  return ok ? WKT_OK : WKT_BAD;
}

// ------------------------------------------------------------- arrays

static void RefRelease(struct ArrowArray* a) {
  RefArray* r = (RefArray*)a->private_data;
  r->released++;
  a->release = nullptr;
}

RefArray::RefArray() { memset(&a, 0, sizeof(a)); }
RefArray::~RefArray() {
  for (void* p : owned) free(p);
}

void* RefArray::AddBuffer(const void* data, size_t n) {
  if (n == 0) {
    bufs.push_back(nullptr);
    return nullptr;
  }
  void* p = malloc(n);
  memcpy(p, data, n);
  owned.push_back(p);
  bufs.push_back(p);
  return p;
}

struct ArrowArray* RefArray::Finish(int64_t length, int64_t offset, int64_t null_count) {
  for (auto& k : kids) kid_ptrs.push_back(&k->a);
  a.length = length;
  a.offset = offset;
  a.null_count = null_count;
  a.n_buffers = (int64_t)bufs.size();
  a.buffers = bufs.data();
  a.n_children = (int64_t)kid_ptrs.size();
  a.children = kid_ptrs.data();
  a.dictionary = nullptr;
  a.release = RefRelease;
  a.private_data = this;
  return &a;
}

int NativeLevels(int gt) {
  switch (gt) {
    case PT: return 0;
    case LS:
    case MPT: return 1;
    case PG:
    case MLS: return 2;
    case MPG: return 3;
    default: return -1;
  }
}

namespace {
struct Node {
  std::vector<Node> kids;
  C4 c{};
};
Node CoordNode(const C4& c) {
  Node n;
  n.c = c;
  return n;
}
Node NodeOf(const G& g) {
  Node n;
  switch (g.type) {
    case PT:
      if (g.coords.empty())
        n.c = {NAN, NAN, NAN, NAN};
      else
        n.c = g.coords[0];
      break;
    case LS:
      for (auto& c : g.coords) n.kids.push_back(CoordNode(c));
      break;
    case PG:
      for (auto& r : g.rings) {
        Node k;
        for (auto& c : r) k.kids.push_back(CoordNode(c));
        n.kids.push_back(k);
      }
      break;
    default:
      for (auto& k : g.kids) n.kids.push_back(NodeOf(k));
  }
  return n;
}
Node Junk(Tape& t, int level, int levels) {
  Node n;
  if (level == levels) {
    n.c = {-1111.5, -2222.5, -3333.5, -4444.5};
    return n;
  }
  int k = (int)t.Below(3);
  for (int i = 0; i < k; i++) n.kids.push_back(Junk(t, level + 1, levels));
  return n;
}

struct NB {
  Tape& t;
  const NativeOpt& o;
  int levels, nd;
  bool interleaved;
  int Slack(int max = 3) { return o.offsets && t.Chance(1, 3) ? (int)t.Range(1, max) : 0; }

  std::unique_ptr<RefArray> Doubles(const std::vector<double>& phys, int64_t off) {
    std::unique_ptr<RefArray> r(new RefArray());
    AllValid(r.get(), phys.size());
    r->AddBuffer(phys.data(), phys.size() * 8);
    r->Finish((int64_t)phys.size() - off, off, 0);
    return r;
  }

  // No bitmap, or one that has no nulls
  void AllValid(RefArray* r, size_t n) {
    if (!t.Chance(1, 12)) return r->AddNull();
    std::vector<uint8_t> bits((n + 7) / 8, 0xff);
    r->AddBuffer(bits.data(), bits.size());
  }

  std::unique_ptr<RefArray> Build(int level, const std::vector<Node>& rows,
                                  const std::vector<bool>* nulls) {
    std::unique_ptr<RefArray> r(new RefArray());
    int64_t off = o.offsets && t.Chance(1, 400) ? t.Range(60, 300) : Slack(11);
    if (level == 0 && o.force_offset0 >= 0) off = o.force_offset0;
    std::vector<Node> phys;
    for (int64_t i = 0; i < off; i++) phys.push_back(Junk(t, level, levels));
    phys.insert(phys.end(), rows.begin(), rows.end());
    int suffix = Slack();
    for (int i = 0; i < suffix; i++) phys.push_back(Junk(t, level, levels));

    int64_t null_count = 0;
    if (nulls) {
      for (bool b : *nulls) null_count += b;
    }
    if (nulls && o.validity && (null_count > 0 || t.Chance(1, 4))) {
      size_t nb = (phys.size() + 7) / 8;
      std::vector<uint8_t> bits(nb);
      for (auto& b : bits) b = t.Byte();
      for (size_t i = 0; i < nulls->size(); i++) {
        size_t k = i + (size_t)off;
        if ((*nulls)[i])
          bits[k / 8] &= (uint8_t)~(1 << (k % 8));
        else
          bits[k / 8] |= (uint8_t)(1 << (k % 8));
      }
      r->AddBuffer(bits.data(), nb);
      if (t.Chance(1, 4)) null_count = -1;
    } else if (!nulls) {
      AllValid(r.get(), phys.size());
    } else {
      r->AddNull();
    }

    if (level == levels) {
      if (interleaved) {
        int64_t coff = Slack(7);
        std::vector<double> d(coff, -9999.25);
        for (auto& n : phys)
          for (int j = 0; j < nd; j++) d.push_back(n.c[j]);
        for (int i = Slack(); i > 0; i--) d.push_back(-8888.25);
        r->AddChild(Doubles(d, coff));
      } else {
        for (int j = 0; j < nd; j++) {
          int64_t coff = Slack(7);
          std::vector<double> d(coff, -9999.25);
          for (auto& n : phys) d.push_back(n.c[j]);
          for (int i = Slack(); i > 0; i--) d.push_back(-8888.25);
          r->AddChild(Doubles(d, coff));
        }
      }
      r->Finish((int64_t)rows.size(), off, null_count);
      return r;
    }

    std::vector<Node> kids;
    for (int i = Slack(); i > 0; i--) kids.push_back(Junk(t, level + 1, levels));
    std::vector<int32_t> offsets;
    offsets.push_back((int32_t)kids.size());
    for (auto& n : phys) {
      kids.insert(kids.end(), n.kids.begin(), n.kids.end());
      offsets.push_back((int32_t)kids.size());
    }
    for (int i = Slack(); i > 0; i--) kids.push_back(Junk(t, level + 1, levels));
    if (phys.empty() && t.Chance(1, 2))
      r->AddNull();
    else
      r->AddBuffer(offsets.data(), offsets.size() * 4);
    r->AddChild(Build(level + 1, kids, nullptr));
    r->Finish((int64_t)rows.size(), off, null_count);
    return r;
  }
};
}  // namespace

std::unique_ptr<RefArray> BuildNative(Tape& t, enum GeoArrowType type,
                                      const std::vector<Feat>& feats, const NativeOpt& o) {
  int gt = (int)type % 1000;
  int dims = ((int)type % 10000) / 1000 + 1;
  NB nb{t, o, NativeLevels(gt), NDim(dims), (int)type >= 10000};
  std::vector<Node> rows;
  std::vector<bool> nulls;
  for (auto& f : feats) {
    nulls.push_back(f.null);
    if (f.null)
      rows.push_back(t.Chance(1, 2) ? Junk(t, 0, nb.levels) : Node());
    else
      rows.push_back(NodeOf(f.g));
  }
  return nb.Build(0, rows, &nulls);
}

std::unique_ptr<RefArray> BuildBox(Tape& t, enum GeoArrowType type,
                                   const std::vector<std::vector<double>>& rows,
                                   const std::vector<bool>& nulls, const NativeOpt& o) {
  int dims = ((int)type % 10000) / 1000 + 1;
  int nv = NDim(dims) * 2;
  auto slack = [&](int max) { return o.offsets && t.Chance(1, 3) ? (int)t.Range(1, max) : 0; };
  std::unique_ptr<RefArray> r(new RefArray());
  int64_t off = o.force_offset0 >= 0 ? o.force_offset0 : slack(11);
  int suffix = slack(3);
  size_t nphys = (size_t)off + rows.size() + suffix;
  int64_t null_count = 0;
  for (bool b : nulls) null_count += b;
  if (null_count || t.Chance(1, 4)) {
    std::vector<uint8_t> bits((nphys + 7) / 8);
    for (auto& b : bits) b = t.Byte();
    for (size_t i = 0; i < rows.size(); i++) {
      size_t k = i + (size_t)off;
      if (nulls[i])
        bits[k / 8] &= (uint8_t)~(1 << (k % 8));
      else
        bits[k / 8] |= (uint8_t)(1 << (k % 8));
    }
    r->AddBuffer(bits.data(), bits.size());
  } else {
    r->AddNull();
  }
  for (int j = 0; j < nv; j++) {
    int64_t coff = slack(7);
    std::vector<double> d(coff + off, -9999.25);
    for (auto& row : rows) d.push_back(row[j]);
    for (int i = 0; i < suffix; i++) d.push_back(-8888.25);
    std::unique_ptr<RefArray> k(new RefArray());
    k->AddNull();
    k->AddBuffer(d.data(), d.size() * 8);
    k->Finish((int64_t)d.size() - coff, coff, 0);
    r->AddChild(std::move(k));
  }
  r->Finish((int64_t)rows.size(), off, null_count);
  return r;
}

std::unique_ptr<RefArray> BuildBinary(Tape& t, int kind, const std::vector<std::string>& items,
                                      const std::vector<bool>& nulls, const NativeOpt& o) {
  auto slack = [&](int max) { return o.offsets && t.Chance(1, 3) ? (int)t.Range(1, max) : 0; };
  std::unique_ptr<RefArray> r(new RefArray());
  int64_t off = o.force_offset0 >= 0 ? o.force_offset0 : o.offsets && t.Chance(1, 400) ? t.Range(60, 300) : slack(11);
  int suffix = slack(3);
  std::vector<std::string> phys;
  for (int64_t i = 0; i < off; i++) phys.push_back("junk");
  for (size_t i = 0; i < items.size(); i++) {
    if (nulls[i])
      phys.push_back(t.Chance(1, 2) ? "null slot junk bytes" : "");
    else
      phys.push_back(items[i]);
  }
  for (int i = 0; i < suffix; i++) phys.push_back("JUNKSUFFIX");
  int64_t null_count = 0;
  for (bool b : nulls) null_count += b;
  if (null_count || t.Chance(1, 4)) {
    std::vector<uint8_t> bits((phys.size() + 7) / 8);
    for (auto& b : bits) b = t.Byte();
    for (size_t i = 0; i < items.size(); i++) {
      size_t k = i + (size_t)off;
      if (nulls[i])
        bits[k / 8] &= (uint8_t)~(1 << (k % 8));
      else
        bits[k / 8] |= (uint8_t)(1 << (k % 8));
    }
    r->AddBuffer(bits.data(), bits.size());
    if (t.Chance(1, 4)) null_count = -1;
  } else {
    r->AddNull();
  }
  if (kind <= 1) {
    std::string data;
    if (o.offsets && t.Chance(1, 4)) data = "lead";
    std::vector<int32_t> o32;
    std::vector<int64_t> o64;
    o32.push_back((int32_t)data.size());
    o64.push_back((int64_t)data.size());
    for (auto& s : phys) {
      data += s;
      o32.push_back((int32_t)data.size());
      o64.push_back((int64_t)data.size());
    }
    if (kind == 0)
      r->AddBuffer(o32.data(), o32.size() * 4);
    else
      r->AddBuffer(o64.data(), o64.size() * 8);
    r->AddBuffer(data.data(), data.size());
  } else {
    // binary/utf8 view: 16 byte views, variadic buffers, buffer sizes
    std::vector<uint8_t> views(phys.size() * 16, 0);
    int nbuf = 1 + (int)t.Below(t.Chance(1, 8) ? 40 : 3);
    bool any_long = false;
    for (auto& s : phys) any_long |= s.size() > 12;
    if (!any_long && t.Coin()) nbuf = 0;
    std::vector<std::string> data(nbuf);
    for (size_t i = 0; i < phys.size(); i++) {
      const std::string& s = phys[i];
      int32_t len = (int32_t)s.size();
      uint8_t* v = &views[i * 16];
      memcpy(v, &len, 4);
      if (len <= 12) {
        memcpy(v + 4, s.data(), len);
      } else {
        int32_t b = (int32_t)t.Below(nbuf);
        int32_t at = (int32_t)data[b].size();
        memcpy(v + 4, s.data(), 4);
        memcpy(v + 8, &b, 4);
        memcpy(v + 12, &at, 4);
        data[b] += s;
      }
    }
    r->AddBuffer(views.data(), views.size());
    std::vector<int64_t> sizes;
    for (auto& d : data) {
      r->AddBuffer(d.data(), d.size());
      sizes.push_back((int64_t)d.size());
    }
    r->AddBuffer(sizes.data(), sizes.size() * 8);
  }
  r->Finish((int64_t)items.size(), off, null_count);
  return r;
}

namespace {
bool Valid(const struct ArrowArray* a, int64_t i) {
  const uint8_t* b = (const uint8_t*)a->buffers[0];
  i += a->offset;
  return !b || ((b[i / 8] >> (i % 8)) & 1);
}

struct NR {
  int gt, dims, nd, levels;
  bool interleaved;
  void CheckCommon(const struct ArrowArray* a, int64_t nb, const char* what) {
    VF_CHECK(a->release != nullptr, "%s is released", what);
    VF_CHECK(a->length >= 0 && a->offset >= 0, "%s length/offset", what);
    VF_CHECK(a->n_buffers == nb, "%s has %lld buffers, expected %lld", what,
             (long long)a->n_buffers, (long long)nb);
    VF_CHECK(a->dictionary == nullptr, "%s has a dictionary", what);
    int64_t nulls = 0;
    for (int64_t i = 0; i < a->length; i++) nulls += !Valid(a, i);
    VF_CHECK(a->null_count == -1 || a->null_count == nulls,
             "%s null_count %lld but %lld nulls in the bitmap", what, (long long)a->null_count,
             (long long)nulls);
  }
  C4 Coord(const struct ArrowArray* a, int64_t i) {
    C4 c{};
    for (int j = 0; j < nd; j++) {
      if (interleaved) {
        const struct ArrowArray* k = a->children[0];
        c[j] = ((const double*)k->buffers[1])[k->offset + (a->offset + i) * nd + j];
      } else {
        const struct ArrowArray* k = a->children[j];
        c[j] = ((const double*)k->buffers[1])[k->offset + a->offset + i];
      }
    }
    return c;
  }
  void Check(const struct ArrowArray* a, int level) {
    if (level == levels) {
      CheckCommon(a, 1, "coordinate array");
      VF_CHECK(a->n_children == (interleaved ? 1 : nd), "coordinate array has %lld children",
               (long long)a->n_children);
      for (int64_t j = 0; j < a->n_children; j++) {
        const struct ArrowArray* k = a->children[j];
        CheckCommon(k, 2, "ordinate array");
        int64_t need = (a->offset + a->length) * (interleaved ? nd : 1);
        VF_CHECK(k->length >= need, "ordinate array of length %lld, %lld needed",
                 (long long)k->length, (long long)need);
        VF_CHECK(k->null_count == 0 || k->null_count == -1, "ordinates contain nulls");
        VF_CHECK(need == 0 || k->buffers[1] != nullptr, "ordinate buffer missing");
      }
      return;
    }
    CheckCommon(a, 2, "list array");
    VF_CHECK(a->n_children == 1, "list array has %lld children", (long long)a->n_children);
    const int32_t* off = (const int32_t*)a->buffers[1];
    VF_CHECK(a->length == 0 || off != nullptr, "offset buffer missing");
    if (a->length > 0) {
      off += a->offset;
      VF_CHECK(off[0] >= 0, "negative first offset %d", off[0]);
      for (int64_t i = 0; i < a->length; i++)
        VF_CHECK(off[i] <= off[i + 1], "offsets decrease: %d %d", off[i], off[i + 1]);
      VF_CHECK(off[a->length] <= a->children[0]->length, "last offset %d exceeds child length %lld",
               off[a->length], (long long)a->children[0]->length);
    }
    Check(a->children[0], level + 1);
  }
  void Range(const struct ArrowArray* a, int64_t i, int64_t* b, int64_t* e) {
    const int32_t* off = (const int32_t*)a->buffers[1] + a->offset;
    *b = off[i];
    *e = off[i + 1];
  }
  std::vector<C4> Seq(const struct ArrowArray* list, int64_t i) {
    int64_t b, e;
    Range(list, i, &b, &e);
    std::vector<C4> s;
    for (int64_t k = b; k < e; k++) s.push_back(Coord(list->children[0], k));
    return s;
  }
  G Geom(const struct ArrowArray* a, int64_t i, int type) {
    G g;
    g.type = type;
    g.dims = dims;
    int64_t b, e;
    switch (type) {
      case PT:
        g.coords.push_back(Coord(a, i));
        break;
      case LS:
        g.coords = Seq(a, i);
        break;
      case PG:
        Range(a, i, &b, &e);
        for (int64_t k = b; k < e; k++) g.rings.push_back(Seq(a->children[0], k));
        break;
      default:
        Range(a, i, &b, &e);
        for (int64_t k = b; k < e; k++) g.kids.push_back(Geom(a->children[0], k, type - 3));
    }
    return g;
  }
};
}  // namespace

std::vector<Feat> ReadNative(const struct ArrowArray* a, enum GeoArrowType type) {
  NR r;
  r.gt = (int)type % 1000;
  r.dims = ((int)type % 10000) / 1000 + 1;
  r.nd = NDim(r.dims);
  r.levels = NativeLevels(r.gt);
  r.interleaved = (int)type >= 10000;
  r.Check(a, 0);
  std::vector<Feat> out;
  for (int64_t i = 0; i < a->length; i++) {
    Feat f;
    f.null = !Valid(a, i);
    if (!f.null) f.g = r.Geom(a, i, r.gt);
    out.push_back(f);
  }
  return out;
}

std::vector<BinaryItem> ReadBinary(const struct ArrowArray* a, int kind) {
  VF_CHECK(a->release != nullptr, "array is released");
  VF_CHECK(a->n_buffers == 3, "binary array has %lld buffers", (long long)a->n_buffers);
  VF_CHECK(a->n_children == 0, "binary array has children");
  VF_CHECK(a->length >= 0 && a->offset >= 0, "length/offset");
  std::vector<BinaryItem> out;
  int64_t nulls = 0;
  for (int64_t i = 0; i < a->length; i++) {
    BinaryItem it;
    it.null = !Valid(a, i);
    nulls += it.null;
    int64_t b, e;
    if (kind == 0) {
      const int32_t* o = (const int32_t*)a->buffers[1] + a->offset;
      b = o[i];
      e = o[i + 1];
    } else {
      const int64_t* o = (const int64_t*)a->buffers[1] + a->offset;
      b = o[i];
      e = o[i + 1];
    }
    VF_CHECK(b >= 0 && b <= e, "offsets %lld %lld", (long long)b, (long long)e);
    if (!it.null && e > b) it.value.assign((const char*)a->buffers[2] + b, (size_t)(e - b));
    out.push_back(it);
  }
  VF_CHECK(a->null_count == -1 || a->null_count == nulls, "null_count %lld but %lld nulls",
           (long long)a->null_count, (long long)nulls);
  return out;
}

}  // namespace vf
