// C25: the C++ WKB parser and WKB arrays
#include "big_util.h"
#include "hpp_util.h"
#include "wkb_gen.h"
using namespace vf;
namespace wu = geoarrow::wkb_util;
using P = wu::WKBParser;

static uint64_t LoadBits(const uint8_t* p, int n, bool little) {
  uint64_t v = 0;
  for (int i = 0; i < n; i++) v |= (uint64_t)p[i] << 8 * (little ? i : n - 1 - i);
  return v;
}

// Walks well-formed bytes next to the parsed structure: what the model leaves
// out (SRIDs, where the sequences lie)
struct Walk {
  const uint8_t* base;
  size_t pos = 0;
  uint64_t U(int n, bool little) {
    uint64_t v = LoadBits(base + pos, n, little);
    pos += (size_t)n;
    return v;
  }
  void Seq(const wu::WKBSequence& s, uint32_t n, int nd, bool little) {
    VF_CHECK(s.size() == n && s.length == n, "sequence of %u coordinates, expected %u", s.size(), n);
    VF_CHECK(s.stride == (uint32_t)nd && NDim((int)s.dimensions) == nd, "sequence stride %u", s.stride);
    VF_CHECK(s.data == base + pos, "sequence at byte %ld, expected %zu", (long)(s.data - base), pos);
    VF_CHECK(s.endianness == (little ? 1 : 0), "sequence byte order %d", s.endianness);
    if (s.endianness == GEOARROW_NATIVE_ENDIAN) {
      auto xy = s.ViewAsNativeXY();
      VF_CHECK(xy.size() == (int64_t)n, "XY view of %lld", (long long)xy.size());
      for (uint32_t i = 0; i < n; i++) {
        auto c = xy.coord(i);
        for (int j = 0; j < 2; j++) {
          uint64_t bits = LoadBits(base + pos + (i * nd + j) * 8, 8, little);
          double d;
          memcpy(&d, &bits, 8);
          VF_CHECK(SameBits(c[j], d), "XY view, coordinate %u", i);
        }
      }
    }
    pos += (size_t)n * nd * 8;
  }
  void Geom(const wu::WKBGeometry& g, const G& ref) {
    bool little = base[pos++] == 1;
    uint32_t ty = (uint32_t)U(4, little), srid = wu::WKBGeometry::kSridUnset;
    if (ty & 0x20000000u) srid = (uint32_t)U(4, little);
    VF_CHECK((int)g.geometry_type == ref.type && (int)g.dimensions == ref.dims, "parsed %d/%d, expected %d/%d",
             (int)g.geometry_type, (int)g.dimensions, ref.type, ref.dims);
    VF_CHECK(g.srid == srid, "SRID %u, expected %u", g.srid, srid);
    int nd = NDim(ref.dims);
    uint32_t seqs = 0, kids = 0;
    if (ref.type == PT) {
      seqs = 1;
    } else {
      uint32_t n = (uint32_t)U(4, little);
      if (ref.type == LS) {
        seqs = 1;
        pos -= 4;
      } else if (ref.type == PG) {
        seqs = n;
      } else {
        kids = n;
      }
    }
    VF_CHECK(g.NumSequences() == seqs && g.NumGeometries() == kids, "%u sequences and %u members, expected %u and %u",
             g.NumSequences(), g.NumGeometries(), seqs, kids);
    for (uint32_t i = 0; i < seqs; i++) Seq(g.Sequence(i), ref.type == PT ? 1 : (uint32_t)U(4, little), nd, little);
    for (uint32_t i = 0; i < kids; i++) Geom(g.Geometry(i), ref.kids[i]);
  }
};

// Multipoints with members that are no points: their edges are not specified
static bool OddMultipoint(const G& g) {
  for (auto& k : g.kids)
    if ((g.type == MPT && k.type != PT) || OddMultipoint(k)) return true;
  return false;
}

template <typename Dst>
static void Visits(const wu::WKBGeometry& g, const G& ref) {
  CheckVisits<Dst>(g, OneFeat(ref));
}

static void One(Ctx& c, P& parser, wu::WKBGeometry& geom, const std::string& bytes) {
  Tape& t = c.t;
  Exact buf(bytes);
  G ref;
  bool unspec = false;
  size_t used = 0;
  WkbStatus st = RefWkbDecode(buf.p, buf.n, &ref, &used, 1 << 20, &unspec);
  const uint8_t* cursor = nullptr;
  P::Status rc;
  bool with_cursor = t.Coin();
  if (t.Coin())
    rc = parser.Parse(buf.View(), &geom, with_cursor ? &cursor : nullptr);
  else
    rc = parser.Parse(buf.p, buf.n, &geom, with_cursor ? &cursor : nullptr);
  std::string name = parser.ErrorToString(rc);
  VF_CHECK(!name.empty() && (rc == P::OK) == (name == "OK"), "status %d is called %s", rc, name.c_str());
  bool ok = rc == P::OK || rc == P::TOO_MANY_BYTES;
  if (st == WKB_ENDIAN || !unspec) {
    // up to 250 levels must be accepted
    bool deep = Depth(ref) > 250;
    if (st == WKB_OK) {
      if (!deep) VF_CHECK(ok, "well-formed bytes rejected: %s", name.c_str());
      if (ok) VF_CHECK((rc == P::OK) == (used == buf.n), "%zu of %zu bytes used: %s", used, buf.n, name.c_str());
    } else {
      VF_CHECK(!ok, "malformed bytes (%s) accepted: %s",
               st == WKB_SHORT ? "short" : st == WKB_ENDIAN ? "byte order" : "type", name.c_str());
      if (!unspec && !deep) {
        // a code given for a header is the same wherever the rest is cut off
        bool fine = st == WKB_SHORT ? rc == P::TOO_FEW_BYTES : rc == P::INVALID_GEOMETRY_TYPE || rc == P::TOO_FEW_BYTES;
        VF_CHECK(fine, "%s bytes: %s", st == WKB_SHORT ? "truncated" : "unknown type in", name.c_str());
        if (rc == P::TOO_FEW_BYTES && st == WKB_TYPE) VF_CHECK(used + 4 > buf.n, "enough bytes: %s", name.c_str());
      }
    }
  }
  if (ok) {
    c.label(rc == P::OK ? "accepted" : "accepted, more bytes");
    if (with_cursor) VF_CHECK(cursor >= buf.p && cursor <= buf.p + buf.n, "cursor outside the bytes");
    if (!unspec) {
      if (with_cursor) VF_CHECK(cursor == buf.p + used, "cursor at %ld, expected %zu", (long)(cursor - buf.p), used);
      Walk w{buf.p};
      w.Geom(geom, ref);
      if (!OddMultipoint(ref)) switch (t.Below(4)) {
        case 0: Visits<au::XY<double>>(geom, ref); break;
        case 1: Visits<au::XYZ<double>>(geom, ref); break;
        case 2: Visits<au::XYM<double>>(geom, ref); break;
        default: Visits<au::XYZM<double>>(geom, ref); break;
      }
    }
  } else {
    c.label(std::string("rejected: ") + name);
  }
  if (t.Chance(1, 16) && ok && !unspec) {
    // A view larger than 4 GB whose tail is never looked at
    struct GeoArrowBufferView v = buf.View();
    v.size_bytes += (int64_t)1 << 32;
    VF_CHECK(parser.Parse(v, &geom) == P::TOO_MANY_BYTES, "4 GB too many are not noticed");
    c.label("huge view");
  }
}

static void Bytes(Ctx& c) {
  Tape& t = c.t;
  P parser;
  Fresh<wu::WKBGeometry> fresh;
  wu::WKBGeometry& geom = *fresh.p;
  VF_CHECK(geom.NumSequences() == 0 && geom.NumGeometries() == 0, "a new geometry is not empty");
  int n = 1 + (int)t.Below(3);
  for (int i = 0; i < n; i++) {
    std::string s = GenBytes(t, c);
    c.note("bytes: " + Hex(s.data(), s.size(), 1200));
    One(c, parser, geom, s);
    if (s.size() > 5) c.nontrivial(s);
  }
}

static void Deep(Ctx& c) {
  Tape& t = c.t;
  int levels = (int)t.Range(20000, 120000), e = (int)t.Below(2);
  std::string s;
  for (int i = 0; i < levels; i++) {
    s += (char)e;
    PutLE(s, 7, e);
    PutLE(s, 1, e);
  }
  c.note(strf("%d nested collections", levels));
  c.label("very deep");
  Exact buf(s);
  P parser;
  Fresh<wu::WKBGeometry> fresh;
  wu::WKBGeometry& geom = *fresh.p;
  P::Status rc = parser.Parse(buf.p, buf.n, &geom);
  VF_CHECK(rc != P::OK && rc != P::TOO_MANY_BYTES, "an unfinished nest is accepted");
  c.nontrivial((uint64_t)levels);
}

template <typename Off>
static void CheckWkbArray(Ctx& c, wu::WKBArray<Off> arr, std::vector<Feat> feats, std::vector<bool> bad) {
  Tape& t = c.t;
  for (int k = (int)t.Below(3); k > 0; k--) {
    size_t o = t.Below(feats.size() + 1), n = t.Below(feats.size() - o + 1);
    arr = arr.Slice((int64_t)o, (int64_t)n);
    feats = std::vector<Feat>(feats.begin() + o, feats.begin() + o + n);
    bad = std::vector<bool>(bad.begin() + o, bad.begin() + o + n);
    c.label("sliced");
    c.note(strf("slice %zu %zu", o, n));
  }
  VF_CHECK(arr.value.length == (int64_t)feats.size(), "%lld rows", (long long)arr.value.length);
  size_t first_bad = feats.size();
  for (size_t i = feats.size(); i > 0; i--) {
    VF_CHECK(arr.is_null(i - 1) == feats[i - 1].null && arr.is_valid(i - 1) == !feats[i - 1].null, "row %zu validity",
             i - 1);
    if (bad[i - 1] && !feats[i - 1].null) first_bad = i - 1;
  }
  // by iterator
  auto it = arr.value.begin();
  int64_t at = 0;
  VF_CHECK(arr.value.end() - it == (int64_t)feats.size(), "iterator distance");
  for (size_t s = 0; s < 2 * feats.size(); s++) {
    int64_t j = s < feats.size() ? (int64_t)s : (int64_t)t.Below(feats.size());
    it += j - at;
    at = j;
    if (feats[j].null) continue;
    bool threw = false;
    try {
      const wu::WKBGeometry& g = *it;
      CheckVisits<au::XYZM<double>>(g, OneFeat(feats[j].g));
    } catch (const geoarrow::Exception& e) {
      threw = true;
      VF_CHECK(e.what()[0], "no message");
    }
    VF_CHECK(threw == bad[j], "row %lld: %s", (long long)j, threw ? "refused" : "malformed but accepted");
  }
  // the whole array
  for (int edges = 0; edges < 2; edges++) {
    Rows got, want;
    bool threw = false;
    try {
      if (edges)
        arr.template VisitEdges<au::XYZ<double>>([&](au::XYZ<double> a, au::XYZ<double> b) {
          auto x = Flat(a), y = Flat(b);
          x.insert(x.end(), y.begin(), y.end());
          got.push_back(x);
        });
      else
        arr.template VisitVertices<au::XYZ<double>>([&](au::XYZ<double> a) { got.push_back(Flat(a)); });
    } catch (const geoarrow::Exception& e) {
      threw = true;
      VF_CHECK(e.what()[0], "no message");
    }
    VF_CHECK(threw == (first_bad < feats.size()), "visiting %s", threw ? "threw" : "did not throw");
    for (size_t i = 0; i < first_bad; i++)
      if (!feats[i].null) {
        if (edges)
          WantEdges<au::XYZ<double>>(feats[i].g, &want);
        else
          WantVertices<au::XYZ<double>>(feats[i].g, &want);
      }
    CheckRows(got, want, edges ? "edge" : "vertex");
  }
}

template <typename Arr>
static void InitArr(Arr& arr, const struct GeoArrowArrayView* view, int* rc, wu::WKBArray<int32_t>* out) {
  *rc = -1;
}
static void InitArr(wu::WKBArray<int32_t>& arr, const struct GeoArrowArrayView* view, int* rc,
                    wu::WKBArray<int32_t>* out) {
  *rc = arr.Init(view);
  *out = arr;
}

static void Arrays(Ctx& c) {
  Tape& t = c.t;
  GenOpt o;
  o.huge = true;
  o.max_coords = 8;
  o.mixed_dims = t.Chance(1, 4);
  std::vector<Feat> feats = GenFeats(t, o, 8);
  std::vector<std::string> items;
  std::vector<bool> nulls, bad;
  bool may_break = t.Chance(1, 3);
  for (auto& f : feats) {
    WkbOpt w;
    w.mixed_endian = t.Coin();
    std::string s = RefWkb(f.g, w, &t);
    f.g = WkbForm(f.g);
    bad.push_back(false);
    if (may_break && t.Chance(1, 4)) {
      bad.back() = true;
      switch (t.Below(3)) {
        case 0: s.resize(t.Below(s.size())); break;
        case 1: s += 'x'; break;
        default: s[0] = 5;
      }
      c.label("malformed row");
    } else if (f.null && t.Coin()) {
      s = t.BytesString(t.Below(9));
    }
    items.push_back(s);
    nulls.push_back(f.null);
  }
  c.note(ShowFeats(feats));
  bool large = t.Coin();
  auto arr = BuildBinary(t, large ? 1 : 0, items, nulls, NativeOpt());
  c.label(large ? "large array" : "array");
  if (large) {
    wu::WKBArray<int64_t> w;
    w.value.offset = arr->a.offset;
    w.value.length = arr->a.length;
    w.value.offsets = (const int64_t*)arr->a.buffers[1];
    w.value.data = (const uint8_t*)arr->a.buffers[2];
    w.validity = (const uint8_t*)arr->a.buffers[0];
    CheckWkbArray(c, w, feats, bad);
  } else {
    struct GeoArrowArrayView view;
    VF_CHECK(GeoArrowArrayViewInitFromType(&view, GEOARROW_TYPE_WKB) == 0, "init");
    int rc = GeoArrowArrayViewSetArray(&view, &arr->a, nullptr);
    VF_CHECK(rc == 0, "SetArray %d", rc);
    wu::WKBArray<int32_t> w;
    GEOARROW_DISPATCH_ARRAY_CALL(GEOARROW_TYPE_WKB, InitArr, &view, &rc, &w);
    VF_CHECK(rc == 0, "Init %d", rc);
    CheckWkbArray(c, w, feats, bad);
  }
  if (feats.size() > 1) c.nontrivial(FeatsKey(feats));
}

static void Run(Ctx& c) {
  Tape& t = c.t;
  Live live;
  uint64_t k = t.Below(20000);
  if (k >= 19998)
    Deep(c);
  else if (k >= 15000)
    Arrays(c);
  else
    Bytes(c);
  live.Check("WKB parser");
}

// A value whose size does not fit 32 bits, followed by another ring
static void Big(int, Ctx& c) {
  const uint32_t n = (1u << 28) + 12345;
  const int64_t ring = 4 + 16 * (int64_t)n, size = 9 + ring + 4 + 32;
  BigMap m((size_t)size + 1);
  m.p[0] = 1, m.p[1] = 3, m.p[5] = 2;
  memcpy(m.p + 9, &n, 4);
  m.p[9 + ring] = 2;
  double end[2] = {3, -4}, two[4] = {5, 6, 7, 8};
  memcpy(m.p + 9 + ring - 16, end, 16);
  memcpy(m.p + 9 + ring + 4, two, 32);
  c.note(strf("a polygon with a ring of %u coordinates and one of 2", n));
  P parser;
  wu::WKBGeometry g;
  VF_CHECK(parser.Parse(m.p, (size_t)size, &g) == P::OK, "parse");
  VF_CHECK(g.NumSequences() == 2 && g.Sequence(0).size() == n && g.Sequence(1).size() == 2, "sizes");
  VF_CHECK(g.Sequence(0).data == m.p + 13 && g.Sequence(1).data == m.p + 13 + ring, "places");
  uint64_t seen = 0;
  double sum = 0, last[2] = {0, 0};
  g.VisitVertices<au::XY<double>>([&](au::XY<double> v) {
    seen++;
    sum += v[0] + v[1];
    last[0] = v[0], last[1] = v[1];
  });
  VF_CHECK(seen == (uint64_t)n + 2 && sum == 25 && last[0] == 7 && last[1] == 8, "vertices: %llu, sum %g",
           (unsigned long long)seen, sum);
  auto xy = g.Sequence(0).ViewAsNativeXY();
  VF_CHECK(xy.coord(n - 1)[0] == 3 && xy.coord(n - 1)[1] == -4 && xy.coord(n - 2)[0] == 0, "last coordinate");
  VF_CHECK(xy.dbegin(1)[n - 1] == -4, "last y");
  VF_CHECK(parser.Parse(m.p, (size_t)size - 1, &g) == P::TOO_FEW_BYTES, "one byte less is enough");
  VF_CHECK(parser.Parse(m.p, (size_t)size + 1, &g) == P::TOO_MANY_BYTES, "one byte more is not noticed");
  c.nontrivial("big");
}

VF_PROP_BIG("C25", Run,
        "byte strings given to the C++ parser, several per parser and geometry object: mutated and "
        "truncated encodings, extreme counts and codes, deep nesting up to 120000 levels; WKB arrays "
        "with nulls, offsets and malformed rows. Non-trivial: longer than one header, or an array of "
        "more than one row, distinct by content",
            Big, 1)
