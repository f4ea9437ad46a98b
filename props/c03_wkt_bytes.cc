// C03: any byte sequence given to the WKT reader
#include "util.h"
using namespace vf;

static std::string GenNumberToken(Tape& t) {
  static const char* k[] = {"0", "1", "-1", "1.5", "-0.25", "1e3", "1E-3", "1e+2", "nan", "inf",
                            "-inf", "Infinity", "NaN", "-nan", "1abc", "1.2.3", "1e", "--1", "+1",
                            ".5", "5.", "-", ".", "e5", "0x10", "1e400", "1e-400", "1_0", "1;",
                            "12345678901234567890", "0.1e", "1-2", "1.5z", "nan(1)", "infin",
                            "9007199254740993", "4.9e-324", "1d0", "1f", "0x1p3", "1e5e5",
                            "\v1", "\f2", "1\v", "'1'", "1.0.", "٣"};
  switch (t.Below(4)) {
    case 0: return k[t.Below(sizeof(k) / sizeof(k[0]))];
    case 1: return strf("%.17g", GenOrdinate(t, 0));
    case 2: {
      std::string s;
      int n = (int)t.Range(1, t.Chance(1, 8) ? 80 : 12);
      static const char set[] = "0123456789.-+eE";
      for (int i = 0; i < n; i++) s += set[t.Below(sizeof(set) - 1)];
      return s;
    }
    default: return std::to_string(t.Range(-20, 20));
  }
}
static std::string Num(double v, void* ctx) {
  Tape& t = *(Tape*)ctx;
  if (t.Chance(1, 24)) return GenNumberToken(t);
  return RefNum17(v, nullptr);
}

static std::string GenText(Tape& t, Ctx& c) {
  std::string s;
  switch (t.Below(6)) {
    case 0: {  // token soup
      c.label("token soup");
      static const char* k[] = {"POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING",
                                "MULTIPOLYGON", "GEOMETRYCOLLECTION", "EMPTY", "Z", "M", "ZM", "(",
                                ")", ",", " ", "((", "))", "\n", "(1 2)", "(1 2 3)", "1 2", "POINTZ",
                                "point", "Empty", "EMPTYX", "MZ", "GEOMETRY", "(((", "\t", "\r"};
      int n = (int)t.Range(0, 14);
      for (int i = 0; i < n; i++) {
        if (t.Chance(1, 5))
          s += GenNumberToken(t);
        else
          s += k[t.Below(sizeof(k) / sizeof(k[0]))];
        if (t.Coin()) s += " ";
      }
      return s;
    }
    case 1: {
      c.label("nested");
      static const int k[] = {1, 2, 3, 10, 30, 31, 32, 33, 60, 100, 119};
      int d = k[t.Below(11)];
      if (t.Chance(1, 40)) d = 100000;
      for (int i = 0; i < d; i++) s += "GEOMETRYCOLLECTION (";
      s += t.Coin() ? "POINT (1 2)" : "POLYGON ((0 0, 1 0, 0 1, 0 0))";
      for (int i = 0; i < d; i++) s += ")";
      if (t.Coin()) return s;
      break;
    }
    default: {
      GenOpt o;
      o.mixed_dims = t.Chance(1, 4);
      o.max_coords = 10;
      WktStyle st;
      st.flat_multipoint = t.Coin();
      st.ws = t.Coin();
      st.lower = t.Chance(1, 16);
      s = RefWkt(GenG(t, o), st, &t, Num, &t);
      c.label("mutated");
    }
  }
  int nmut = t.Chance(1, 3) ? 0 : (int)t.Range(1, 3);
  static const char* toks[] = {"(", ")", ",", " ", "EMPTY", "Z ", "M", "1", "\0", "(1 2)", ", ", "-"};
  for (int i = 0; i < nmut; i++) {
    size_t at = s.empty() ? 0 : (size_t)t.Below(s.size());
    switch (t.Below(6)) {
      case 0:
        s.resize(at);
        c.label("truncated");
        break;
      case 1:
        if (!s.empty()) s.erase(at, (size_t)t.Range(1, 6));
        break;
      case 2:
        if (!s.empty()) s[at] = (char)t.Byte();
        break;
      case 3:
        s.insert(at, toks[t.Below(12)]);
        break;
      case 4:
        s += toks[t.Below(12)];
        break;
      default: {
        size_t b = s.empty() ? 0 : (size_t)t.Below(s.size());
        s.insert(at, s.substr(b, (size_t)t.Range(1, 20)));
      }
    }
  }
  return s;
}

static void One(Ctx& c, WktReader& rd, const std::string& text) {
  Exact buf(text);
  G ref;
  WktStatus st = RefWktRead(text, &ref);
  Recorder rec;
  int rc = GeoArrowWKTReaderVisit(&rd.r, buf.Str(), &rec.v);
  VF_CHECK(rec.protocol_error.empty(), "visitor protocol: %s", rec.protocol_error.c_str());
  if (st != WKT_UNSPEC)
    VF_CHECK((rc == 0) == (st == WKT_OK), "reader returned %d (%s) but the text is %s: %s", rc,
             rec.error.message, st == WKT_OK ? "well formed" : "malformed",
             Quote(text, 1500).c_str());
  if (rc != 0) {
    VF_CHECK(rc == EINVAL || rc == ENOTSUP, "unexpected code %d", rc);
    VF_CHECK(rec.error.message[0] && memchr(rec.error.message, 0, sizeof(rec.error.message)),
             "rejected with code %d but no message: %s", rc, Quote(text).c_str());
    c.label(st == WKT_UNSPEC ? "rejected (unspecified)" : "rejected");
  } else {
    CheckRecorder(rec, "WKT visit");
    VF_CHECK(rec.feats.size() == 1 && !rec.feats[0].null, "accepted, %zu features",
             rec.feats.size());
    std::string why;
    if (st == WKT_OK)
      VF_CHECK(SameG(rec.feats[0].g, ref, &why), "%s\n text: %s", why.c_str(), Quote(text).c_str());
    c.label(st == WKT_UNSPEC ? "accepted (unspecified)" : "accepted");
  }
}

static void Run(Ctx& c) {
  Tape& t = c.t;
  Live live;
  {
    WktReader rd;
    int n = 1 + (int)t.Below(3);
    for (int i = 0; i < n; i++) {
      std::string s = GenText(t, c);
      c.note("text: " + Quote(s, 1000));
      One(c, rd, s);
      if (s.size() > 7) c.nontrivial(s);
    }
  }
  live.Check("WKT reader");
}

VF_PROP("C03", Run,
        "texts: reference-written WKT of random geometries with random number tokens and up to 3 "
        "edits (cut, delete, insert, duplicate, random byte), token soup, deep nesting; several per "
        "reader. Non-trivial: longer than 7 bytes, distinct by content")
