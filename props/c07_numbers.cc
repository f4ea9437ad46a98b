// C07: number parsing and printing
#include "numfmt.h"
using namespace vf;

static std::string GenTok(Tape& t, Ctx& c) {
  static const char* k[] = {"0", "-0", "1", "1e5", "1E-5", "nan", "NaN", "-nan", "inf", "-inf",
                            "Infinity", "infinity", "0x10", "0x1p3", " 1", "1 ", "\v1", "\t2", "+1",
                            ".5", "5.", ".", "-", "e", "1e", "1e+", "--1", "1.2.3", "1,5", "1d5",
                            "1e400", "-1e400", "1e-400", "4.9406564584124654e-324",
                            "2.4703282292062327e-324", "2.4703282292062328e-324",
                            "1.7976931348623157e308", "1.7976931348623158e308",
                            "1.7976931348623159e308", "9007199254740993", "9007199254740992.5",
                            "9007199254740993.0000000000000001", "0.1", "0.30000000000000004",
                            "1e22", "1e23", "8.5e22", "nan(1)", "infin", "INF", "i", "n", "1\0" "2",
                            "123456789012345678901234567890", "2.2250738585072011e-308",
                            "6929495644600919.5", "3.518437208883201171875e13", "1abc", "abc", "1_0",
                            "1e0005", "00012", "-00.5", "1.e5", ".e5", "1e5.5", "0b1", "1f", "1L"};
  switch (t.Below(7)) {
    case 0: return k[t.Below(sizeof(k) / sizeof(k[0]))];
    case 1: return strf("%.*e", (int)t.Below(20), GenOrdinate(t, 1));
    case 2: {
      std::string s = strf("%.*f", (int)t.Below(30), GenOrdinate(t, 1));
      return s.substr(0, t.Chance(1, 4) ? 400 : 60);
    }
    case 3: {
      std::string s;
      int n = (int)t.Range(1, 24);
      static const char set[] = "0123456789012345678901234567890123456789..-+eEx ";
      for (int i = 0; i < n; i++) s += set[t.Below(sizeof(set) - 1)];
      return s;
    }
    case 4: {  // digits [. digits] [e exp]
      std::string s = t.Coin() ? "-" : "";
      int n = (int)t.Range(1, t.Chance(1, 10) ? 60 : 22);
      for (int i = 0; i < n; i++) s += (char)('0' + t.Below(10));
      if (t.Coin()) {
        s += ".";
        n = (int)t.Range(1, 22);
        for (int i = 0; i < n; i++) s += (char)('0' + t.Below(10));
      }
      if (t.Coin()) s += strf("%s%s%d", t.Coin() ? "e" : "E", t.Chance(1, 3) ? "+" : "", (int)t.Range(-330, 320));
      return s;
    }
    case 5: {  // halfway between neighbours, exactly or nearly
      double f = fabs(GenOrdinate(t, 1));
      if (f < 1e-20 || f > 1e20) f = (double)t.Range(1, 1 << 30) * 1.37;
      int e;
      frexp(f, &e);
      long double mid = ((long double)f + (long double)nextafter(f, INFINITY)) / 2;
      std::string s = strf("%.*Lf", e < 53 ? 53 - e + 1 : 0, mid);
      if (t.Coin()) s += s.find('.') == std::string::npos ? "" : (t.Coin() ? "0001" : "0000");
      c.label("halfway");
      return s;
    }
    default: {
      std::string s = strf("%.17g", GenOrdinate(t, 0));
      if (t.Coin()) {
        size_t at = (size_t)t.Below(s.size() + 1);
        if (t.Coin())
          s.insert(at, 1, (char)t.Byte());
        else if (at < s.size())
          s[at] = (char)t.Byte();
        c.label("mutated");
      }
      return s;
    }
  }
}

static void Parse(Ctx& c) {
  std::string s = GenTok(c.t, c);
  c.note("parse " + Quote(s));
  double want = 0;
  NumClass cls = ClassifyNumber(s, &want);
  Exact buf(s);
  double out = 12345.678;
  int rc = GeoArrowFromChars((const char*)buf.p, (const char*)buf.p + buf.n, &out);
  VF_CHECK(rc == 0 || rc == EINVAL, "code %d for %s", rc, Quote(s).c_str());
  if (rc) VF_CHECK(out == 12345.678, "%s rejected, the output became %s", Quote(s).c_str(), Dbl(out).c_str());
  if (cls == NUM_MUST) VF_CHECK(rc == 0, "%s rejected", Quote(s).c_str());
  if (cls == NUM_NOT) VF_CHECK(rc != 0, "%s accepted as %s", Quote(s).c_str(), Dbl(out).c_str());
  if (rc == 0 && !(want != want && cls == NUM_MAY))
    VF_CHECK(SameBits(out, want), "%s parsed as %s, is %s", Quote(s).c_str(), Dbl(out).c_str(),
             Dbl(want).c_str());
  c.label(cls == NUM_MUST ? "number" : cls == NUM_MAY ? "optional form" : "not a number");
  if (s.size() > 3) c.nontrivial(s);
}

static void Print(Ctx& c) {
  Tape& t = c.t;
  double f = GenOrdinate(t, 0);
  switch (t.Below(4)) {
    case 0: f = ldexp((double)(int64_t)t.Bits(7), (int)t.Range(-60, 2)); break;
    case 1: {  // near decimal halfway points and powers of ten
      int p = (int)t.Range(0, 17);
      f = (double)t.Range(-2000, 2000) / 2;
      for (int i = 0; i < p; i++) f = t.Coin() ? f / 10 : f * 10;
      if (t.Coin()) f = nextafter(f, t.Coin() ? INFINITY : -INFINITY);
      break;
    }
    default: break;
  }
  int p = (int)t.Range(0, 16);
  char* b = (char*)malloc(40);
  memset(b, '#', 40);
  int64_t n = GeoArrowPrintDouble(f, (uint32_t)p, b);
  VF_CHECK(n > 0 && n <= 40, "%lld characters for %s", (long long)n, Dbl(f).c_str());
  std::string s(b, (size_t)n);
  free(b);
  c.note("print " + Dbl(f) + strf(" precision %d: ", p) + s);
  std::string e = CheckPrinted(s, f, p);
  VF_CHECK(e.empty(), "%s", e.c_str());
  // printing keeps order with its own reading
  double back;
  int rc = GeoArrowFromChars(s.data(), s.data() + s.size(), &back);
  VF_CHECK(rc == 0, "own output %s rejected", Quote(s).c_str());
  char* end;
  VF_CHECK(SameBits(back, strtod(s.c_str(), &end)), "own output %s read as %s", Quote(s).c_str(),
           Dbl(back).c_str());
  if (f == f && std::isfinite(f) && f != 0) c.nontrivial(strf("%a/%d", f, p));
  c.label(std::isfinite(f) ? (fabs(f) > 1e17 ? "huge" : "fixed") : "non-finite");
}

static void Run(Ctx& c) {
  Live live;
  int n = 1 + (int)c.t.Below(4);
  for (int i = 0; i < n; i++) c.t.Coin() ? Parse(c) : Print(c);
  live.Check("numbers");
}

VF_PROP("C07", Run,
        "number texts (grammar, edge list, halfway points, mutations, junk) parsed from exactly "
        "sized buffers against a reference classification and correctly rounded value; doubles of "
        "every magnitude printed at precision 0..16 into 40 bytes and judged. Non-trivial: text of "
        "4+ characters, or a finite non-zero value printed")
