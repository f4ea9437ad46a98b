// What printed numbers and written WKT owe their source values
#pragma once
#include "util.h"

namespace vf {

inline std::string UpperStr(std::string s) {
  for (auto& c : s) c = (char)toupper((unsigned char)c);
  return s;
}

// "" when tok is an acceptable rendering of f at a precision (0..16)
inline std::string CheckPrinted(const std::string& tok, double f, int precision) {
  std::string u = UpperStr(tok);
  if (f != f) {
    if (u == "NAN" || u == "-NAN") return "";
    return "NaN printed as " + Quote(tok);
  }
  if (std::isinf(f)) {
    std::string want = f < 0 ? "-" : "";
    if (u == want + "INF" || u == want + "INFINITY") return "";
    return "infinity printed as " + Quote(tok);
  }
  char* end = nullptr;
  double back = strtod(tok.c_str(), &end);
  size_t i = 0;
  if (i < tok.size() && tok[i] == '-') i++;
  size_t int0 = i;
  while (i < tok.size() && isdigit((unsigned char)tok[i])) i++;
  size_t nint = i - int0, nfrac = 0;
  if (nint == 0) return "no integer digits in " + Quote(tok) + " for " + Dbl(f);
  if (i < tok.size() && tok[i] == '.') {
    i++;
    while (i < tok.size() && isdigit((unsigned char)tok[i])) i++, nfrac++;
    if (nfrac == 0) return "no digits after the decimal point in " + Quote(tok);
  }
  bool expo = false;
  if (i < tok.size() && (tok[i] == 'e' || tok[i] == 'E')) {
    expo = true;
    i++;
    if (i < tok.size() && (tok[i] == '+' || tok[i] == '-')) i++;
    size_t k = i;
    while (i < tok.size() && isdigit((unsigned char)tok[i])) i++;
    if (k == i) return "no exponent digits in " + Quote(tok);
  }
  if (i != tok.size()) return "not a number: " + Quote(tok) + " for " + Dbl(f);
  if (tok[0] == '-' && !(f < 0 || (f == 0 && std::signbit(f)))) return "sign of " + Quote(tok) + " for " + Dbl(f);
  if (f > 1e17 || f < -1e17) {
    if (!expo) return "no exponent in " + Quote(tok) + " for " + Dbl(f);
    if (back != f) return Quote(tok) + " does not read back as " + Dbl(f);
    return "";
  }
  if (expo) return "exponent used in " + Quote(tok) + " for " + Dbl(f);
  if (nint > 1 && tok[int0] == '0') return "leading zero in " + Quote(tok);
  if ((int)nfrac > precision)
    return strf("%zu decimals at precision %d in ", nfrac, precision) + Quote(tok);
  // error at most half a unit in the last printed place (plus what a shortest
  // decimal form of f may differ from f)
  long double shown = strtold(tok.c_str(), &end);
  long double err = fabsl(shown - (long double)f);
  long double half = 0.5L;
  for (int k = 0; k < precision; k++) half /= 10.0L;
  double ulp = fabs(nextafter(f, INFINITY) - f);
  if (err > half * (1 + 1e-9L) + (long double)ulp)
    return strf("%s is %.3Lg away from %.17g at precision %d", tok.c_str(), err, f, precision);
  if (precision == 16 && fabs(f) >= 1 && back != f)
    return Quote(tok) + " does not read back as " + Dbl(f);
  // a value a short decimal denotes keeps that decimal's value
  if (precision <= 15 && fabs(f) < 1e6) {
    std::string want = strf("%.*f", precision, f);
    if (strtod(want.c_str(), nullptr) == f && back != f)
      return Quote(tok) + " does not read back as " + Dbl(f) + strf(" at precision %d", precision);
  }
  return "";
}

// Tokenises WKT and compares it with a geometry; "" when it is that geometry
// with every ordinate printed acceptably.
struct WktText {
  const std::string& s;
  size_t i = 0;
  bool flat;
  int precision;
  std::string err;

  bool Fail(const std::string& m) {
    if (err.empty()) err = m + strf(" (at byte %zu)", i);
    return false;
  }
  std::string Tok() {
    while (i < s.size() && strchr(" \t\r\n", s[i]) && s[i]) i++;
    std::string w;
    if (i >= s.size()) return w;
    if (strchr("(),", s[i]) && s[i]) return std::string(1, s[i++]);
    while (i < s.size() && !(strchr(" \t\r\n(),", s[i]) && s[i])) w += s[i++];
    return w;
  }
  bool Want(const std::string& w) {
    std::string g = Tok();
    if (g != w) return Fail("expected " + Quote(w) + " but found " + Quote(g));
    return true;
  }
  bool Coord(const C4& c, int nd) {
    for (int j = 0; j < nd; j++) {
      std::string e = CheckPrinted(Tok(), c[j], precision);
      if (!e.empty()) return Fail(e);
    }
    return true;
  }
  bool Seq(const std::vector<C4>& v, int nd) {
    if (v.empty()) return Want("EMPTY");
    for (size_t k = 0; k < v.size(); k++)
      if (!Want(k ? "," : "(") || !Coord(v[k], nd)) return false;
    return Want(")");
  }
  bool Body(const G& g) {
    int nd = NDim(g.dims);
    if (g.type == PT || g.type == LS) return Seq(g.coords, nd);
    size_t n = g.type == PG ? g.rings.size() : g.kids.size();
    if (n == 0) return Want("EMPTY");
    for (size_t k = 0; k < n; k++) {
      if (!Want(k ? "," : "(")) return false;
      if (g.type == PG) {
        if (!Seq(g.rings[k], nd)) return false;
      } else if (g.type == GC) {
        if (!Tagged(g.kids[k])) return false;
      } else if (g.type == MPT && flat && !g.kids[k].coords.empty()) {
        if (!Coord(g.kids[k].coords[0], nd)) return false;
      } else if (!Body(g.kids[k])) {
        return false;
      }
    }
    return Want(")");
  }
  bool Tagged(const G& g) {
    if (!Want(TypeName(g.type))) return false;
    if (g.dims != 1 && !Want(g.dims == 2 ? "Z" : g.dims == 3 ? "M" : "ZM")) return false;
    return Body(g);
  }
};

inline std::string CheckWktText(const std::string& s, const G& g, bool flat, int precision) {
  WktText t{s, 0, flat, precision};
  if (t.Tagged(g)) {
    std::string rest = t.Tok();
    if (!rest.empty()) t.Fail("trailing " + Quote(rest));
  }
  return t.err;
}

struct WktWriter {
  struct GeoArrowWKTWriter w;
  WktWriter() { VF_CHECK(GeoArrowWKTWriterInit(&w) == 0, "init"); }
  ~WktWriter() { GeoArrowWKTWriterReset(&w); }
};
struct WkbWriter {
  struct GeoArrowWKBWriter w;
  WkbWriter() { VF_CHECK(GeoArrowWKBWriterInit(&w) == 0, "init"); }
  ~WkbWriter() { GeoArrowWKBWriterReset(&w); }
};

}  // namespace vf
