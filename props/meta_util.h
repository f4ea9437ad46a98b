// JSON and schema metadata, independent of the library
#pragma once
#include "core.h"
#include "geoarrow/geoarrow.h"

namespace vf {

struct Json {
  enum Kind { NUL, STR, OBJ, ARR, NUM, BOOL } kind = NUL;
  std::string s;    // STR: value; NUM, BOOL: text
  std::string raw;  // source text (parsed values)
  std::vector<Json> items;
  struct Member;
  std::vector<Member> members;
  Json();
  Json(const Json&);
  Json& operator=(const Json&);
  ~Json();
  static Json Null() { return Json(); }
  static Json Str(const std::string& v) {
    Json j;
    j.kind = STR, j.s = v;
    return j;
  }
};

struct Json::Member {
  std::string first;
  Json second;
};
inline Json::Json() {}
inline Json::Json(const Json&) = default;
inline Json& Json::operator=(const Json&) = default;
inline Json::~Json() {}

inline void PutUtf8(std::string* s, uint32_t c) {
  if (c < 0x80) *s += (char)c;
  else if (c < 0x800) *s += (char)(0xc0 | c >> 6), *s += (char)(0x80 | (c & 63));
  else if (c < 0x10000)
    *s += (char)(0xe0 | c >> 12), *s += (char)(0x80 | (c >> 6 & 63)), *s += (char)(0x80 | (c & 63));
  else
    *s += (char)(0xf0 | c >> 18), *s += (char)(0x80 | (c >> 12 & 63)), *s += (char)(0x80 | (c >> 6 & 63)),
        *s += (char)(0x80 | (c & 63));
}

// Text of about n characters, with everything JSON makes special
inline std::string GenText(Tape& t, int n) {
  static const char* words[] = {"EPSG:4326", "OGC:CRS84", "GEOGCRS[\"WGS 84\"]", "a", "crs", "edges", "\\",
                                "\"", "{", "}", "[", "]", ",", ":", "\n", "\t", "/", "null", "\\n",
                                "\\u0041", "\\\"", "\x01", "\x1f", "\b", "\f", "\r"};
  static const uint32_t cps[] = {0xe9, 0x20ac, 0x1f30d, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0};
  std::string s;
  int k = t.Small(n / 3 + 1);
  for (int i = 0; i < k; i++) {
    int r = (int)t.Below(10);
    if (r < 5) s += words[t.Below(sizeof(words) / sizeof(*words))];
    else if (r < 8) s += (char)(32 + t.Below(95));
    else PutUtf8(&s, cps[t.Below(sizeof(cps) / sizeof(*cps))]);
  }
  // rarely a long one, around a power of two
  if (n >= 30 && t.Chance(1, 60)) {
    size_t want = ((size_t)64 << t.Below(11)) - 3 + t.Below(7);
    if (want > s.size()) s.insert(t.Coin() ? 0 : s.size(), want - s.size(), 'x');
  }
  return s;
}

inline std::string Ws(Tape& t) {
  if (!t.Chance(1, 5)) return "";
  std::string s;
  int n = 1 + t.Small(3);
  for (int i = 0; i < n; i++) s += " \t\r\n"[t.Below(4)];
  return s;
}

inline Json GenJson(Tape& t, int depth, int kind = -1) {
  Json j;
  if (kind < 0) {
    int r = (int)t.Below(depth > 0 ? 10 : 6);
    kind = r < 2 ? Json::STR : r == 2 ? Json::NUL : r < 5 ? Json::NUM : r == 5 ? Json::BOOL : r < 8 ? Json::OBJ : Json::ARR;
  }
  j.kind = (Json::Kind)kind;
  static const char* nums[] = {"0", "-1", "6378137", "298.257223563", "1e-7", "-0.5E+10"};
  switch (kind) {
    case Json::STR: j.s = GenText(t, 15); break;
    case Json::NUM: j.s = nums[t.Below(6)]; break;
    case Json::BOOL: j.s = t.Coin() ? "true" : "false"; break;
    case Json::ARR:
      for (int i = t.Small(4); i > 0; i--) j.items.push_back(GenJson(t, depth - 1));
      break;
    case Json::OBJ:
      for (int i = t.Small(4); i > 0; i--) {
        std::string k = GenText(t, 8);
        j.members.push_back({k, GenJson(t, depth - 1)});
      }
      break;
    default: break;
  }
  return j;
}

// JSON text for a value.  plain: strings without optional escapes
inline std::string Spell(const Json& j, Tape& t, bool plain) {
  switch (j.kind) {
    case Json::NUL: return "null";
    case Json::NUM:
    case Json::BOOL: return j.s;
    case Json::ARR: {
      std::string s = "[" + Ws(t);
      for (size_t i = 0; i < j.items.size(); i++) s += (i ? Ws(t) + "," + Ws(t) : "") + Spell(j.items[i], t, false);
      return s + Ws(t) + "]";
    }
    case Json::OBJ: {
      std::string s = "{" + Ws(t);
      for (size_t i = 0; i < j.members.size(); i++) {
        if (i) s += Ws(t) + "," + Ws(t);
        s += Spell(Json::Str(j.members[i].first), t, false) + Ws(t) + ":" + Ws(t);
        s += Spell(j.members[i].second, t, false);
      }
      return s + Ws(t) + "}";
    }
    default: break;
  }
  std::string out = "\"";
  const std::string& s = j.s;
  for (size_t i = 0; i < s.size();) {
    unsigned char c = (unsigned char)s[i];
    int len = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
    uint32_t cp = c;
    if (len == 2) cp = (c & 31u) << 6 | (s[i + 1] & 63u);
    if (len == 3) cp = (c & 15u) << 12 | (s[i + 1] & 63u) << 6 | (s[i + 2] & 63u);
    if (len == 4)
      cp = (c & 7u) << 18 | (s[i + 1] & 63u) << 12 | (s[i + 2] & 63u) << 6 | (s[i + 3] & 63u);
    bool must = cp < 0x20 || cp == '"' || cp == '\\';
    const char* names = "\b\f\n\r\t\"\\/";
    const char* letters = "bfnrt\"\\/";
    const char* at = cp && cp < 0x80 ? strchr(names, (int)cp) : nullptr;
    bool esc = must || (!plain && t.Chance(1, 10));
    if (!esc) {
      out += s.substr(i, (size_t)len);
    } else if (at && (cp == '/' || t.Coin())) {
      out += '\\';
      out += letters[at - names];
    } else {
      bool upper = t.Coin();
      auto u = [&](uint32_t x) { out += strf(upper ? "\\u%04X" : "\\u%04x", x); };
      if (cp >= 0x10000) {
        u(0xd800 + ((cp - 0x10000) >> 10));
        u(0xdc00 + ((cp - 0x10000) & 0x3ff));
      } else {
        u(cp);
      }
    }
    i += (size_t)len;
  }
  return out + "\"";
}

// Strict JSON
struct JsonParser {
  const std::string& s;
  size_t p = 0;
  std::string err;
  explicit JsonParser(const std::string& str) : s(str) {}
  void ws() {
    while (p < s.size() && strchr(" \t\r\n", s[p]) && s[p]) p++;
  }
  bool bad(const char* m) {
    if (err.empty()) err = strf("%s at %zu", m, p);
    return false;
  }
  bool str(std::string* out) {
    if (p >= s.size() || s[p] != '"') return bad("expected a string");
    p++;
    while (true) {
      if (p >= s.size()) return bad("unterminated string");
      unsigned char c = (unsigned char)s[p++];
      if (c == '"') return true;
      if (c < 0x20) return bad("control character");
      if (c != '\\') {
        *out += (char)c;
        continue;
      }
      if (p >= s.size()) return bad("escape");
      char e = s[p++];
      const char* letters = "bfnrt\"\\/";
      const char* at = e ? strchr(letters, e) : nullptr;
      if (at) {
        *out += "\b\f\n\r\t\"\\/"[at - letters];
      } else if (e == 'u') {
        auto hex = [&](uint32_t* v) {
          *v = 0;
          for (int i = 0; i < 4; i++) {
            if (p >= s.size() || !isxdigit((unsigned char)s[p])) return false;
            *v = *v * 16 + (uint32_t)(isdigit((unsigned char)s[p]) ? s[p] - '0' : (s[p] | 32) - 'a' + 10);
            p++;
          }
          return true;
        };
        uint32_t v, lo;
        if (!hex(&v)) return bad("\\u");
        if (v >= 0xd800 && v < 0xdc00) {
          if (p + 2 > s.size() || s[p] != '\\' || s[p + 1] != 'u') return bad("surrogate");
          p += 2;
          if (!hex(&lo) || lo < 0xdc00 || lo > 0xdfff) return bad("surrogate");
          v = 0x10000 + ((v - 0xd800) << 10) + (lo - 0xdc00);
        }
        PutUtf8(out, v);
      } else {
        return bad("escape");
      }
    }
  }
  bool value(Json* j, int depth = 0) {
    ws();
    size_t start = p;
    if (p >= s.size() || depth > 300) return bad("value");
    char c = s[p];
    bool ok = true;
    if (c == '"') {
      j->kind = Json::STR;
      ok = str(&j->s);
    } else if (c == '{' || c == '[') {
      j->kind = c == '{' ? Json::OBJ : Json::ARR;
      char end = c == '{' ? '}' : ']';
      p++;
      ws();
      if (p < s.size() && s[p] == end) {
        p++;
      } else {
        while (true) {
          ws();
          Json v;
          std::string k;
          if (c == '{') {
            if (!str(&k)) return false;
            ws();
            if (p >= s.size() || s[p++] != ':') return bad("expected :");
          }
          if (!value(&v, depth + 1)) return false;
          if (c == '{') j->members.push_back({k, v});
          else j->items.push_back(v);
          ws();
          if (p >= s.size()) return bad("unterminated");
          if (s[p] == ',') {
            p++;
            continue;
          }
          if (s[p] != end) return bad("expected a comma or the end");
          p++;
          break;
        }
      }
    } else if (!s.compare(p, 4, "null")) {
      p += 4;
    } else if (!s.compare(p, 4, "true")) {
      j->kind = Json::BOOL, p += 4;
    } else if (!s.compare(p, 5, "false")) {
      j->kind = Json::BOOL, p += 5;
    } else {
      j->kind = Json::NUM;
      size_t q = p;
      while (p < s.size() && s[p] && strchr("+-.eE0123456789", s[p])) p++;
      ok = p > q || bad("value");
    }
    j->raw = s.substr(start, p - start);
    return ok;
  }
};
inline bool ParseJson(const std::string& s, Json* out, std::string* why) {
  JsonParser p(s);
  bool ok = p.value(out);
  p.ws();
  if (ok && p.p != s.size()) ok = p.bad("trailing text");
  *why = p.err;
  return ok;
}

// ---- ArrowSchema::metadata
using KV = std::vector<std::pair<std::string, std::string>>;
inline KV ReadSchemaMetadata(const char* m) {
  KV out;
  if (!m) return out;
  int32_t n, len;
  memcpy(&n, m, 4), m += 4;
  for (int32_t i = 0; i < n; i++) {
    std::string kv[2];
    for (auto& x : kv) {
      memcpy(&len, m, 4), m += 4;
      x.assign(m, (size_t)len), m += len;
    }
    out.push_back({kv[0], kv[1]});
  }
  return out;
}
inline std::string PackMetadata(const KV& kv) {
  std::string s;
  auto put = [&](int32_t v) { s.append((const char*)&v, 4); };
  put((int32_t)kv.size());
  for (auto& x : kv) {
    put((int32_t)x.first.size()), s += x.first;
    put((int32_t)x.second.size()), s += x.second;
  }
  return s;
}

}  // namespace vf

extern "C" {
#include "nanoarrow/nanoarrow.h"
}

namespace vf {
inline void SetSchemaMetadata(struct ArrowSchema* s, const KV& kv) {
  std::string m = PackMetadata(kv);
  VF_CHECK(ArrowSchemaSetMetadata(s, m.data()) == 0, "ArrowSchemaSetMetadata");
}
}  // namespace vf
