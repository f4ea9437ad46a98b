// C15: extension metadata (JSON) reading and writing
#include "meta_util.h"
#include "util.h"
using namespace vf;

static const char* kEdges[] = {"planar", "spherical", "vincenty", "thomas", "andoyer", "karney"};
static const char* kCrsTypes[] = {"none", "unknown", "projjson", "wkt2:2019", "authority_code", "srid"};

static std::string Unescape(const std::string& crs, Tape& t) {
  Exact in(crs);
  int64_t n = GeoArrowUnescapeCrs(in.Str(), nullptr, 0);
  VF_CHECK(n >= 0 && n <= (int64_t)crs.size() * 2, "unescaped size %lld", (long long)n);
  int64_t cap = t.Chance(1, 3) ? (int64_t)t.Below((uint64_t)n + 1) : n + (int64_t)t.Below(3);
  std::string full((size_t)n, 0);
  {
    std::unique_ptr<char[]> b(new char[n + 1]);
    memset(b.get(), 'Z', n + 1);
    VF_CHECK(GeoArrowUnescapeCrs(in.Str(), b.get(), n + 1) == n && b[n] == 0, "unescape to n + 1");
    full.assign(b.get(), n);
  }
  Exact out(std::string((size_t)cap, 'Z'));
  VF_CHECK(GeoArrowUnescapeCrs(in.Str(), (char*)out.p, cap) == n, "unescape to a smaller buffer");
  VF_CHECK(!memcmp(out.p, full.data(), (size_t)std::min(cap, n)), "partial unescape differs");
  if (cap > n) VF_CHECK(out.p[n] == 0, "no terminator");
  return full;
}

static void CheckCrsInside(const struct GeoArrowMetadataView& m, const Exact& e) {
  if (m.crs.size_bytes == 0) return;
  VF_CHECK((const uint8_t*)m.crs.data >= e.p &&
               (const uint8_t*)m.crs.data + m.crs.size_bytes <= e.p + e.n && m.crs.size_bytes > 0,
           "crs is not a part of the metadata");
}

static int Parse(const Exact& e, struct GeoArrowMetadataView* m) {
  struct GeoArrowError err;
  memset(&err, 'x', sizeof(err));
  err.message[0] = 0;
  memset(m, 0xee, sizeof(*m));
  int rc = GeoArrowMetadataViewInit(m, e.Str(), &err);
  if (rc != 0) {
    VF_CHECK(rc == EINVAL, "code %d", rc);
    VF_CHECK(err.message[0], "no message");
    for (size_t i = 0; i < sizeof *m; i++) VF_CHECK(((const uint8_t*)m)[i] == 0xee, "the view was changed by a call that failed");
    VF_CHECK(memchr(err.message, 0, sizeof(err.message)), "unterminated message");
  } else {
    CheckCrsInside(*m, e);
    VF_CHECK(m->edge_type >= 0 && m->edge_type <= 5 && m->crs_type >= 0 && m->crs_type <= 5,
             "edge type %d, crs type %d", m->edge_type, m->crs_type);
  }
  return rc;
}

// What a metadata document says
struct Doc {
  std::string text;
  int expect = 0;  // 0 accept, 1 reject, 2 unspecified
  int edges = 0, crs_type = 0;
  std::string crs;  // as in the text
  bool crs_is_string = false;
  std::string crs_value;
  bool interesting = false;
  std::vector<size_t> marks;  // of the opening brace and the colons of the outer object
};

static Doc GenDoc(Tape& t) {
  Doc d;
  std::vector<std::pair<std::string, Json>> mem;
  int ct = -1;
  bool has_crs = false;
  auto worse = [&](int e) {
    if (e == 1 && d.expect != 2) d.expect = 1;
    if (e == 2) d.expect = 2;
  };
  if (t.Chance(2, 3)) {
    Json v;
    int k = (int)t.Below(12);
    if (k < 8) {
      d.edges = (int)t.Below(6);
      v = Json::Str(kEdges[d.edges]);
    } else if (k == 8) {
      v = Json::Null();
    } else if (k == 9) {
      v = Json::Str(GenText(t, 12));
      for (int i = 0; i < 6; i++)
        if (v.s == kEdges[i]) d.edges = i;
      if (v.s != kEdges[d.edges]) worse(1);
    } else {
      v = GenJson(t, 2);
      if (v.kind == Json::STR) worse(v.s == kEdges[0] ? 2 : 1);
      else if (v.kind != Json::NUL) worse(1);
    }
    mem.push_back({"edges", v});
  }
  Json crs;
  if (t.Chance(3, 4)) {
    int k = (int)t.Below(12);
    if (k < 5) crs = Json::Str(GenText(t, 40));
    else if (k < 9) crs = GenJson(t, 4, Json::OBJ);
    else if (k == 9) crs = Json::Null();
    else crs = GenJson(t, 3);
    has_crs = crs.kind == Json::STR || crs.kind == Json::OBJ;
    if (!has_crs && crs.kind != Json::NUL) worse(1);
    mem.push_back({"crs", crs});
  }
  if (t.Chance(2, 3)) {
    Json v;
    int k = (int)t.Below(12);
    if (k < 7) {
      ct = 2 + (int)t.Below(4);
      v = Json::Str(kCrsTypes[ct]);
    } else if (k < 10) {
      // anything else, often of the length of a known one
      v = Json::Str(GenText(t, 16));
      size_t lens[] = {8, 9, 14, 4};
      if (t.Coin()) v.s = std::string(lens[t.Below(4)], (char)('a' + t.Below(26)));
      ct = 1;
      for (int i = 2; i < 6; i++)
        if (v.s == kCrsTypes[i]) ct = i;
    } else {
      v = GenJson(t, 2);
      if (v.kind == Json::STR) ct = 1;
      else if (v.kind == Json::NUL) worse(2);
      else worse(1);
    }
    mem.push_back({"crs_type", v});
  }
  int extra = t.Small(3);
  for (int i = 0; i < extra; i++) {
    std::string key = GenText(t, 12);
    bool dup = key == "edges" || key == "crs" || key == "crs_type";
    for (auto& m : mem) dup |= m.first == key;
    if (dup) continue;
    Json v = GenJson(t, 4);
    if (v.kind == Json::NUM || v.kind == Json::BOOL) worse(2);
    mem.push_back({key, v});
  }
  for (size_t i = mem.size(); i > 1; i--) std::swap(mem[i - 1], mem[t.Below(i)]);
  if (d.expect == 0) {
    if (has_crs) d.crs_type = ct >= 0 ? ct : 1;
    d.interesting = mem.size() > 1 && has_crs;
  }
  // spell it
  d.text = Ws(t);
  d.marks.push_back(d.text.size());
  d.text += "{" + Ws(t);
  bool first = true;
  for (auto& m : mem) {
    if (!first) d.text += Ws(t) + "," + Ws(t);
    first = false;
    bool known = m.first == "edges" || m.first == "crs" || m.first == "crs_type";
    d.text += Spell(Json::Str(m.first), t, known) + Ws(t);
    d.marks.push_back(d.text.size());
    d.text += ":" + Ws(t);
    bool plain = m.first == "edges" || m.first == "crs_type";
    std::string v = Spell(m.second, t, plain);
    if (m.first == "crs" && has_crs) {
      d.crs = v;
      d.crs_is_string = m.second.kind == Json::STR;
      d.crs_value = d.crs_is_string ? m.second.s : v;
    }
    d.text += v;
  }
  d.text += Ws(t) + "}";
  return d;
}

static void Reading(Ctx& c) {
  Tape& t = c.t;
  Doc d = GenDoc(t);
  int op = (int)t.Below(7);
  struct GeoArrowMetadataView m;
  if (op < 3) {
    d.text += Ws(t);
    c.note(Quote(d.text));
    Exact e(d.text);
    int rc = Parse(e, &m);
    if (d.expect == 0) VF_CHECK(rc == 0, "valid metadata was rejected");
    if (d.expect == 1) VF_CHECK(rc != 0, "metadata with a value of the wrong type was accepted");
    if (rc == 0 && d.expect == 0) {
      VF_CHECK((int)m.edge_type == d.edges, "edges %d, not %d", m.edge_type, d.edges);
      VF_CHECK((int)m.crs_type == d.crs_type, "crs_type %d, not %d", m.crs_type, d.crs_type);
      std::string got(m.crs.size_bytes ? m.crs.data : "", (size_t)m.crs.size_bytes);
      VF_CHECK(got == d.crs, "crs %s, not %s", Quote(got).c_str(), Quote(d.crs).c_str());
      {
        std::string u = Unescape(got, t);
        VF_CHECK(u == d.crs_value, "unescaped crs %s, not %s", Quote(u).c_str(),
                 Quote(d.crs_value).c_str());
      }
      // and written again it says the same
      std::string out((size_t)GeoArrowMetadataSerialize(&m, nullptr, 0), 0);
      Exact w(out);
      GeoArrowMetadataSerialize(&m, (char*)w.p, (int64_t)w.n);
      struct GeoArrowMetadataView m2;
      VF_CHECK(Parse(w, &m2) == 0, "rewritten metadata was rejected: %s", Quote(w.p, w.n).c_str());
      VF_CHECK(m2.edge_type == m.edge_type && m2.crs_type == m.crs_type &&
                   m2.crs.size_bytes == m.crs.size_bytes &&
                   !memcmp(m2.crs.size_bytes ? m2.crs.data : "", m.crs.size_bytes ? m.crs.data : "",
                           (size_t)m.crs.size_bytes),
               "rewritten metadata differs: %s", Quote(w.p, w.n).c_str());
    }
    c.label(d.expect == 0 ? "valid" : d.expect == 1 ? "value of a wrong type" : "unspecified");
    if (d.interesting) c.nontrivial("r" + d.text);
  } else if (op == 3) {
    // no proper prefix is a document
    size_t n = t.Below(d.text.size());
    std::string cut = d.text.substr(0, n);
    bool blank = cut.find_first_not_of(" \t\r\n") == std::string::npos;
    c.note("prefix " + Quote(cut));
    Exact e(cut);
    int rc = Parse(e, &m);
    if (n == 0) VF_CHECK(rc == 0 && m.edge_type == 0 && m.crs_type == 0 && m.crs.size_bytes == 0, "empty");
    else if (!blank) VF_CHECK(rc != 0, "a truncated document was accepted");
    c.label("truncated");
    if (n > 3) c.nontrivial("t" + cut);
  } else if (op == 4) {
    // nor is a document followed by something
    static const char* junk[] = {"x", "{}", "}", ",", "null", "]", "\"\""};
    std::string s = d.text + Ws(t) + junk[t.Below(7)];
    if (t.Chance(1, 8)) s = d.text + std::string(1, '\0');
    c.note("trailing " + Quote(s));
    Exact e(s);
    VF_CHECK(Parse(e, &m) != 0, "a document followed by other text was accepted");
    c.label("trailing text");
    c.nontrivial("j" + s);
  } else if (op == 5) {
    // nor one whose brace or one of whose colons is missing
    std::string s = d.text;
    s.erase(d.marks[t.Below(d.marks.size())], 1);
    c.note("without " + Quote(s));
    Exact e(s);
    VF_CHECK(Parse(e, &m) != 0, "a document without its brace or a colon was accepted");
    c.label("punctuation missing");
    c.nontrivial("p" + s);
  } else {
    // arbitrary damage: bounded, terminating, never outside
    std::string s = d.text;
    if (t.Chance(1, 40)) {
      // deep nesting
      std::string deep;
      int depth = (int)t.Range(1, 200000);
      int how = (int)t.Below(3);
      for (int i = 0; i < depth; i++) deep += how == 0 || (how == 1 && t.Coin()) ? "[" : "{\"a\":";
      s = "{\"crs\":" + deep;
      c.label("deep");
    } else {
      int edits = 1 + t.Small(6);
      static const char chars[] = "{}[]\",:\\\0nul \t1tf\x80";
      for (int i = 0; i < edits && !s.empty(); i++) {
        size_t p = t.Below(s.size());
        switch (t.Below(4)) {
          case 0: s[p] = chars[t.Below(sizeof(chars) - 1)]; break;
          case 1: s.erase(p, 1 + t.Below(4)); break;
          case 2: {
            static const char* halves[] = {"\\ud83c", "\\udf0d", "\\uD83C\\uDF0D", "\\ud83c\\u0041", "\\u12"};
            if (t.Chance(1, 4)) s.insert(p, halves[t.Below(5)]);
            else s.insert(p, 1, chars[t.Below(sizeof(chars) - 1)]);
            break;
          }
          default: s.insert(p, s.substr(t.Below(s.size()), t.Below(12)));
        }
      }
      c.label("damaged");
    }
    c.note("damaged " + Quote(s));
    Exact e(s);
    int rc = Parse(e, &m);
    if (rc == 0) {
      std::string got(m.crs.data, (size_t)m.crs.size_bytes);
      Unescape(got, t);
    }
    c.nontrivial("d" + s);
  }
}

static struct GeoArrowStringView SV(const std::string& s) {
  struct GeoArrowStringView v;
  v.data = s.data(), v.size_bytes = (int64_t)s.size();
  return v;
}

// A view with any combination of members
struct RandomView {
  struct GeoArrowMetadataView m;
  std::unique_ptr<Exact> store;
  std::string value;  // what the crs means
  bool has = false;
  explicit RandomView(Tape& t) {
    memset(&m, 0, sizeof(m));
    m.edge_type = (enum GeoArrowEdgeType)t.Below(6);
    m.crs_type = (enum GeoArrowCrsType)t.Below(6);
    std::string crs;
    switch (t.Below(5)) {
      case 0: break;
      case 1: crs = Spell(GenJson(t, 4, Json::OBJ), t, false), value = crs; break;
      case 2: {
        value = GenText(t, 40);
        crs = Spell(Json::Str(value), t, false);
        break;
      }
      case 3:
        if (t.Chance(1, 4)) {
          GeoArrowMetadataSetLonLat(&m);
          crs.assign(m.crs.data, (size_t)m.crs.size_bytes);
          value = crs;
          VF_CHECK(m.crs_type == GEOARROW_CRS_TYPE_PROJJSON, "SetLonLat crs type");
          break;
        }
        // fall through
      default:
        crs = GenText(t, 60);
        if (!crs.empty() && (crs[0] == '{' || crs[0] == '"')) crs = "+" + crs;
        value = crs;
    }
    has = m.crs_type != GEOARROW_CRS_TYPE_NONE;
    store.reset(new Exact(crs));
    m.crs = store->Str();
    if (crs.empty() && t.Coin()) m.crs.data = nullptr;
  }
};

// out must be the document for the view
static void CheckDoc(const std::string& out, const RandomView& r, Tape& t) {
  Json j;
  std::string why;
  VF_CHECK(ParseJson(out, &j, &why), "not JSON: %s: %s", why.c_str(), Quote(out).c_str());
  VF_CHECK(j.kind == Json::OBJ, "not an object: %s", Quote(out).c_str());
  size_t n = 0;
  for (auto& mbr : j.members) {
    n++;
    if (mbr.first == "edges") {
      VF_CHECK(mbr.second.kind == Json::STR && mbr.second.s == kEdges[r.m.edge_type], "edges: %s",
               Quote(out).c_str());
    } else if (mbr.first == "crs_type") {
      VF_CHECK(mbr.second.kind == Json::STR && r.m.crs_type >= 2 && mbr.second.s == kCrsTypes[r.m.crs_type],
               "crs_type: %s", Quote(out).c_str());
    } else {
      VF_CHECK(mbr.first == "crs" && r.has, "member %s: %s", Quote(mbr.first).c_str(), Quote(out).c_str());
      if (mbr.second.kind == Json::STR) {
        VF_CHECK(mbr.second.s == r.value, "crs value %s, not %s", Quote(mbr.second.s).c_str(),
                 Quote(r.value).c_str());
      } else {
        VF_CHECK(mbr.second.raw == r.value, "crs object %s, not %s", Quote(mbr.second.raw).c_str(),
                 Quote(r.value).c_str());
      }
    }
  }
  size_t want = (r.m.edge_type != 0) + r.has + (r.m.crs_type >= 2);
  VF_CHECK(n == want, "%zu members, not %zu: %s", n, want, Quote(out).c_str());
  Exact e(out);
  struct GeoArrowMetadataView m;
  VF_CHECK(Parse(e, &m) == 0, "its own metadata was rejected: %s", Quote(out).c_str());
  VF_CHECK(m.edge_type == r.m.edge_type && m.crs_type == r.m.crs_type, "round trip: edges %d, crs_type %d",
           m.edge_type, m.crs_type);
  if (r.has) {
    std::string u = Unescape(std::string(m.crs.data, (size_t)m.crs.size_bytes), t);
    VF_CHECK(u == r.value, "round trip: crs %s, not %s", Quote(u).c_str(), Quote(r.value).c_str());
  } else {
    VF_CHECK(m.crs.size_bytes == 0, "round trip: a crs out of nothing");
    VF_CHECK(Unescape("", t).empty(), "unescaped nothing");
  }
}

static void Writing(Ctx& c) {
  Tape& t = c.t;
  RandomView r(t);
  c.note(strf("edges %d crs_type %d crs ", r.m.edge_type, r.m.crs_type) + Quote(r.store->p, r.store->n));
  int64_t size = GeoArrowMetadataSerialize(&r.m, nullptr, 0);
  int64_t cap = t.Chance(1, 3) ? (int64_t)t.Below((uint64_t)size + 1) : size + (int64_t)t.Below(3);
  char* p = (char*)malloc((size_t)cap + 1);
  memset(p, 'Z', (size_t)cap);
  VF_CHECK(GeoArrowMetadataSerialize(&r.m, p, cap) == size, "size changes with the space");
  std::string out(p, (size_t)cap);
  free(p);
  if (cap > size) VF_CHECK(out[(size_t)size] == 0, "no terminator");
  if (cap >= size) CheckDoc(out.substr(0, (size_t)size), r, t);
  c.label(cap < size ? "write to too little space" : "write");
  if (r.has && r.store->n > 2) c.nontrivial(strf("w%d%d", r.m.edge_type, r.m.crs_type) + r.value);
}

static void Schemas(Ctx& c) {
  Tape& t = c.t;
  static const int types[] = {1, 2, 1005, 10003, 3006, GEOARROW_TYPE_WKB, GEOARROW_TYPE_LARGE_WKT,
                              GEOARROW_TYPE_WKT_VIEW, GEOARROW_TYPE_BOX, GEOARROW_TYPE_BOX_ZM};
  SchemaHolder a, b;
  enum GeoArrowType ta = (enum GeoArrowType)types[t.Below(10)], tb = (enum GeoArrowType)types[t.Below(10)];
  VF_CHECK(GeoArrowSchemaInitExtension(&a.s, ta) == 0, "init %d", ta);
  VF_CHECK(GeoArrowSchemaInitExtension(&b.s, tb) == 0, "init %d", tb);
  std::vector<std::pair<std::string, std::string>> extra;
  auto add_extra = [&](struct ArrowSchema* s) {
    auto md = ReadSchemaMetadata(s->metadata);
    int n = t.Small(3);
    for (int i = 0; i < n; i++) {
      extra.push_back({"k" + std::to_string(i) + GenText(t, 5), GenText(t, 10)});
      md.insert(md.begin() + (long)t.Below(md.size() + 1), extra.back());
    }
    SetSchemaMetadata(s, md);
  };
  add_extra(&a.s);
  auto before = ReadSchemaMetadata(a.s.metadata);
  auto check = [&](const struct ArrowSchema* s, const std::vector<std::pair<std::string, std::string>>& old,
                   const std::string& what, std::string* doc) {
    auto now = ReadSchemaMetadata(s->metadata);
    doc->clear();
    int seen = 0;
    for (auto& kv : now)
      if (kv.first == "ARROW:extension:metadata") seen++, *doc = kv.second;
    VF_CHECK(seen == 1, "%s: %d metadata keys", what.c_str(), seen);
    std::map<std::string, std::string> x, y;
    for (auto& kv : now)
      if (kv.first != "ARROW:extension:metadata") x[kv.first] = kv.second;
    for (auto& kv : old)
      if (kv.first != "ARROW:extension:metadata") y[kv.first] = kv.second;
    VF_CHECK(x == y, "%s changed other metadata", what.c_str());
  };
  int rounds = 1 + t.Small(3);
  std::string doc;
  for (int i = 0; i < rounds; i++) {
    if (i > 0 && t.Coin()) {
      // edit what the schema says now: the view points into the schema
      struct GeoArrowSchemaView sv;
      struct GeoArrowMetadataView m;
      VF_CHECK(GeoArrowSchemaViewInit(&sv, &a.s, nullptr) == 0, "schema view");
      VF_CHECK(GeoArrowMetadataViewInit(&m, sv.extension_metadata, nullptr) == 0, "metadata");
      std::string crs(m.crs.size_bytes ? m.crs.data : "", (size_t)m.crs.size_bytes);
      int ct = m.crs_type;
      m.edge_type = (enum GeoArrowEdgeType)t.Below(6);
      int et = m.edge_type;
      VF_CHECK(GeoArrowSchemaSetMetadata(&a.s, &m) == 0, "set metadata");
      VF_CHECK(GeoArrowSchemaViewInit(&sv, &a.s, nullptr) == 0, "schema view");
      VF_CHECK(GeoArrowMetadataViewInit(&m, sv.extension_metadata, nullptr) == 0, "metadata");
      VF_CHECK(m.edge_type == et && m.crs_type == ct &&
                   crs == std::string(m.crs.size_bytes ? m.crs.data : "", (size_t)m.crs.size_bytes),
               "editing the edges in place lost something");
      check(&a.s, before, "in place", &doc);
      c.label("edit in place");
      continue;
    }
    RandomView r(t);
    c.note(strf("set edges %d crs_type %d crs ", r.m.edge_type, r.m.crs_type) + Quote(r.store->p, r.store->n));
    VF_CHECK(GeoArrowSchemaSetMetadata(&a.s, &r.m) == 0, "set metadata");
    check(&a.s, before, "SetMetadata", &doc);
    CheckDoc(doc, r, t);
    if (r.has) c.nontrivial(strf("s%d%d%d", ta, r.m.edge_type, r.m.crs_type) + r.value);
  }
  extra.clear();
  if (t.Coin()) add_extra(&b.s);
  before = ReadSchemaMetadata(b.s.metadata);
  VF_CHECK(GeoArrowSchemaSetMetadataFrom(&b.s, &a.s) == 0, "SetMetadataFrom");
  std::string doc2;
  check(&b.s, before, "SetMetadataFrom", &doc2);
  VF_CHECK(doc2 == doc, "SetMetadataFrom copied %s, not %s", Quote(doc2).c_str(), Quote(doc).c_str());
  struct GeoArrowSchemaView sv;
  VF_CHECK(GeoArrowSchemaViewInit(&sv, &b.s, nullptr) == 0 && sv.type == tb, "type after SetMetadataFrom");
  c.label("schemas");
  (void)SV;
}

static void Run(Ctx& c) {
  Live live;
  switch (c.t.Below(4)) {
    case 0:
    case 1: Reading(c); break;
    case 2: Writing(c); break;
    default: Schemas(c); break;
  }
  live.Check("metadata");
}

VF_PROP("C15", Run,
        "random JSON documents (members in any order and spelling, unknown members, values of wrong types), "
        "their prefixes, extensions and damaged copies read back; random metadata written and judged by an "
        "independent JSON parser, alone and inside schemas with other metadata. Non-trivial: a document "
        "with a CRS or one that was damaged")
