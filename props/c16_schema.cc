// C16: types and schemas
#include "meta_util.h"
#include "util.h"
using namespace vf;

// Schema trees of our own
struct S {
  std::string format;
  bool has_name = false;
  std::string name;
  int64_t flags = 2;
  std::vector<S> kids;
  KV meta;
  bool dictionary = false;
};

struct Built {
  struct ArrowSchema s;
  std::string format, name, meta;
  std::vector<std::unique_ptr<Built>> kids;
  std::vector<struct ArrowSchema*> ptrs;
  std::unique_ptr<Built> dict;
  static void Rel(struct ArrowSchema* s) { s->release = nullptr; }
  explicit Built(const S& d) : format(d.format), name(d.name) {
    memset(&s, 0, sizeof(s));
    s.format = format.c_str();
    s.name = d.has_name ? name.c_str() : nullptr;
    if (!d.meta.empty()) meta = PackMetadata(d.meta), s.metadata = meta.data();
    s.flags = d.flags;
    for (auto& k : d.kids) kids.emplace_back(new Built(k)), ptrs.push_back(&kids.back()->s);
    s.n_children = (int64_t)ptrs.size();
    s.children = ptrs.empty() ? nullptr : ptrs.data();
    if (d.dictionary) {
      S u;
      u.format = "u";
      dict.reset(new Built(u));
      s.dictionary = &dict->s;
    }
    s.release = &Rel;
  }
};

// Outputs of calls that fail are not modified (geoarrow.h)
static bool AllEE(const void* p, size_t n) {
  for (size_t i = 0; i < n; i++)
    if (((const uint8_t*)p)[i] != 0xee) return false;
  return true;
}

static const char* kDims[] = {"", "xy", "xyz", "xym", "xyzm"};

static S Leaf(const std::string& fmt, const std::string& name) {
  S s;
  s.format = fmt, s.has_name = true, s.name = name, s.flags = 0;
  return s;
}
static S CoordSchema(int dims, int ct) {
  S s;
  std::string d = kDims[dims];
  if (ct == 1) {
    s.format = "+s";
    for (char c : d) s.kids.push_back(Leaf("g", std::string(1, c)));
  } else {
    s.format = "+w:" + std::to_string(d.size());
    s.kids.push_back(Leaf("g", d));
  }
  return s;
}
static const std::vector<const char*>& ListNames(int gt) {
  static const std::vector<const char*> n[] = {{},
                                               {},
                                               {"vertices"},
                                               {"rings", "vertices"},
                                               {"points"},
                                               {"linestrings", "vertices"},
                                               {"polygons", "rings", "vertices"}};
  return n[gt];
}
// The storage a type has by the GeoArrow specification
static S RefSchema(int type, const char** ext) {
  S s;
  switch (type) {
    case GEOARROW_TYPE_WKB: *ext = "geoarrow.wkb"; s.format = "z"; return s;
    case GEOARROW_TYPE_LARGE_WKB: *ext = "geoarrow.wkb"; s.format = "Z"; return s;
    case GEOARROW_TYPE_WKB_VIEW: *ext = "geoarrow.wkb"; s.format = "vz"; return s;
    case GEOARROW_TYPE_WKT: *ext = "geoarrow.wkt"; s.format = "u"; return s;
    case GEOARROW_TYPE_LARGE_WKT: *ext = "geoarrow.wkt"; s.format = "U"; return s;
    case GEOARROW_TYPE_WKT_VIEW: *ext = "geoarrow.wkt"; s.format = "vu"; return s;
    default: break;
  }
  int ct = type / 10000 + 1, dims = type % 10000 / 1000 + 1, gt = type % 1000;
  if (gt == 990) {
    *ext = "geoarrow.box";
    s.format = "+s";
    std::string d = kDims[dims];
    for (const char* m : {"min", "max"})
      for (char c : d) s.kids.push_back(Leaf("g", std::string(1, c) + m));
    return s;
  }
  static const char* names[] = {"", "geoarrow.point", "geoarrow.linestring", "geoarrow.polygon",
                                "geoarrow.multipoint", "geoarrow.multilinestring", "geoarrow.multipolygon"};
  *ext = names[gt];
  s = CoordSchema(dims, ct);
  auto& ln = ListNames(gt);
  for (size_t i = ln.size(); i-- > 0;) {
    S up;
    up.format = "+l";
    s.has_name = true, s.name = ln[i], s.flags = 0;
    up.kids.push_back(s);
    s = up;
  }
  return s;
}
static std::vector<int> AllTypes() {
  std::vector<int> v = {100001, 100002, 100003, 100004, 100005, 100006, 990, 1990, 2990, 3990};
  for (int ct = 0; ct < 2; ct++)
    for (int d = 0; d < 4; d++)
      for (int g = 1; g <= 6; g++) v.push_back(ct * 10000 + d * 1000 + g);
  return v;
}

static void SameSchema(const struct ArrowSchema* a, const S& b, const std::string& at, bool root) {
  VF_CHECK(a->release, "%s is released", at.c_str());
  VF_CHECK(b.format == a->format, "%s: format %s, not %s", at.c_str(), a->format, b.format.c_str());
  std::string name = a->name ? a->name : "";
  VF_CHECK(name == b.name, "%s: name %s, not %s", at.c_str(), name.c_str(), b.name.c_str());
  VF_CHECK(a->flags == b.flags, "%s: flags %lld, not %lld", at.c_str(), (long long)a->flags,
           (long long)b.flags);
  VF_CHECK(a->n_children == (int64_t)b.kids.size() && !a->dictionary, "%s: %lld children", at.c_str(),
           (long long)a->n_children);
  if (!root) VF_CHECK(!a->metadata || ReadSchemaMetadata(a->metadata).empty(), "%s: metadata", at.c_str());
  for (int64_t i = 0; i < a->n_children; i++)
    SameSchema(a->children[i], b.kids[i], at + "/" + std::to_string(i), false);
}

enum Verdict { YES, NO, EITHER };
// Which type a storage schema with an extension name is
static Verdict CoordType(const S& s, int* dims, int* ct) {
  if (s.dictionary) return EITHER;
  for (auto& k : s.kids)
    if (k.dictionary) return EITHER;
  if (s.format == "+s") {
    std::string d;
    for (auto& k : s.kids) {
      if (k.format != "g" || !k.has_name || k.name.size() != 1) return NO;
      d += k.name;
    }
    *ct = 1;
    for (*dims = 1; *dims <= 4; ++*dims)
      if (d == kDims[*dims]) return YES;
    return NO;
  }
  if (s.format.compare(0, 3, "+w:") == 0) {
    if (s.kids.size() != 1 || s.kids[0].format != "g") return NO;
    std::string n = s.format.substr(3);
    if (n.empty() || n.find_first_not_of("0123456789") != std::string::npos) return NO;
    if (n.size() > 1 && n[0] == '0') return EITHER;
    int size = n.size() > 6 ? 999999 : atoi(n.c_str());
    *ct = 2;
    for (*dims = 1; *dims <= 4; ++*dims)
      if (s.kids[0].has_name && s.kids[0].name == kDims[*dims]) return size == NDim(*dims) ? YES : NO;
    *dims = size == 2 ? 1 : size == 3 ? 2 : size == 4 ? 4 : 0;
    return *dims ? YES : NO;
  }
  return NO;
}
static bool HasDict(const S& s) {
  if (s.dictionary) return true;
  for (auto& k : s.kids)
    if (HasDict(k)) return true;
  return false;
}
static Verdict Judge(const S& s, const std::string& ext, int* type) {
  if (HasDict(s)) return s.dictionary && s.kids.empty() ? NO : EITHER;
  int dims = 0, ct = 0;
  if (ext == "geoarrow.wkb" || ext == "geoarrow.wkt") {
    if (!s.kids.empty()) return NO;
    bool b = ext == "geoarrow.wkb";
    const char* f[] = {b ? "z" : "u", b ? "Z" : "U", b ? "vz" : "vu"};
    int ty[] = {b ? 100001 : 100003, b ? 100002 : 100004, b ? 100005 : 100006};
    for (int i = 0; i < 3; i++)
      if (s.format == f[i]) {
        *type = ty[i];
        return YES;
      }
    return NO;
  }
  if (ext == "geoarrow.box") {
    if (s.format != "+s" || s.kids.size() % 2) return NO;
    std::string d[2];
    size_t n = s.kids.size() / 2;
    for (size_t i = 0; i < 2 * n; i++) {
      const S& k = s.kids[i];
      if (k.format != "g" || !k.has_name || k.name.size() != 4) return NO;
      if (k.name.substr(1) != (i < n ? "min" : "max")) return NO;
      d[i / n] += k.name[0];
    }
    if (d[0] != d[1]) return NO;
    for (dims = 1; dims <= 4; dims++)
      if (d[0] == kDims[dims]) {
        *type = (dims - 1) * 1000 + 990;
        return YES;
      }
    return NO;
  }
  static const char* names[] = {"", "geoarrow.point", "geoarrow.linestring", "geoarrow.polygon",
                                "geoarrow.multipoint", "geoarrow.multilinestring", "geoarrow.multipolygon"};
  for (int g = 1; g <= 6; g++) {
    if (ext != names[g]) continue;
    const S* p = &s;
    for (size_t i = 0; i < ListNames(g).size(); i++) {
      if (p->format != "+l" || p->kids.size() != 1) return NO;
      p = &p->kids[0];
    }
    Verdict v = CoordType(*p, &dims, &ct);
    if (v == YES) *type = (ct - 1) * 10000 + (dims - 1) * 1000 + g;
    return v;
  }
  return NO;
}

static std::string ShowS(const S& s) {
  std::string o = s.format + (s.has_name ? ":" + s.name : "") + (s.dictionary ? "{dict}" : "");
  if (!s.kids.empty()) {
    o += "<";
    for (auto& k : s.kids) o += ShowS(k) + " ";
    o += ">";
  }
  return o;
}

static void Collect(S* s, std::vector<S*>* out) {
  out->push_back(s);
  for (auto& k : s->kids) Collect(&k, out);
}
static void Mutate(S* root, std::string* ext, Tape& t) {
  std::vector<S*> all;
  Collect(root, &all);
  S* s = all[t.Below(all.size())];
  static const char* formats[] = {"g", "f", "+s", "+l", "+L", "+w:2", "+w:3", "+w:4", "+w:5", "+w:1", "+w:0",
                                  "z", "Z", "u", "U", "vz", "vu", "i", "n", "b", "w:16", "+m", "+vl", "e"};
  static const char* names[] = {"x", "y", "z", "m", "xy", "xyz", "xym", "xyzm", "", "xx", "item", "xmin",
                                "ymax", "zmin", "mmax", "X", "xyzmt", "minx", "vertices"};
  static const char* exts[] = {"geoarrow.wkb", "geoarrow.wkt", "geoarrow.point", "geoarrow.linestring",
                               "geoarrow.polygon", "geoarrow.multipoint", "geoarrow.multilinestring",
                               "geoarrow.multipolygon", "geoarrow.box", "geoarrow.geometry",
                               "geoarrow.geometrycollection", "geoarrow.", "ogc.wkb", "arrow.uuid"};
  switch (t.Below(10)) {
    case 0:
    case 1: s->format = formats[t.Below(24)]; break;
    case 2:
    case 3: s->has_name = true, s->name = names[t.Below(19)]; break;
    case 4: s->has_name = false, s->name.clear(); break;
    case 5:
      if (!s->kids.empty()) s->kids.erase(s->kids.begin() + (long)t.Below(s->kids.size()));
      break;
    case 6: {
      S k = t.Coin() && !s->kids.empty() ? s->kids[t.Below(s->kids.size())] : Leaf("g", names[t.Below(19)]);
      s->kids.insert(s->kids.begin() + (long)t.Below(s->kids.size() + 1), k);
      break;
    }
    case 7:
      if (s->kids.size() > 1) std::swap(s->kids[t.Below(s->kids.size())], s->kids[t.Below(s->kids.size())]);
      else if (s->format == "+l" && s == root) {
        S k = s->kids.empty() ? Leaf("g", "x") : s->kids[0];
        *root = k;
      } else if (s == root) {
        S up;
        up.format = "+l";
        up.kids.push_back(*root);
        *root = up;
      }
      break;
    case 8:
      switch (t.Below(4)) {
        case 0: *ext += t.Coin() ? "x" : ".wkb"; break;
        case 1: ext->pop_back(); break;
        case 2: (*ext)[t.Below(ext->size())] ^= 0x20; break;
        default: *ext = exts[t.Below(14)];
      }
      if (ext->empty()) *ext = "g";
      break;
    default:
      if (t.Chance(1, 3)) s->dictionary = true, s->format = "i", s->kids.clear();
      else s->flags ^= 2;
  }
}

static void CheckView(const struct GeoArrowSchemaView& v, int type) {
  VF_CHECK((int)v.type == type, "type %d, not %d", v.type, type);
  int gt = 0, dims = 0, ct = 0;
  if (type && type < 100000) ct = type / 10000 + 1, dims = type % 10000 / 1000 + 1, gt = type % 1000;
  VF_CHECK((int)v.geometry_type == gt && (int)v.dimensions == dims && (int)v.coord_type == ct,
           "type %d: geometry type %d, dimensions %d, coord type %d", type, v.geometry_type, v.dimensions,
           v.coord_type);
}

static void Reading(Ctx& c) {
  Tape& t = c.t;
  static const std::vector<int> all = AllTypes();
  const char* e = "";
  S s = RefSchema(all[t.Below(all.size())], &e);
  std::string ext = e;
  int edits = t.Small(4);
  for (int i = 0; i < edits; i++) Mutate(&s, &ext, t);
  int type = 0;
  Verdict want = Judge(s, ext, &type);
  // extension metadata among other keys
  bool has_name = true;
  std::string md = t.Coin() ? "{\"crs\":\"" + std::string((size_t)t.Below(20), 'c') + "\"}" : "";
  bool has_md = t.Chance(3, 4);
  KV kv;
  bool from_storage = t.Chance(1, 3);
  if (t.Coin()) kv.push_back({"a", "b"});
  if (!from_storage || t.Coin()) {
    if (!from_storage && t.Chance(1, 10)) has_name = false;
    else kv.push_back({"ARROW:extension:name", from_storage ? "other" : ext});
  }
  if (has_md) kv.insert(kv.begin() + (long)t.Below(kv.size() + 1), {"ARROW:extension:metadata", md});
  s.meta = kv;
  Built b(s);
  c.note(ShowS(s) + " as " + (has_name ? ext : "nothing"));
  struct GeoArrowSchemaView v;
  memset(&v, 0xee, sizeof(v));
  struct GeoArrowError err;
  err.message[0] = 0;
  Exact en(ext);
  int rc = from_storage ? GeoArrowSchemaViewInitFromStorage(&v, &b.s, en.Str(), &err)
                        : GeoArrowSchemaViewInit(&v, &b.s, &err);
  if (!has_name) want = NO;
  VF_CHECK(want != YES || rc == 0, "rejected: %s", err.message);
  VF_CHECK(want != NO || rc != 0, "accepted as %d", v.type);
  if (rc != 0) {
    VF_CHECK(rc == EINVAL && err.message[0], "code %d, message '%s'", rc, err.message);
    VF_CHECK(AllEE(&v, sizeof v), "the view was changed by a call that failed");
    if (!from_storage) {
      struct GeoArrowArrayView av;
      memset(&av, 0xee, sizeof av);
      rc = GeoArrowArrayViewInitFromSchema(&av, &b.s, nullptr);
      VF_CHECK(rc == EINVAL && AllEE(&av, sizeof av), "array view: code %d, or changed by a call that failed", rc);
      rc = EINVAL;
    }
  } else if (want == YES) {
    CheckView(v, type);
    VF_CHECK(v.schema == &b.s, "schema member");
    VF_CHECK(std::string(v.extension_name.data, (size_t)v.extension_name.size_bytes) == ext, "extension name");
    std::string m(v.extension_metadata.data ? v.extension_metadata.data : "",
                  (size_t)v.extension_metadata.size_bytes);
    VF_CHECK(m == (has_md ? md : ""), "extension metadata %s", m.c_str());
    // what reads columns agrees about the type
    struct GeoArrowArrayView av;
    rc = GeoArrowArrayViewInitFromType(&av, (enum GeoArrowType)type);
    VF_CHECK(rc == 0 && av.schema_view.type == (enum GeoArrowType)type, "array view");
  }
  if (t.Chance(1, 10)) {  // the message is optional
    int rc2 = from_storage ? GeoArrowSchemaViewInitFromStorage(&v, &b.s, en.Str(), nullptr)
                           : GeoArrowSchemaViewInit(&v, &b.s, nullptr);
    VF_CHECK((rc2 == 0) == (rc == 0), "result depends on the error argument");
  }
  c.label(want == YES ? (edits ? "edited, valid" : "valid") : want == NO ? "invalid" : "unspecified");
  if (edits && want != EITHER) c.nontrivial("r" + ShowS(s) + ext);
}

// What is made for a type is made for its schema too, and for nothing that is no type
static void Objects(Tape& t, enum GeoArrowType ty, bool ok, const struct ArrowSchema* schema) {
  struct GeoArrowError err;
  int rc[2] = {0, 0};
  int what = (int)t.Below(4);
  for (int i = 0; i < (schema ? 2 : 1); i++) {
    err.message[0] = 0;
    switch (what) {
      case 0: {
        struct GeoArrowArrayReader x;
        rc[i] = i ? GeoArrowArrayReaderInitFromSchema(&x, schema, &err) : GeoArrowArrayReaderInitFromType(&x, ty);
        if (!rc[i]) GeoArrowArrayReaderReset(&x);
        break;
      }
      case 1: {
        struct GeoArrowArrayWriter x;
        rc[i] = i ? GeoArrowArrayWriterInitFromSchema(&x, schema) : GeoArrowArrayWriterInitFromType(&x, ty);
        if (!rc[i]) GeoArrowArrayWriterReset(&x);
        break;
      }
      case 2: {
        struct GeoArrowBuilder x;
        rc[i] = i ? GeoArrowBuilderInitFromSchema(&x, schema, &err) : GeoArrowBuilderInitFromType(&x, ty);
        if (!rc[i]) GeoArrowBuilderReset(&x);
        break;
      }
      default: {
        struct GeoArrowNativeWriter x;
        rc[i] = GeoArrowNativeWriterInit(&x, ty);
        if (!rc[i]) GeoArrowNativeWriterReset(&x);
      }
    }
  }
  static const char* kWhat[] = {"reader", "writer", "builder", "native writer"};
  if (!ok && (int)ty != 0) VF_CHECK(rc[0] != 0, "a %s for type %d", kWhat[what], (int)ty);
  if (schema) VF_CHECK(rc[0] == rc[1], "a %s for type %d: %d, for its schema: %d", kWhat[what], (int)ty, rc[0], rc[1]);
  bool native = ok && (int)ty < 100000 && (int)ty % 10 >= 1 && (int)ty % 10 <= 6 && (int)ty % 1000 < 10;
  if (native || ty == GEOARROW_TYPE_WKB || ty == GEOARROW_TYPE_WKT)
    VF_CHECK(rc[0] == 0 || (!native && what == 3), "no %s for type %d: %d", kWhat[what], (int)ty, rc[0]);
}

static void Writing(Ctx& c) {
  Tape& t = c.t;
  static const std::vector<int> all = AllTypes();
  static const std::set<int> valid(all.begin(), all.end());
  int type;
  if (t.Chance(3, 4)) {
    type = all[t.Below(all.size())];
  } else {
    switch (t.Below(4)) {
      case 0: type = (int)t.Range(0, 15000); break;
      case 1: type = (int)t.Range(99990, 100020); break;
      case 2: type = (int)(t.Below(14) * 1000 + t.Below(10)); break;
      default: type = all[t.Below(all.size())] + (int)t.Range(-2, 2) * (t.Coin() ? 10000 : 1000);
    }
    if (type < 0) type = -type;
  }
  bool ok = valid.count(type) > 0;
  c.note(strf("type %d", type));
  enum GeoArrowType ty = (enum GeoArrowType)type;
  const char* ext = nullptr;
  S ref;
  if (ok) ref = RefSchema(type, &ext);
  struct GeoArrowSchemaView v;
  memset(&v, 0xee, sizeof v);
  int rc = GeoArrowSchemaViewInitFromType(&v, ty);
  if (!ok && type != 0) VF_CHECK(rc != 0, "a view of type %d", type);
  if (rc) {
    VF_CHECK(AllEE(&v, sizeof v), "the view was changed by a call that failed");
    struct GeoArrowArrayView av;
    memset(&av, 0xee, sizeof av);
    VF_CHECK(GeoArrowArrayViewInitFromType(&av, ty) == rc && AllEE(&av, sizeof av), "array view of type %d", type);
  }
  if (ok) {
    VF_CHECK(rc == 0, "InitFromType: %d", rc);
    CheckView(v, type);
    VF_CHECK(!strcmp(GeoArrowExtensionNameFromType(ty), ext), "extension name");
    VF_CHECK(v.extension_name.size_bytes == (int64_t)strlen(ext) && !memcmp(v.extension_name.data, ext, strlen(ext)),
             "extension name");
    VF_CHECK(v.schema == nullptr && v.extension_metadata.size_bytes == 0, "members out of nothing");
    enum GeoArrowGeometryType g = GeoArrowGeometryTypeFromType(ty);
    enum GeoArrowDimensions d = GeoArrowDimensionsFromType(ty);
    enum GeoArrowCoordType ct = GeoArrowCoordTypeFromType(ty);
    VF_CHECK(g == v.geometry_type && d == v.dimensions && ct == v.coord_type, "parts of %d", type);
    VF_CHECK((int)GeoArrowMakeType(g, d, ct) == (type >= 100000 ? 0 : type), "parts of %d put together again",
             type);
  }
  SchemaHolder a, b;
  rc = GeoArrowSchemaInit(&a.s, ty);
  int rc2 = GeoArrowSchemaInitExtension(&b.s, ty);
  Objects(t, ty, ok, ok && rc2 == 0 ? &b.s : nullptr);
  if (!ok) {
    VF_CHECK(rc != 0, "a schema for type %d", type);
    VF_CHECK(rc2 != 0, "an extension schema for type %d", type);
    c.label("no type");
    c.nontrivial(strf("w%d", type));
    return;
  }
  VF_CHECK(rc == 0 && rc2 == 0, "schema init: %d %d", rc, rc2);
  SameSchema(&a.s, ref, "schema", true);
  SameSchema(&b.s, ref, "schema", true);
  VF_CHECK(ReadSchemaMetadata(a.s.metadata).empty(), "storage schema with metadata");
  auto kv = ReadSchemaMetadata(b.s.metadata);
  std::map<std::string, std::string> m(kv.begin(), kv.end());
  VF_CHECK(kv.size() == 2 && m["ARROW:extension:name"] == ext && m["ARROW:extension:metadata"] == "{}",
           "extension keys");
  VF_CHECK(GeoArrowSchemaViewInit(&v, &b.s, nullptr) == 0, "its own schema is not understood");
  CheckView(v, type);
  Exact en(ext);
  VF_CHECK(GeoArrowSchemaViewInitFromStorage(&v, &a.s, en.Str(), nullptr) == 0, "its storage is not understood");
  CheckView(v, type);
  VF_CHECK(GeoArrowSchemaViewInit(&v, &a.s, nullptr) != 0, "storage without extension name was accepted");
  c.label("type");
  c.nontrivial(strf("w%d", type));
}

static void Combine(Ctx& c) {
  Tape& t = c.t;
  static const int gts[] = {0, 1, 2, 3, 4, 5, 6, 990};
  int g = gts[t.Below(8)], d = (int)t.Below(5), ct = (int)t.Below(3);
  int want = !g || !d || !ct || (g == 990 && ct != 1) ? 0 : (ct - 1) * 10000 + (d - 1) * 1000 + g;
  int got = GeoArrowMakeType((enum GeoArrowGeometryType)g, (enum GeoArrowDimensions)d,
                             (enum GeoArrowCoordType)ct);
  VF_CHECK(got == want, "MakeType(%d, %d, %d) = %d, not %d", g, d, ct, got, want);
  c.label("combine");
}

// The text of each enum member, and of what is none
static void Names(Ctx& c) {
  Tape& t = c.t;
  int v = t.Coin() ? (int)t.Below(10) : t.Coin() ? (int)t.Range(-3, 1100) : (int)(uint32_t)t.Bits(4);
  struct Row {
    const char* what;
    const char* got;
    std::vector<std::pair<int, const char*>> want;
  };
  std::vector<Row> rows = {
      {"geometry type", GeoArrowGeometryTypeString((enum GeoArrowGeometryType)v),
       {{0, "GEOMETRY"}, {1, "POINT"}, {2, "LINESTRING"}, {3, "POLYGON"}, {4, "MULTIPOINT"}, {5, "MULTILINESTRING"},
        {6, "MULTIPOLYGON"}, {7, "GEOMETRYCOLLECTION"}, {990, "BOX"}}},
      {"dimensions", GeoArrowDimensionsString((enum GeoArrowDimensions)v),
       {{0, "unknown"}, {1, "xy"}, {2, "xyz"}, {3, "xym"}, {4, "xyzm"}}},
      {"coord type", GeoArrowCoordTypeString((enum GeoArrowCoordType)v),
       {{0, "unknown"}, {1, "separate"}, {2, "interleaved"}}},
      {"edges", GeoArrowEdgeTypeString((enum GeoArrowEdgeType)v),
       {{0, "planar"}, {1, "spherical"}, {2, "vincenty"}, {3, "thomas"}, {4, "andoyer"}, {5, "karney"}}},
      {"crs type", GeoArrowCrsTypeString((enum GeoArrowCrsType)v),
       {{0, "none"}, {1, "unknown"}, {2, "projjson"}, {3, "wkt2:2019"}, {4, "authority_code"}, {5, "srid"}}}};
  for (auto& r : rows) {
    const char* want = "<not valid>";
    for (auto& w : r.want)
      if (w.first == v) want = w.second;
    VF_CHECK(r.got && !strcmp(r.got, want), "%s %d is called %s, not %s", r.what, v, r.got ? r.got : "(null)", want);
  }
  VF_CHECK(!strcmp(GeoArrowVersion(), GEOARROW_VERSION) && GeoArrowVersionInt() == GEOARROW_VERSION_INT &&
               GEOARROW_VERSION_INT == GEOARROW_VERSION_MAJOR * 10000 + GEOARROW_VERSION_MINOR * 100 +
                                           GEOARROW_VERSION_PATCH,
           "version");
  c.label("names");
}

static void Run(Ctx& c) {
  Live live;
  switch (c.t.Below(8)) {
    case 0: c.t.Coin() ? Combine(c) : Names(c); break;
    case 1: Writing(c); break;
    default: Reading(c); break;
  }
  live.Check("schemas");
}

VF_PROP("C16", Run,
        "all 58 types and invalid type ids written as schemas; schemas of the specification with up to "
        "several edits (formats, names, children, order, nesting, extension names, dictionaries) read "
        "back, judged by an independent statement of the rules. Non-trivial: an edited schema or a "
        "written one")
