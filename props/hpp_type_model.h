// A model of GeometryDataType
#pragma once
#include "hpp_util.h"
#include "kernel_util.h"
#include "meta_util.h"

namespace vf {
using geoarrow::GeometryDataType;

static const char* kEdges[] = {"planar", "spherical", "vincenty", "thomas", "andoyer", "karney"};
static const char* kCrsTypes[] = {"none", "unknown", "projjson", "wkt2:2019", "authority_code", "srid"};
static const char* kExt[] = {"", "geoarrow.point", "geoarrow.linestring", "geoarrow.polygon", "geoarrow.multipoint",
                             "geoarrow.multilinestring", "geoarrow.multipolygon"};
static const int kSer[] = {GEOARROW_TYPE_WKB,       GEOARROW_TYPE_WKT,      GEOARROW_TYPE_LARGE_WKB,
                           GEOARROW_TYPE_LARGE_WKT, GEOARROW_TYPE_WKB_VIEW, GEOARROW_TYPE_WKT_VIEW};

// A type in words of its own
struct M {
  bool init = false;
  bool moved = false;  // moved from: nothing is said about it
  int id = 0;
  int gt = 0, dims = 0, ct = 0;
  int edges = 0, crs_type = 0;
  std::string crs;

  bool Ser() const { return gt == 0; }
  std::string Ext() const {
    if (id == GEOARROW_TYPE_WKT || id == GEOARROW_TYPE_LARGE_WKT || id == GEOARROW_TYPE_WKT_VIEW) return "geoarrow.wkt";
    if (Ser()) return "geoarrow.wkb";
    return gt == GEOARROW_GEOMETRY_TYPE_BOX ? "geoarrow.box" : kExt[gt];
  }
  std::string Str(size_t max) const {
    if (!init) return "<Uninitialized GeometryDataType>";
    std::string s;
    if (id == GEOARROW_TYPE_LARGE_WKT || id == GEOARROW_TYPE_LARGE_WKB) s += "large ";
    if (id == GEOARROW_TYPE_WKT_VIEW || id == GEOARROW_TYPE_WKB_VIEW) s += "view ";
    if (edges) s += std::string(kEdges[edges]) + " ";
    if (ct == 2) s += "interleaved ";
    s += Ext();
    static const char* suffix[] = {"", "", "_z", "_m", "_zm"};
    s += suffix[dims];
    std::string c;
    if (crs_type == 1) c = crs;
    if (crs_type >= 2) c = std::string(kCrsTypes[crs_type]) + ":" + crs;
    if (!c.empty()) {
      c = "<" + c + ">";
      if (c.size() >= max) c = c.substr(0, max > 4 ? max - 4 : 0) + "...>";
    }
    return s + c;
  }
};
static M MakeM(int gt, int dims, int ct) {
  M m;
  m.init = true;
  m.gt = gt, m.dims = dims, m.ct = ct;
  m.id = (ct - 1) * 10000 + (dims - 1) * 1000 + gt;
  return m;
}
static M SerM(int id) {
  M m;
  m.init = true;
  m.id = id;
  return m;
}
static M GenM(Tape& t) {
  if (t.Chance(1, 4)) return SerM(kSer[t.Below(6)]);
  if (t.Chance(1, 6)) return MakeM(GEOARROW_GEOMETRY_TYPE_BOX, (int)t.Range(1, 4), 1);
  return MakeM((int)t.Range(1, 6), (int)t.Range(1, 4), (int)t.Range(1, 2));
}
static bool Valid(int gt, int dims, int ct) {
  if (dims < 1 || dims > 4 || ct < 1 || ct > 2) return false;
  if (gt == GEOARROW_GEOMETRY_TYPE_BOX) return ct == 1;
  return gt >= 1 && gt <= 6;
}

// Random metadata for m, as JSON text
static std::string GenMeta(Tape& t, M* m) {
  m->edges = (int)t.Below(6);
  m->crs_type = (int)t.Below(6);
  m->crs.clear();
  std::string crs;
  if (m->crs_type) {
    if (t.Chance(1, 3)) {
      crs = m->crs = Spell(GenJson(t, 3, Json::OBJ), t, false);
    } else {
      m->crs = GenText(t, 40);
      if (m->crs.empty()) m->crs = "crs";
      crs = Spell(Json::Str(m->crs), t, false);
    }
  }
  if (!m->edges && !m->crs_type && t.Coin()) return "";
  std::string s = "{";
  auto add = [&](const std::string& k, const std::string& v) {
    if (s.size() > 1) s += "," + Ws(t);
    s += "\"" + k + "\":" + Ws(t) + v;
  };
  bool first = t.Coin();
  if (m->edges && first) add("edges", std::string("\"") + kEdges[m->edges] + "\"");
  if (m->crs_type) add("crs", crs);
  if (m->crs_type >= 2) add("crs_type", std::string("\"") + kCrsTypes[m->crs_type] + "\"");
  if (m->edges && !first) add("edges", std::string("\"") + kEdges[m->edges] + "\"");
  return s + "}";
}

static void CheckDoc(const std::string& doc, const M& m) {
  Json j;
  std::string why;
  VF_CHECK(ParseJson(doc, &j, &why) && j.kind == Json::OBJ, "not a JSON object: %s", Quote(doc).c_str());
  M got;
  for (auto& mb : j.members) {
    if (mb.first == "edges") {
      for (int i = 1; i < 6; i++)
        if (mb.second.s == kEdges[i]) got.edges = i;
    } else if (mb.first == "crs_type") {
      for (int i = 2; i < 6; i++)
        if (mb.second.s == kCrsTypes[i]) got.crs_type = i;
    } else if (mb.first == "crs") {
      got.crs = mb.second.kind == Json::STR ? mb.second.s : mb.second.raw;
      if (!got.crs_type) got.crs_type = 1;
    } else {
      fail("member %s", Quote(mb.first).c_str());
    }
  }
  VF_CHECK(got.edges == m.edges && got.crs_type == m.crs_type && got.crs == m.crs,
           "metadata %s, expected edges %d, crs type %d, crs %s", Quote(doc).c_str(), m.edges, m.crs_type,
           Quote(m.crs).c_str());
}

static void CheckType(Tape& t, const GeometryDataType& d, const M& m, bool full) {
  if (m.moved) return;
  VF_CHECK((int)d.id() == m.id, "id %d, expected %d", (int)d.id(), m.id);
  VF_CHECK((int)d.geometry_type() == m.gt && (int)d.dimensions() == m.dims && (int)d.coord_type() == m.ct,
           "type %d/%d/%d, expected %d/%d/%d", (int)d.geometry_type(), (int)d.dimensions(), (int)d.coord_type(), m.gt,
           m.dims, m.ct);
  VF_CHECK(d.num_dimensions() == (m.dims ? NDim(m.dims) : -1), "%d dimensions", d.num_dimensions());
  VF_CHECK((int)d.edge_type() == m.edges, "edges %d, expected %d", (int)d.edge_type(), m.edges);
  VF_CHECK((int)d.crs_type() == m.crs_type, "crs type %d, expected %d", (int)d.crs_type(), m.crs_type);
  VF_CHECK(d.crs() == m.crs, "crs %s, expected %s", Quote(d.crs()).c_str(), Quote(m.crs).c_str());
  if (!full) return;
  VF_CHECK(d.ToString() == m.Str(40), "called %s, expected %s", Quote(d.ToString()).c_str(), Quote(m.Str(40)).c_str());
  size_t max = t.Below(60);
  VF_CHECK(d.ToString(max) == m.Str(max), "called %s at %zu, expected %s", Quote(d.ToString(max)).c_str(), max,
           Quote(m.Str(max)).c_str());
  CheckDoc(d.extension_metadata(), m);
  if (!m.init) {
    bool threw = false;
    try {
      d.extension_name();
    } catch (const geoarrow::Exception&) {
      threw = true;
    }
    VF_CHECK(threw, "an uninitialized type has a name");
    return;
  }
  VF_CHECK(d.extension_name() == m.Ext(), "%s, expected %s", d.extension_name().c_str(), m.Ext().c_str());
  SchemaHolder ext, sto;
  d.InitSchema(&ext.s);
  d.InitStorageSchema(&sto.s);
  struct GeoArrowSchemaView sv;
  VF_CHECK(GeoArrowSchemaViewInit(&sv, &ext.s, nullptr) == 0 && (int)sv.type == m.id, "schema of another type");
  CheckDoc(std::string(sv.extension_metadata.data, (size_t)sv.extension_metadata.size_bytes), m);
  std::string name = m.Ext();
  struct GeoArrowStringView nv = {name.data(), (int64_t)name.size()};
  VF_CHECK(GeoArrowSchemaViewInitFromStorage(&sv, &sto.s, nv, nullptr) == 0 && (int)sv.type == m.id, "storage of another type");
  for (auto& kv : ReadSchemaMetadata(sto.s.metadata)) VF_CHECK(kv.first.compare(0, 15, "ARROW:extension"), "storage with %s", kv.first.c_str());
  // and back again
  CheckType(t, GeometryDataType::Make(&ext.s), m, false);
  CheckType(t, GeometryDataType::Make(&sto.s, m.Ext(), d.extension_metadata()), m, false);
  CheckType(t, GeometryDataType::Make(d.id(), d.extension_metadata()), m, false);
}

}  // namespace vf
