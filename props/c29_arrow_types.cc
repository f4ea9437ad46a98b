// C29: the extension type for Arrow C++
#include <arrow/api.h>
#include <arrow/c/bridge.h>

#include <functional>

#include "geoarrow/hpp/arrow_extension_type.hpp"
#include "hpp_type_model.h"
using namespace vf;
using ExtType = geoarrow::arrow::GeometryExtensionType;
using Ptr = std::shared_ptr<ExtType>;

static std::shared_ptr<arrow::DataType> StorageOf(int id) {
  SchemaHolder s;
  VF_CHECK(GeoArrowSchemaInit(&s.s, (enum GeoArrowType)id) == 0, "SchemaInit(%d)", id);
  auto r = arrow::ImportType(&s.s);
  VF_CHECK(r.ok(), "%s", r.status().ToString().c_str());
  return r.ValueUnsafe();
}

// A type and what it should say.  storage: what it was made over, if not the usual
struct Item {
  Ptr p;
  M m;
  std::shared_ptr<arrow::DataType> storage;
};

static bool SameM(const M& a, const M& b) {
  return a.id == b.id && a.edges == b.edges && a.crs_type == b.crs_type && a.crs == b.crs;
}

static void CheckItem(Tape& t, const Item& it, bool full) {
  const M& m = it.m;
  CheckType(t, it.p->GeoArrowType(), m, full);
  VF_CHECK(it.p->extension_name() == m.Ext(), "%s, expected %s", it.p->extension_name().c_str(), m.Ext().c_str());
  VF_CHECK(it.p->id() == arrow::Type::EXTENSION, "no extension type");
  VF_CHECK(it.p->storage_type()->Equals(*it.storage, true), "storage %s of %s, expected %s", it.p->storage_type()->ToString().c_str(),
           it.p->GeoArrowType().ToString().c_str(), it.storage->ToString().c_str());
  std::string meta = it.p->Serialize();
  CheckDoc(meta, m);
  VF_CHECK(it.p->ToString() == "GeometryExtensionType(" + m.Str(40) + ")", "called %s", it.p->ToString().c_str());
  if (!full) return;
  // What it is written as is read back as the same
  auto r = it.p->Deserialize(it.p->storage_type(), meta);
  VF_CHECK(r.ok(), "Deserialize: %s", r.status().ToString().c_str());
  auto q = std::dynamic_pointer_cast<ExtType>(r.ValueUnsafe());
  VF_CHECK(q, "Deserialize gives another class");
  VF_CHECK(q->Equals(*it.p) && it.p->Equals(*q), "Deserialize(Serialize()) is not equal");
  CheckType(t, q->GeoArrowType(), m, false);
  ExtType copy(*it.p);
  VF_CHECK(copy.Equals(*it.p), "a copy is not equal");
  CheckType(t, copy.GeoArrowType(), m, false);
}

// A trip through the C data interface; registered: comes back as an extension type
static void Trip(Tape& t, const Item& it, bool registered) {
  SchemaHolder s;
  auto st = arrow::ExportType(*it.p, &s.s);
  VF_CHECK(st.ok(), "ExportType: %s", st.ToString().c_str());
  struct GeoArrowSchemaView sv;
  struct GeoArrowError e;
  e.message[0] = 0;
  int rc = GeoArrowSchemaViewInit(&sv, &s.s, &e);
  VF_CHECK(rc == 0, "the exported schema: %d %s", rc, e.message);
  VF_CHECK((int)sv.type == it.m.id, "exported as type %d, expected %d", (int)sv.type, it.m.id);
  CheckDoc(std::string(sv.extension_metadata.data, (size_t)sv.extension_metadata.size_bytes), it.m);
  auto back = arrow::ImportType(&s.s);
  VF_CHECK(back.ok(), "ImportType: %s", back.status().ToString().c_str());
  if (registered) {
    VF_CHECK(back.ValueUnsafe()->id() == arrow::Type::EXTENSION, "%s comes back as %s", it.m.Ext().c_str(),
             back.ValueUnsafe()->ToString().c_str());
    auto q = std::dynamic_pointer_cast<ExtType>(back.ValueUnsafe());
    VF_CHECK(q, "comes back as another class");
    VF_CHECK(q->Equals(*it.p), "comes back as %s", q->ToString().c_str());
    CheckType(t, q->GeoArrowType(), it.m, false);
  } else {
    VF_CHECK(back.ValueUnsafe()->Equals(*it.storage), "comes back as %s", back.ValueUnsafe()->ToString().c_str());
  }
}

// A column of such a type
static void Column(Ctx& c, const Item& it) {
  Tape& t = c.t;
  if (it.m.gt == GEOARROW_GEOMETRY_TYPE_BOX) return;
  GenOpt o;
  o.max_coords = 5;
  o.max_depth = 2;
  o.long_seqs = false;
  o.empty_point_members = false;
  if (!it.m.Ser()) o.types = {it.m.gt}, o.dims = it.m.dims;
  auto feats = GenFeats(t, o, 4);
  SourceColumn col(t, it.m.id, feats);
  auto st = it.p->storage_type();
  struct ArrowArray a = col.arr->a;  // lent: the copy's release does nothing
  a.release = [](struct ArrowArray* x) { x->release = nullptr; };
  // Arrow C++ wants the offsets of an empty list array too
  static const int32_t zeros[4] = {0, 0, 0, 0};
  std::function<void(struct ArrowArray*)> fill = [&](struct ArrowArray* x) {
    if (x->n_buffers >= 2 && x->length + x->offset == 0 && !x->buffers[1]) x->buffers[1] = zeros;
    for (int64_t i = 0; i < x->n_children; i++) fill(x->children[i]);
  };
  fill(&a);
  auto r = arrow::ImportArray(&a, it.p);
  VF_CHECK(r.ok(), "ImportArray: %s", r.status().ToString().c_str());
  auto arr = std::dynamic_pointer_cast<arrow::ExtensionArray>(r.ValueUnsafe());
  VF_CHECK(arr, "no ExtensionArray");
  VF_CHECK(arr->length() == (int64_t)feats.size(), "%lld rows", (long long)arr->length());
  for (size_t i = 0; i < feats.size(); i++)
    VF_CHECK(arr->IsNull((int64_t)i) == feats[i].null, "row %zu", i);
  VF_CHECK(arr->storage()->type()->Equals(*st), "storage of the column");
  VF_CHECK(arr->type()->Equals(*it.p), "type of the column");
  // and out again
  ArrayHolder out;
  SchemaHolder sch;
  auto s = arrow::ExportArray(*arr, &out.a, &sch.s);
  VF_CHECK(s.ok(), "ExportArray: %s", s.ToString().c_str());
  geoarrow::ArrayReader reader((enum GeoArrowType)it.m.id);
  reader.SetArrayNonOwning(&out.a);
  Recorder rec;
  struct GeoArrowArrayReader ar;
  VF_CHECK(GeoArrowArrayReaderInitFromSchema(&ar, &sch.s, nullptr) == 0, "reader");
  int rc = GeoArrowArrayReaderSetArray(&ar, &out.a, nullptr);
  if (rc == 0) rc = GeoArrowArrayReaderVisit(&ar, 0, out.a.length, &rec.v);
  GeoArrowArrayReaderReset(&ar);
  VF_CHECK(rc == 0, "visit: %d %s", rc, rec.error.message);
  std::vector<Feat> want;
  for (auto& f : feats) want.push_back(Carried(f, it.m.id));
  std::string why;
  VF_CHECK(SameFeats(rec.feats, want, &why), "column: %s", why.c_str());
  c.label("column");
}

static void Run(Ctx& c) {
  Tape& t = c.t;
  Live live;
  {
    bool registered = t.Coin();
    struct Reg {
      bool on;
      explicit Reg(bool x) : on(x) {
        if (on) {
          auto s = ExtType::RegisterAll();
          VF_CHECK(s.ok(), "RegisterAll: %s", s.ToString().c_str());
        }
      }
      ~Reg() {
        if (on) (void)ExtType::UnregisterAll();
      }
    } reg(registered);
    std::vector<Item> pool;
    int steps = 2 + t.Small(8);
    std::string key;
    auto usual = [](Ptr p, const M& m) { return Item{p, m, StorageOf(m.id)}; };
    for (int s = 0; s < steps; s++) {
      int op = pool.empty() ? (int)t.Below(3) : (int)t.Below(14);
      key += (char)('a' + op);
      auto put = [&](const Item& it) {
        CheckItem(t, it, t.Coin());
        if (pool.size() < 4)
          pool.push_back(it);
        else
          pool[t.Below(pool.size())] = it;
      };
      // A result that must or must not be there
      auto got = [&](const arrow::Result<Ptr>& r, bool ok, const char* what) {
        VF_CHECK(r.ok() == ok, "%s: %s", what, r.status().ToString().c_str());
        if (!ok) VF_CHECK(r.status().IsInvalid() && !r.status().message().empty(), "%s: %s", what, r.status().ToString().c_str());
        return ok;
      };
      const Item src = pool.empty() ? Item() : pool[t.Below(pool.size())];
      c.note(strf("op %d ", op) + (pool.empty() ? "" : src.m.Str(30)));
      try {
        switch (op) {
          case 0: {
            M m = GenM(t);
            std::string meta = GenMeta(t, &m);
            auto r = ExtType::Make((enum GeoArrowType)m.id, meta);
            if (got(r, true, "Make(id)")) put(usual(*r, m));
            key += strf("%d", m.id);
            break;
          }
          case 1: {
            int gt = t.Chance(1, 8) ? GEOARROW_GEOMETRY_TYPE_BOX : (int)t.Below(7);
            int dims = (int)t.Below(5), ct = (int)t.Below(3);
            bool ok = Valid(gt, dims, ct);
            M m = ok ? MakeM(gt, dims, ct) : M();
            std::string meta = GenMeta(t, &m);
            auto r = ExtType::Make((enum GeoArrowGeometryType)gt, (enum GeoArrowDimensions)dims, (enum GeoArrowCoordType)ct, meta);
            if (got(r, ok, "Make(parts)")) put(usual(*r, m));
            break;
          }
          case 2: {
            M m = GenM(t);
            std::string meta = GenMeta(t, &m);
            GeometryDataType d = GeometryDataType::Make((enum GeoArrowType)m.id, meta);
            std::string over;
            if (t.Chance(1, 3)) {  // metadata given beside the type takes the place of the type's own
              M o = m;
              over = GenMeta(t, &o);
              if (!over.empty()) m = o;
            }
            auto r = ExtType::Make(d, over);
            if (got(r, true, "Make(GeometryDataType)")) put(usual(*r, m));
            key += strf("%d", m.id);
            break;
          }
          case 3: {  // what is malformed
            switch (t.Below(4)) {
              case 0: got(ExtType::Make(GEOARROW_TYPE_UNINITIALIZED), false, "Make(uninitialized)"); break;
              case 1: got(ExtType::Make(GEOARROW_TYPE_POINT, t.Coin() ? "{\"crs\": " : "not json"), false, "Make(malformed)"); break;
              case 2: {
                auto r = src.p->Deserialize(src.p->storage_type(), "{\"crs\": ");
                VF_CHECK(!r.ok() && r.status().IsInvalid(), "malformed metadata");
                break;
              }
              default: {
                auto r = src.p->Deserialize(t.Coin() ? arrow::int32() : arrow::list(arrow::float64()), "{}");
                VF_CHECK(!r.ok() && r.status().IsInvalid(), "%s over other storage: %s", src.m.Ext().c_str(), r.status().ToString().c_str());
                break;
              }
            }
            break;
          }
          case 4: {
            int gt = t.Chance(1, 8) ? GEOARROW_GEOMETRY_TYPE_BOX : (int)t.Below(7);
            bool ok = Valid(gt, src.m.dims, src.m.ct);
            auto r = src.p->WithGeometryType((enum GeoArrowGeometryType)gt);
            if (!got(r, ok, "WithGeometryType")) break;
            M n = MakeM(gt, src.m.dims, src.m.ct);
            n.edges = src.m.edges, n.crs_type = src.m.crs_type, n.crs = src.m.crs;
            put(usual(*r, n));
            break;
          }
          case 5: {
            int ct = (int)t.Below(3);
            bool ok = Valid(src.m.gt, src.m.dims, ct);
            auto r = src.p->WithCoordType((enum GeoArrowCoordType)ct);
            if (!got(r, ok, "WithCoordType")) break;
            M n = MakeM(src.m.gt, src.m.dims, ct);
            n.edges = src.m.edges, n.crs_type = src.m.crs_type, n.crs = src.m.crs;
            put(usual(*r, n));
            break;
          }
          case 6: {
            int dims = (int)t.Below(5);
            bool ok = Valid(src.m.gt, dims, src.m.ct);
            auto r = src.p->WithDimensions((enum GeoArrowDimensions)dims);
            if (!got(r, ok, "WithDimensions")) break;
            M n = MakeM(src.m.gt, dims, src.m.ct);
            n.edges = src.m.edges, n.crs_type = src.m.crs_type, n.crs = src.m.crs;
            put(usual(*r, n));
            break;
          }
          case 7: {
            M m = src.m;
            m.edges = (int)t.Below(6);
            auto r = src.p->WithEdgeType((enum GeoArrowEdgeType)m.edges);
            if (got(r, true, "WithEdgeType")) put(Item{*r, m, src.storage});
            break;
          }
          case 8: {
            M m = src.m;
            m.crs_type = 1 + (int)t.Below(5);
            m.crs = GenText(t, 40);
            if (m.crs.empty()) m.crs = "x";
            // Text that starts as an object or a string would is taken as JSON
            if (m.crs[0] == '{' || m.crs[0] == '"') m.crs = "crs" + m.crs;
            for (auto& x : m.crs)
              if (x == '\\' || x == '"') x = '_';
            arrow::Result<Ptr> r = m.crs_type == 1 && t.Coin() ? src.p->WithCrs(m.crs) : src.p->WithCrs(m.crs, (enum GeoArrowCrsType)m.crs_type);
            if (got(r, true, "WithCrs")) put(Item{*r, m, src.storage});
            break;
          }
          case 9: {  // other names of the fields of lists
            M m = src.m;
            std::shared_ptr<arrow::DataType> st = src.storage;
            if (m.gt >= LS && m.gt <= MPG) {
              auto* l = (const arrow::BaseListType*)st.get();
              st = arrow::list(arrow::field("other", l->value_type(), t.Coin()));
            }
            std::string meta = GenMeta(t, &m);
            auto r = src.p->Deserialize(st, meta);
            VF_CHECK(r.ok(), "Deserialize: %s", r.status().ToString().c_str());
            put(Item{std::dynamic_pointer_cast<ExtType>(r.ValueUnsafe()), m, st});
            break;
          }
          case 10: {
            const Item& o = pool[t.Below(pool.size())];
            bool eq = SameM(src.m, o.m);
            // The same CRS string with and without escapes: unspecified
            std::string sa = src.p->Serialize(), sb = o.p->Serialize();
            if (eq && sa != sb && (sa + sb).find('\\') != std::string::npos) {
              c.label("another spelling");
              VF_CHECK(src.p->Equals(*o.p) == o.p->Equals(*src.p), "Equals is not symmetric");
              break;
            }
            if (src.storage->Equals(*o.storage) == StorageOf(src.m.id)->Equals(*StorageOf(o.m.id)))
              VF_CHECK(src.p->Equals(*o.p) == eq, "%s and %s: Equals gives %d", src.p->ToString().c_str(), o.p->ToString().c_str(), !eq);
            VF_CHECK(src.p->Equals(*o.p) == o.p->Equals(*src.p), "Equals is not symmetric");
            break;
          }
          case 11: Trip(t, src, registered); break;
          case 12: Column(c, src); break;
          default: CheckItem(t, src, true); break;
        }
      } catch (const geoarrow::Exception& e) {
        fail("op %d on %s throws: %s", op, src.m.Str(40).c_str(), e.what());
      }
      for (auto& x : pool) CheckItem(t, x, false);  // no change reaches another
    }
    c.label(registered ? "registered" : "not registered");
    for (auto& x : pool) c.label(x.m.Ext());
    if (steps >= 4) {
      for (auto& x : pool) key += strf("|%d %d %d", x.m.id, x.m.edges, x.m.crs_type);
      c.nontrivial(key);
    }
  }
  live.Check("arrow types");
}

VF_PROP("C29", Run,
        "histories of making, changing, deserializing, comparing, exporting and importing several Arrow C++ extension types of "
        "every id with random metadata, each compared with its model after every step, and columns of them. Non-trivial: at "
        "least four steps")
