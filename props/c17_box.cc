// C17: bounding box kernels
#include "kernel_util.h"
#include "meta_util.h"
using namespace vf;

struct B {
  double v[4] = {INFINITY, INFINITY, -INFINITY, -INFINITY};
  void Add(const C4& c) {
    for (int j = 0; j < 2; j++) {
      if (c[j] < v[j]) v[j] = c[j];
      if (c[j] > v[2 + j]) v[2 + j] = c[j];
    }
  }
  void Add(const G& g) {
    for (auto& c : g.coords) Add(c);
    for (auto& r : g.rings)
      for (auto& c : r) Add(c);
    for (auto& k : g.kids) Add(k);
  }
};

// Reads a box array from its buffers
static void ReadBox(const struct ArrowArray* a, std::vector<B>* out, std::vector<bool>* nulls) {
  VF_CHECK(a->release && a->n_buffers == 1 && a->n_children == 4 && !a->dictionary, "not a struct of 4");
  VF_CHECK(a->length >= 0 && a->offset >= 0, "length");
  const uint8_t* bits = (const uint8_t*)a->buffers[0];
  int64_t nn = 0;
  for (int64_t i = 0; i < a->length; i++) {
    int64_t k = i + a->offset;
    bool null = bits && !(bits[k / 8] >> (k % 8) & 1);
    nulls->push_back(null);
    nn += null;
    B b;
    for (int j = 0; j < 4; j++) {
      const struct ArrowArray* c = a->children[j];
      VF_CHECK(c->n_buffers == 2 && c->null_count == 0 && c->length >= a->offset + a->length,
               "child %d: length %lld, null count %lld", j, (long long)c->length, (long long)c->null_count);
      b.v[j] = ((const double*)c->buffers[1])[k + c->offset];
    }
    out->push_back(b);
  }
  VF_CHECK(a->null_count == nn || a->null_count == -1, "null count %lld, not %lld", (long long)a->null_count,
           (long long)nn);
  for (int j = 0; j < 4; j++) VF_CHECK(a->children[j]->length == a->length, "child %d: length", j);
}

static bool Same(const B& a, const B& b) {
  for (int j = 0; j < 4; j++)
    if (!(a.v[j] == b.v[j])) return false;
  return true;
}
static std::string Str(const B& b) {
  return strf("(%s %s %s %s)", Dbl(b.v[0]).c_str(), Dbl(b.v[1]).c_str(), Dbl(b.v[2]).c_str(),
              Dbl(b.v[3]).c_str());
}

static void Run(Ctx& c) {
  Tape& t = c.t;
  Live live;
  {
    GenOpt o;
    o.huge = true;
    o.ordinates = (int)t.Below(2) * 2;
    bool boxes = t.Chance(1, 10);
    int type = boxes ? (int)GEOARROW_TYPE_BOX : PickSource(t, &o);
    bool agg = t.Coin();
    c.note(strf("%s of type %d", agg ? "box_agg" : "box", type));
    // metadata travels; other than planar edges is refused
    static const char* kMeta[] = {"{}", "{\"crs\":\"EPSG:4326\"}", "{\"edges\":\"planar\",\"crs\":\"a\\\"b\"}",
                                  "{\"crs\":{\"a\":[1,\"}\"]},\"crs_type\":\"projjson\"}",
                                  "{\"edges\":\"spherical\"}", "{\"crs\":\"x\",\"edges\":\"karney\"}"};
    int mk = t.Chance(1, 8) ? 4 + (int)t.Below(2) : (int)t.Below(4);
    SchemaHolder is, os;
    VF_CHECK(GeoArrowSchemaInitExtension(&is.s, (enum GeoArrowType)type) == 0, "schema");
    auto kv = ReadSchemaMetadata(is.s.metadata);
    for (auto& x : kv)
      if (x.first == "ARROW:extension:metadata") x.second = kMeta[mk];
    SetSchemaMetadata(&is.s, kv);
    KernelHolder k(agg ? "box_agg" : "box");
    if (mk >= 4) {
      int rc = k.TryStart(&is.s, {}, &os.s);
      VF_CHECK(rc != 0, "planar bounds of other than planar edges");
      VF_CHECK(k.err.message[0], "no message");
      c.label("other than planar edges");
      return;
    }
    k.Start(&is.s, {}, &os.s);
    struct GeoArrowSchemaView sv;
    struct GeoArrowMetadataView a, b;
    VF_CHECK(GeoArrowSchemaViewInit(&sv, &os.s, nullptr) == 0 && sv.type == GEOARROW_TYPE_BOX,
             "the output is not a box");
    VF_CHECK(GeoArrowMetadataViewInit(&b, sv.extension_metadata, nullptr) == 0, "output metadata");
    struct GeoArrowStringView ms{kMeta[mk], (int64_t)strlen(kMeta[mk])};
    VF_CHECK(GeoArrowMetadataViewInit(&a, ms, nullptr) == 0, "metadata");
    VF_CHECK(a.crs_type == b.crs_type && a.edge_type == b.edge_type &&
                 std::string(a.crs.data ? a.crs.data : "", (size_t)a.crs.size_bytes) ==
                     std::string(b.crs.data ? b.crs.data : "", (size_t)b.crs.size_bytes),
             "CRS or edges of the box differ from the input's");
    B total;
    int batches = t.Chance(1, 12) ? 0 : GenBatches(t, 3);
    bool nt = false;
    std::string key = strf("%d%d", type, agg);
    for (int i = 0; i < batches; i++) {
      std::vector<B> want;
      std::vector<bool> nulls;
      ArrayHolder out;
      std::unique_ptr<RefArray> keep;
      std::unique_ptr<SourceColumn> col;
      struct ArrowArray* in;
      if (boxes) {
        int n = t.Small(8);
        std::vector<std::vector<double>> rows;
        for (int r = 0; r < n; r++) {
          std::vector<double> row;
          for (int j = 0; j < 4; j++) row.push_back(GenOrdinate(t, 3));
          if (row[0] > row[2] && t.Chance(3, 4)) std::swap(row[0], row[2]);
          if (row[1] > row[3] && t.Chance(3, 4)) std::swap(row[1], row[3]);
          rows.push_back(row);
          nulls.push_back(t.Chance(1, 5));
          B w;
          if (!nulls.back() && row[0] <= row[2] && row[1] <= row[3])
            w.Add(C4{row[0], row[1]}), w.Add(C4{row[2], row[3]});
          want.push_back(w);
        }
        NativeOpt no;
        keep = BuildBox(t, GEOARROW_TYPE_BOX, rows, nulls, no);
        in = &keep->a;
        nt |= n > 1;
        key += strf("box%d", n);
      } else {
        auto feats = GenFeats(t, o, 10, t.Coin() ? 15 : 0);
        c.note(ShowFeats(feats, 3));
        for (auto& f : feats) {
          nulls.push_back(f.null);
          B w;
          if (!f.null) w.Add(f.g), nt |= CoordCount(f.g) > 1;
          want.push_back(w);
        }
        key += FeatsKey(feats);
        col.reset(new SourceColumn(t, type, feats));
        in = &col->arr->a;
      }
      for (size_t r = 0; r < want.size(); r++)
        if (!nulls[r])
          for (int j = 0; j < 2; j++) {
            total.v[j] = std::min(total.v[j], want[r].v[j]);
            total.v[2 + j] = std::max(total.v[2 + j], want[r].v[2 + j]);
          }
      k.Push(in, agg ? nullptr : &out.a);
      if (!agg) {
        std::vector<B> got;
        std::vector<bool> got_nulls;
        ReadBox(&out.a, &got, &got_nulls);
        VF_CHECK(got.size() == want.size(), "%zu boxes for %zu features", got.size(), want.size());
        VF_CHECK(got_nulls == nulls, "null rows differ");
        for (size_t r = 0; r < got.size(); r++)
          VF_CHECK(nulls[r] || Same(got[r], want[r]), "row %zu: %s, not %s", r, Str(got[r]).c_str(),
                   Str(want[r]).c_str());
      }
    }
    if (agg) {
      ArrayHolder out;
      k.Finish(&out.a);
      std::vector<B> got;
      std::vector<bool> got_nulls;
      ReadBox(&out.a, &got, &got_nulls);
      VF_CHECK(got.size() == 1 && !got_nulls[0], "%zu rows", got.size());
      VF_CHECK(Same(got[0], total), "%s, not %s", Str(got[0]).c_str(), Str(total).c_str());
    } else {
      k.FinishNone();
    }
    c.label(strf("%s of %s", agg ? "box_agg" : "box",
                 boxes ? "boxes" : IsWktType(type) ? "WKT" : IsSerialized(type) ? "WKB" : "native"));
    if (nt) c.nontrivial(key);
  }
  live.Check("box kernels");
}

VF_PROP("C17", Run,
        "random columns (WKB, WKT, native, boxes; offsets, nulls, empties, NaN and infinite ordinates) in "
        "several batches; every box compared with the minima and maxima of the model's ordinates. "
        "Non-trivial: a feature with several coordinates or several boxes")
