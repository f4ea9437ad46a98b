// C28: arrays that don't have the layout of their type
#include "geoarrow/geoarrow.hpp"
#include "kernel_util.h"
using namespace vf;

// A node of an array and how many buffers and children its layout has
struct Node {
  struct ArrowArray* a;
  int buffers, children;
  const char* role;
};

static void Nodes(struct ArrowArray* a, int type, std::vector<Node>* out) {
  if (type >= GEOARROW_TYPE_WKB) {
    bool view = type == GEOARROW_TYPE_WKB_VIEW || type == GEOARROW_TYPE_WKT_VIEW;
    out->push_back({a, view ? -3 : 3, -1, "serialized"});  // at least 3
    return;
  }
  int gt = type % 1000, dims = (type % 10000) / 1000 + 1, nd = NDim(dims);
  if (gt == 990) {
    out->push_back({a, 1, 2 * nd, "box"});
    for (int i = 0; i < 2 * nd; i++) out->push_back({a->children[i], 2, -1, "bound"});
    return;
  }
  for (int k = 0; k < NativeLevels(gt); k++) {
    out->push_back({a, 2, 1, "list"});
    a = a->children[0];
  }
  bool separate = type < 10000;
  out->push_back({a, 1, separate ? nd : 1, separate ? "struct" : "fixed-size list"});
  for (int i = 0; i < (separate ? nd : 1); i++) out->push_back({a->children[i], 2, -1, "ordinates"});
}

// Replaces buffers or children by exactly n of them until it goes away
struct Change {
  struct ArrowArray* a;
  int64_t nb, nc;
  const void** b;
  struct ArrowArray** ch;
  void* mem = nullptr;
  struct ArrowArray spare;
  double filler[8] = {};
  explicit Change(struct ArrowArray* x) : a(x), nb(x->n_buffers), nc(x->n_children), b(x->buffers), ch(x->children) {
    memset(&spare, 0, sizeof spare);
  }
  ~Change() {
    a->n_buffers = nb, a->n_children = nc, a->buffers = b, a->children = ch;
    free(mem);
  }
  Change(const Change&) = delete;
  void Buffers(int64_t n, bool null) {
    auto** p = (const void**)(mem = malloc((size_t)n * 8));
    for (int64_t i = 0; i < n; i++) p[i] = i < nb ? b[i] : (const void*)filler;
    a->n_buffers = n, a->buffers = n == 0 && null ? nullptr : p;
  }
  void Children(int64_t n, bool null) {
    auto** p = (struct ArrowArray**)(mem = malloc((size_t)n * 8));
    if (nc) spare = *ch[0];
    for (int64_t i = 0; i < n; i++) p[i] = i < nc ? ch[i] : &spare;
    a->n_children = n, a->children = n == 0 && null ? nullptr : p;
  }
};

static std::vector<Feat> Rows(const std::vector<Feat>& f, int type) {
  std::vector<Feat> w;
  for (auto& x : f) w.push_back(Carried(x, type));
  return w;
}

using namespace geoarrow;
template <class A>
static int TryInit(const struct GeoArrowArrayView* v) {
  A a;
  return a.Init(v);
}
template <class C>
static int TryInit(int gt, const struct GeoArrowArrayView* v) {
  using namespace array_util;
  switch (gt) {
    case 1: return TryInit<PointArray<C>>(v);
    case 2: return TryInit<LinestringArray<C>>(v);
    case 3: return TryInit<PolygonArray<C>>(v);
    case 4: return TryInit<MultipointArray<C>>(v);
    case 5: return TryInit<MultiLinestringArray<C>>(v);
    default: return TryInit<MultiPolygonArray<C>>(v);
  }
}

// Classes of arrays over views of other types
static void RunClasses(Ctx& c) {
  Tape& t = c.t;
  int gt = (int)t.Range(1, 6), dims = (int)t.Range(1, 4), ct = (int)t.Range(1, 2);
  struct GeoArrowArrayView v;
  bool ser = t.Chance(1, 6);
  int type = ser ? (t.Coin() ? GEOARROW_TYPE_WKB : GEOARROW_TYPE_WKT) : MakeT(gt, dims, ct);
  VF_CHECK(GeoArrowArrayViewInitFromType(&v, (enum GeoArrowType)type) == 0, "init");
  std::vector<Feat> feats;
  std::unique_ptr<SourceColumn> col;
  if (t.Coin()) {
    GenOpt o;
    o.types = {gt};
    o.dims = dims;
    o.empty_point_members = false;
    o.max_depth = 2;
    feats = GenFeats(t, o, 4);
    col.reset(new SourceColumn(t, type, feats));
    VF_CHECK(GeoArrowArrayViewSetArray(&v, &col->arr->a, nullptr) == 0, "SetArray");
  }
  for (int g = 1; g <= 6; g++)
    for (int d = 1; d <= 4; d++) {
      int rc = d == 1 ? TryInit<array_util::XY<double>>(g, &v) : d == 2 ? TryInit<array_util::XYZ<double>>(g, &v)
             : d == 3 ? TryInit<array_util::XYM<double>>(g, &v) : TryInit<array_util::XYZM<double>>(g, &v);
      bool fits = !ser && NativeLevels(g) == NativeLevels(gt) && NDim(d) <= NDim(dims);
      VF_CHECK(fits ? rc == 0 : rc == EINVAL, "array of %s %s over a view of type %d: %d", TypeName(g), DimName(d), type, rc);
    }
  c.label("array classes");
  c.nontrivial(strf("classes %d %zu", type, feats.size()));
}

static void Run(Ctx& c) {
  Tape& t = c.t;
  Live live;
  if (t.Chance(1, 16)) {
    RunClasses(c);
    live.Check("array classes");
    return;
  }
  {
    GenOpt o;
    o.max_coords = 5;
    o.long_seqs = false;
    o.max_depth = 2;
    int type;
    std::vector<Feat> feats;
    std::unique_ptr<RefArray> box;
    std::unique_ptr<SourceColumn> col;
    struct ArrowArray* arr;
    std::vector<Feat> want;
    if (t.Chance(1, 6)) {
      int dims = (int)t.Range(1, 4);
      type = GEOARROW_TYPE_BOX + (dims - 1) * 1000;
      int n = t.Small(4);
      std::vector<std::vector<double>> rows;
      std::vector<bool> nulls;
      for (int i = 0; i < n; i++) {
        std::vector<double> r(2 * NDim(dims));
        for (size_t k = 0; k < r.size(); k++) r[k] = (double)k;
        rows.push_back(r);
        nulls.push_back(t.Chance(1, 4));
      }
      NativeOpt no;
      box = BuildBox(t, (enum GeoArrowType)type, rows, nulls, no);
      arr = &box->a;
    } else {
      type = PickSource(t, &o);
      feats = GenFeats(t, o, 4);
      col.reset(new SourceColumn(t, type, feats));
      arr = &col->arr->a;
      want = Rows(feats, type);
    }
    std::vector<Node> nodes;
    Nodes(arr, type, &nodes);
    c.note(strf("type %d, %lld rows", type, (long long)arr->length));

    struct GeoArrowArrayReader ar;
    VF_CHECK(GeoArrowArrayReaderInitFromType(&ar, (enum GeoArrowType)type) == 0, "init");
    struct Guard {
      struct GeoArrowArrayReader* r;
      ~Guard() { GeoArrowArrayReaderReset(r); }
    } guard{&ar};
    struct GeoArrowArrayView view;
    bool has_view = GeoArrowArrayViewInitFromType(&view, (enum GeoArrowType)type) == 0;
    bool arrow = type == GEOARROW_TYPE_LARGE_WKB || type == GEOARROW_TYPE_WKB_VIEW || type == GEOARROW_TYPE_LARGE_WKT ||
                 type == GEOARROW_TYPE_WKT_VIEW;
    // A kernel that looks at its input
    static const char* kKernels[] = {"format_wkt", "unique_geometry_types_agg", "visit_void_agg", "box", "box_agg", "as_geoarrow"};
    const char* kname = kKernels[t.Below(6)];
    bool agg = strstr(kname, "agg") != nullptr;
    KernelHolder kern(kname);
    SchemaHolder in_schema, kout;
    VF_CHECK(GeoArrowSchemaInitExtension(&in_schema.s, (enum GeoArrowType)type) == 0, "schema");
    bool has_kernel = true;
    {
      std::vector<std::pair<std::string, std::string>> opts;
      if (!strcmp(kname, "as_geoarrow")) opts = {{"type", std::to_string(GEOARROW_TYPE_WKB)}};
      has_kernel = kern.TryStart(&in_schema.s, opts, &kout.s) == 0;
    }
    auto good = [&](const char* when) {
      struct GeoArrowError e;
      e.message[0] = 0;
      int rc = GeoArrowArrayReaderSetArray(&ar, arr, &e);
      VF_CHECK(rc == 0, "a good array %s: %d %s", when, rc, e.message);
      if (!box) {
        Recorder rec;
        rc = GeoArrowArrayReaderVisit(&ar, 0, arr->length, &rec.v);
        VF_CHECK(rc == 0, "visit %s: %d %s", when, rc, rec.error.message);
        CheckRecorder(rec, "visit");
        std::string why;
        VF_CHECK(SameFeats(rec.feats, want, &why), "%s: %s", when, why.c_str());
      }
      if (has_view && !arrow) {
        rc = GeoArrowArrayViewSetArray(&view, arr, t.Coin() ? &e : nullptr);
        VF_CHECK(rc == 0, "a good array viewed %s: %d", when, rc);
        VF_CHECK(view.length[0] == arr->length && view.offset[0] == arr->offset, "length and offset %s", when);
        if (!box && !IsSerialized(type)) {
          Recorder rec;
          rc = GeoArrowArrayViewVisitNative(&view, 0, arr->length, &rec.v);
          VF_CHECK(rc == 0, "visit of the view %s: %d", when, rc);
          std::string why;
          VF_CHECK(SameFeats(rec.feats, want, &why), "view %s: %s", when, why.c_str());
        }
      }
    };
    if (t.Coin()) good("at first");
    std::string key = strf("%d %s:", type, kname);
    int tries = 1 + t.Small(3);
    for (int k = 0; k < tries; k++) {
      Node nd = nodes[t.Below(nodes.size())];
      bool children = nd.children >= 0 && t.Coin();
      int64_t right = children ? nd.children : nd.buffers;
      int64_t n = right;
      bool at_least = right < 0;
      if (at_least) right = -right;
      for (int i = 0; i < 4 && (n == right || n < 0 || (at_least && n >= right)); i++)
        n = at_least ? (int64_t)t.Below((uint64_t)right) : t.Chance(1, 6) ? t.Range(0, 40) : right + t.Range(-3, 3);
      if (n == right || n < 0 || (at_least && n >= right)) n = 0;
      std::string what = strf("%s with %lld %s instead of %lld", nd.role, (long long)n, children ? "children" : "buffers", (long long)right);
      c.note(what);
      {
        Change ch(nd.a);
        if (children)
          ch.Children(n, t.Coin());
        else
          ch.Buffers(n, t.Coin());
        struct GeoArrowError e;
        e.message[0] = 0;
        int rc = GeoArrowArrayReaderSetArray(&ar, arr, &e);
        VF_CHECK(rc != 0, "the reader takes a %s", what.c_str());
        VF_CHECK(e.message[0], "no message about a %s", what.c_str());
        VF_CHECK(GeoArrowArrayReaderSetArray(&ar, arr, nullptr) == rc, "another code without an error");
        if (has_view && !arrow) {
          e.message[0] = 0;
          struct GeoArrowArrayView before;
          memcpy(&before, &view, sizeof view);
          rc = GeoArrowArrayViewSetArray(&view, arr, &e);
          VF_CHECK(rc == EINVAL, "the view takes a %s: %d", what.c_str(), rc);
          VF_CHECK(e.message[0], "no message about a %s", what.c_str());
          VF_CHECK(GeoArrowArrayViewSetArray(&view, arr, nullptr) == EINVAL, "another code without an error");
          VF_CHECK(!memcmp(&before, &view, sizeof view), "the view was changed by a %s it refused", what.c_str());
        }
        if (t.Coin()) {
          geoarrow::ArrayReader reader((enum GeoArrowType)type);
          bool thrown = false;
          std::string msg;
          try {
            reader.SetArrayNonOwning(arr);
          } catch (const ::geoarrow::Exception& x) {
            thrown = true;
            msg = x.what();
          }
          VF_CHECK(thrown, "the C++ reader takes a %s", what.c_str());
          VF_CHECK(!msg.empty(), "an empty what()");
        }
        if (has_kernel) {
          ArrayHolder out;
          kern.err.message[0] = 0;
          rc = kern.k.push_batch(&kern.k, arr, agg ? nullptr : &out.a, &kern.err);
          VF_CHECK(rc != 0, "%s takes a %s", kname, what.c_str());
          VF_CHECK(kern.err.message[0], "%s says nothing about a %s", kname, what.c_str());
          VF_CHECK(!out.a.release, "%s gives an output for a %s", kname, what.c_str());
        }
      }
      c.label(nd.role);
      c.label(children ? "children" : "buffers");
      key += what;
      if (t.Coin()) good("after a bad one");
    }
    good("at last");
    if (has_kernel && !box) {
      ArrayHolder out;
      kern.err.message[0] = 0;
      int rc = kern.k.push_batch(&kern.k, arr, agg ? nullptr : &out.a, &kern.err);
      VF_CHECK(rc == 0, "%s afterwards: %d %s", kname, rc, kern.err.message);
      VF_CHECK(agg || out.a.length == arr->length, "%s: %lld rows afterwards", kname, (long long)out.a.length);
    }
    c.nontrivial(key);
  }
  live.Check("bad arrays");
}

VF_PROP("C28", Run,
    "well-formed arrays of every type and slicing with the number of buffers or children changed at one node (in exactly sized "
    "lists of pointers), given to readers, views, C++ readers and kernels, with well-formed ones in between; C++ array classes "
    "over views of every other type. Non-trivial: every case that changed a node")
