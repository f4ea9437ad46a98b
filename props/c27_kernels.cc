// C27: what a kernel does over a history of calls
#include "kernel_util.h"
#include "meta_util.h"
using namespace vf;

enum Kind { VOID, VOID_AGG, VISIT, FORMAT, AS, UNIQUE, BOXK, BOXAGG };
static const char* kNames[] = {"void", "void_agg", "visit_void_agg", "format_wkt", "as_geoarrow", "unique_geometry_types_agg", "box", "box_agg"};
static bool IsAgg(int k) { return k == VOID_AGG || k == VISIT || k == UNIQUE || k == BOXAGG; }

// A schema that owns nothing
static void InitSchema(struct ArrowSchema* s, const char* format) {
  memset(s, 0, sizeof *s);
  s->format = format;
  s->name = "";
  s->release = [](struct ArrowSchema* x) { x->release = nullptr; };
}

using Opts = std::vector<std::pair<std::string, std::string>>;

// One string per row of an output
static std::vector<std::string> Rows(const struct ArrowArray* a, const struct ArrowSchema* s) {
  std::vector<std::string> out;
  std::string f = s->format ? s->format : "";
  if (f == "n") {
    VF_CHECK(a->n_buffers == 0 && a->n_children == 0 && a->null_count == a->length, "not a null array");
    out.assign((size_t)a->length, "N");
    return out;
  }
  if (f == "i") {
    for (int64_t i = 0; i < a->length; i++) out.push_back(std::to_string(((const int32_t*)a->buffers[1])[a->offset + i]));
    return out;
  }
  if (f == "u" || f == "z") {
    for (auto& x : ReadBinary(a, false)) out.push_back(x.null ? "N" : "V" + x.value);
    return out;
  }
  struct GeoArrowSchemaView sv;
  VF_CHECK(GeoArrowSchemaViewInit(&sv, s, nullptr) == 0, "an output of unknown type %s", f.c_str());
  if (sv.geometry_type == GEOARROW_GEOMETRY_TYPE_BOX) {
    const uint8_t* v = (const uint8_t*)a->buffers[0];
    VF_CHECK(a->n_children == 4, "%lld children", (long long)a->n_children);
    for (int64_t i = 0; i < a->length; i++) {
      if (v && !(v[i / 8] >> (i % 8) & 1)) {
        out.push_back("N");
        continue;
      }
      std::string r = "V";
      for (int j = 0; j < 4; j++) r += Dbl(((const double*)a->children[j]->buffers[1])[i]) + ",";
      out.push_back(r);
    }
    return out;
  }
  for (auto& x : ReadNative(a, sv.type)) out.push_back(Show(x));
  return out;
}

struct Machine {
  int kind, type, target = 0;
  GenOpt o;
  Opts opts;
  KernelHolder k;
  SchemaHolder in, out;
  std::vector<std::vector<Feat>> batches;  // pushed since start
  std::vector<std::string> rows;           // what came out of them
  bool started = false, unspecified = false;
  Machine(Tape& t, int kd) : kind(kd), k(kNames[kd]) {
    if (kind == AS) o.dims = (int)t.Range(1, 4), o.types = {(int)t.Range(1, 6)};
    if (kind == AS) target = t.Chance(1, 3) ? (t.Coin() ? GEOARROW_TYPE_WKT : GEOARROW_TYPE_WKB) : MakeT(o.types[0], o.dims, (int)t.Range(1, 2));
    Input(t, false);
  }
  // What the kernel is to be started with
  void Input(Tape& t, bool again) {
    if (again) o = GenOpt(), opts.clear(), in.Release();
    if (kind == BOXK || kind == BOXAGG) o.ordinates = 2;
    type = PickSource(t, &o);
    if (kind == AS) opts.push_back({"type", std::to_string(target)});
    // Whether a start resets an option it does not name is not specified
    if (kind == FORMAT && (again || t.Coin())) opts.push_back({"precision", std::to_string(t.Range(0, 16))});
    if (kind == FORMAT && (again || t.Coin())) opts.push_back({"max_element_size_bytes", std::to_string(t.Range(0, 60))});
    if (t.Chance(1, 4)) opts.push_back({"something_else", "1"});
    VF_CHECK(GeoArrowSchemaInitExtension(&in.s, (enum GeoArrowType)type) == 0, "schema");
  }
};

static void Msg(Machine& m, int rc, const char* what) {
  VF_CHECK(rc >= 0, "%s: negative code %d", what, rc);
  if (rc) VF_CHECK(memchr(m.k.err.message, 0, sizeof m.k.err.message) != nullptr, "%s: message not terminated", what);
}

static void Start(Ctx& c, Machine& m) {
  Tape& t = c.t;
  int bad = t.Chance(1, 4) ? 1 + (int)t.Below(5) : 0;
  bool again = !bad && m.started && (m.kind == FORMAT || m.kind == BOXK) && t.Coin();
  if (again) m.Input(t, true);
  SchemaHolder out;
  SchemaHolder other;
  const struct ArrowSchema* s = &m.in.s;
  Opts opts = m.opts;
  bool fails = false;
  bool visitor = m.kind != VOID && m.kind != VOID_AGG;
  if (bad == 1) {  // not a geometry
    static const char* kf[] = {"i", "+s", "+l", "g", "bogus", ""};
    InitSchema(&other.s, kf[t.Below(6)]);
    s = &other.s, fails = visitor;
  } else if (bad == 2 && m.kind == AS) {  // no type
    opts.clear();
    if (t.Coin()) opts.push_back({"typ", "1"});
    fails = true;
  } else if (bad == 3 && m.kind == AS) {
    static const char* kv[] = {"0", "-1", "8", "123456", "", "x", "9999999999999999999", "5001", "990", "3990", "100002", "100006"};
    opts = {{"type", kv[t.Below(12)]}};
    fails = true;
  } else if (bad == 4) {  // a released schema
    other.s.release = nullptr;
    s = &other.s, fails = visitor;
  } else if (bad == 5 && (m.kind == BOXK || m.kind == BOXAGG || (m.kind == AS && m.started))) {
    // A type that could be read, but not in this kernel (any more)
    GenOpt o;
    int type = PickSource(t, &o);
    VF_CHECK(GeoArrowSchemaInitExtension(&other.s, (enum GeoArrowType)type) == 0, "schema");
    struct GeoArrowMetadataView mv;
    VF_CHECK(GeoArrowMetadataViewInit(&mv, {nullptr, 0}, nullptr) == 0, "metadata");
    mv.edge_type = (enum GeoArrowEdgeType)t.Range(1, 5);
    VF_CHECK(GeoArrowSchemaSetMetadata(&other.s, &mv) == 0, "metadata");
    c.note(strf("type %d", type));
    s = &other.s, fails = true;
    m.k.err.message[0] = 0;
  }
  c.note(strf("%s start%s", kNames[m.kind], fails ? " badly" : ""));
  int rc = m.k.TryStart((struct ArrowSchema*)s, opts, &out.s);
  Msg(m, rc, "start");
  if (rc) VF_CHECK(!out.s.release, "a failed start with an output schema");
  if (fails) {
    if (bad == 5) VF_CHECK(rc && m.k.err.message[0], "a start that cannot be: %d, %s", rc, Quote(m.k.err.message).c_str());
    VF_CHECK(rc != 0, "start accepts %s", bad == 1 ? "what is not a geometry" : bad == 4 ? "a released schema" : "a missing or invalid type");
    c.label("bad start");
    return;
  }
  if (again) {
    VF_CHECK(rc == 0, "second start: %d %s", rc, m.k.err.message);
    c.note(strf("now of type %d", m.type));
    c.label("second start with another type");
    m.out.Release();
    m.out.s = out.s;
    out.s.release = nullptr;
    m.batches.clear(), m.rows.clear();
    return;
  }
  if (m.started) {
    c.label("second start");
    if (m.kind == AS) VF_CHECK(rc == EINVAL && m.k.err.message[0], "a second start of as_geoarrow: %d %s", rc, m.k.err.message);
    // What becomes of the batches pushed before is not specified
    if (IsAgg(m.kind)) m.unspecified = true;
    return;
  }
  VF_CHECK(rc == 0, "start: %d %s", rc, m.k.err.message);
  VF_CHECK(out.s.release && out.s.format, "no output schema");
  m.out.Release();
  m.out.s = out.s;
  out.s.release = nullptr;
  m.started = true;
}

// The rows a fresh kernel gives for one batch of everything
static std::vector<std::string> Fresh(Tape& t, Machine& m, const std::vector<Feat>& feats) {
  KernelHolder k(kNames[m.kind]);
  SchemaHolder os;
  k.Start(&m.in.s, m.opts, &os.s);
  SourceColumn col(t, m.type, feats);
  ArrayHolder out;
  k.Push(&col.arr->a, IsAgg(m.kind) ? nullptr : &out.a);
  if (IsAgg(m.kind))
    k.Finish(&out.a);
  else
    k.FinishNone();
  return Rows(&out.a, &os.s);
}

static void Push(Ctx& c, Machine& m) {
  Tape& t = c.t;
  bool agg = IsAgg(m.kind), swapped = t.Chance(1, 8);
  auto feats = GenFeats(t, m.o, 8, t.Coin() ? 20 : 0);
  c.note(strf("%s push %zu%s", kNames[m.kind], feats.size(), swapped ? ", wrong output" : ""));
  SourceColumn col(t, m.type, feats);
  ArrayHolder out;
  bool want_out = agg == swapped;
  m.k.err.message[0] = 0;
  int rc = m.k.k.push_batch(&m.k.k, &col.arr->a, want_out ? &out.a : nullptr, &m.k.err);
  Msg(m, rc, "push_batch");
  if (rc) VF_CHECK(!out.a.release, "a failed batch with an output");
  if (!m.started) {
    VF_CHECK(!out.a.release || m.kind == VOID, "an output from a kernel not started");
    if (!rc && IsAgg(m.kind)) m.unspecified = true;
    c.label("not started");
    return;
  }
  if (swapped) {
    VF_CHECK(!out.a.release, "an aggregate kernel gives an array for a batch");
    if (!agg) VF_CHECK(rc != 0, "a scalar kernel with nowhere to put its result");
    if (agg && !rc) m.batches.push_back(feats);
    if (!agg) m.unspecified = true;
    c.label("wrong output");
    return;
  }
  VF_CHECK(rc == 0 || m.unspecified, "push_batch: %d %s", rc, m.k.err.message);
  if (m.unspecified) return;
  m.batches.push_back(feats);
  if (agg) return;
  VF_CHECK(out.a.release, "no output");
  auto rows = Rows(&out.a, &m.out.s);
  VF_CHECK(rows.size() == feats.size(), "%zu rows for %zu features", rows.size(), feats.size());
  m.rows.insert(m.rows.end(), rows.begin(), rows.end());
}

static void BadBatch(Ctx& c, Machine& m) {
  Tape& t = c.t;
  if (m.type != GEOARROW_TYPE_WKB && m.type != GEOARROW_TYPE_WKT) return;
  if (!m.started) return;
  bool wkt = m.type == GEOARROW_TYPE_WKT;
  std::vector<std::string> items;
  std::vector<bool> nulls;
  GenOpt o = m.o;
  int n = 1 + (int)t.Below(4), at = (int)t.Below((uint64_t)n);
  for (int i = 0; i < n; i++) {
    G g = GenG(t, o);
    WktStyle st;
    std::string s = wkt ? RefWkt(g, st, nullptr, RefNum17, nullptr) : RefWkb(g, WkbOpt());
    if (i == at) s = wkt ? s + "!(" : s.substr(0, t.Below(9));
    if (i == at && wkt && t.Coin()) s = "POINT (x)";
    items.push_back(s);
    nulls.push_back(false);
  }
  NativeOpt no;
  auto arr = BuildBinary(t, 0, items, nulls, no);
  ArrayHolder out;
  c.note(strf("%s push, row %d malformed", kNames[m.kind], at));
  m.k.err.message[0] = 0;
  int rc = m.k.k.push_batch(&m.k.k, &arr->a, IsAgg(m.kind) ? nullptr : &out.a, &m.k.err);
  Msg(m, rc, "push_batch");
  // Two kernels look at no more of a feature than they need
  if (m.kind == VISIT || m.kind == BOXK || m.kind == BOXAGG || m.kind == AS) {
    VF_CHECK(rc != 0, "a malformed row goes unnoticed");
    VF_CHECK(m.k.err.message[0], "no message for a malformed row");
    VF_CHECK(!out.a.release, "a failed batch with an output");
    c.label("malformed row");
  }
  // A kernel is not expected to give results after that
  if (m.kind != VOID && m.kind != VOID_AGG) m.unspecified = true;
  else if (m.kind == VOID) VF_CHECK(out.a.length == n, "%lld rows", (long long)out.a.length);
}

static bool Finish(Ctx& c, Machine& m) {
  Tape& t = c.t;
  bool agg = IsAgg(m.kind), swapped = t.Chance(1, 6);
  c.note(strf("%s finish%s", kNames[m.kind], swapped ? ", wrong output" : ""));
  ArrayHolder out;
  m.k.err.message[0] = 0;
  int rc = m.k.k.finish(&m.k.k, agg != swapped ? &out.a : nullptr, &m.k.err);
  Msg(m, rc, "finish");
  if (rc) VF_CHECK(!out.a.release, "a failed finish with an output");
  if (swapped) {
    VF_CHECK(rc != 0, "finish accepts the wrong output");
    return false;
  }
  if (m.unspecified || !m.started) return false;
  VF_CHECK(rc == 0, "finish: %d %s", rc, m.k.err.message);
  std::vector<Feat> all;
  for (auto& b : m.batches) all.insert(all.end(), b.begin(), b.end());
  std::vector<std::string> rows = agg ? Rows(&out.a, &m.out.s) : m.rows;
  std::vector<std::string> want = Fresh(t, m, all);
  VF_CHECK(rows.size() == want.size(), "%zu rows, a single batch gives %zu", rows.size(), want.size());
  for (size_t i = 0; i < rows.size(); i++)
    VF_CHECK(rows[i] == want[i], "row %zu: %s, a single batch gives %s", i, Quote(rows[i]).c_str(), Quote(want[i]).c_str());
  return m.batches.size() > 1;
}

static void Udf(Ctx& c) {
  Tape& t = c.t;
  struct GeoArrowScalarUdfFactory f;
  memset(&f, 0xA5, sizeof f);
  f.release = nullptr;
  struct GeoArrowError err;
  memset(&err, 0xA5, sizeof err);
  err.message[0] = 0;
  static const char* kn[] = {"void", "", "voi", "void_", "Void", "void_agg", "box", "st_area", "a name that is %s %n rather long"};
  std::string name = kn[t.Coin() ? 0 : t.Below(9)];
  if (t.Chance(1, 20)) name += std::string(2000, 'x');
  c.note("udf " + Quote(name, 60));
  int rc = GeoArrowScalarUdfFactoryInit(&f, name.c_str(), nullptr, t.Coin() ? &err : nullptr);
  VF_CHECK((rc == 0) == (name == "void"), "factory of %s: %d", Quote(name, 60).c_str(), rc);
  if (rc) {
    VF_CHECK(memchr(err.message, 0, sizeof err.message), "message not terminated");
    VF_CHECK(!f.release, "a failed factory with a release callback");
    return;
  }
  std::vector<struct GeoArrowScalarUdf> u((size_t)t.Range(1, 3));
  for (auto& x : u) {
    memset(&x, 0, sizeof x);
    f.new_scalar_udf_impl(&f, &x);
    VF_CHECK(x.init && x.execute && x.release && x.get_last_error, "a missing callback");
  }
  for (int i = (int)t.Below(6); i > 0; i--) {
    auto& x = u[t.Below(u.size())];
    SchemaHolder in, os;
    int type = MakeT((int)t.Range(1, 6), (int)t.Range(1, 4), (int)t.Range(1, 2));
    VF_CHECK(GeoArrowSchemaInitExtension(&in.s, (enum GeoArrowType)type) == 0, "schema");
    const struct ArrowSchema* types[2] = {&in.s, &in.s};
    int64_t na = (int64_t)t.Below(3);
    VF_CHECK(x.init(&x, types, nullptr, na, &os.s) == 0 && os.s.release && !strcmp(os.s.format, "n"), "udf init");
    GenOpt o;
    o.types = {type % 10}, o.dims = type % 10000 / 1000 + 1, o.empty_point_members = false;
    SourceColumn col(t, type, GenFeats(t, o, 5));
    struct ArrowArray* args[2] = {&col.arr->a, &col.arr->a};
    int64_t n = t.Chance(1, 10) ? (int64_t)t.Below(1ull << 40) : col.arr->a.length;
    ArrayHolder out;
    VF_CHECK(x.execute(&x, args, na, n, &out.a) == 0 && out.a.release, "udf execute");
    VF_CHECK(out.a.length == n && out.a.null_count == n && out.a.n_buffers == 0 && out.a.offset == 0, "%lld rows for %lld",
             (long long)out.a.length, (long long)n);
  }
  for (auto& x : u) {
    x.release(&x);
    VF_CHECK(!x.release, "release() leaves the release callback of a function");
  }
  f.release(&f);
  VF_CHECK(!f.release, "release() leaves the release callback of a factory");
  c.label("scalar function");
  c.nontrivial(strf("udf%zu", u.size()));
}

static void Run(Ctx& c) {
  Tape& t = c.t;
  Live live;
  if (t.Chance(1, 10)) {
    Udf(c);
    live.Check("scalar functions");
    return;
  }
  if (t.Chance(1, 30)) {
    struct GeoArrowKernel k;
    memset(&k, 0xA5, sizeof k);
    k.release = nullptr;
    static const char* kn[] = {"", "voi", "void_", "as_wk", "box_ag", "boxx", "format", "VOID"};
    VF_CHECK(GeoArrowKernelInit(&k, kn[t.Below(8)], nullptr) == ENOTSUP && !k.release, "a kernel that does not exist");
    live.Check("unknown kernel");
    c.label("unknown kernel");
    return;
  }
  bool nt = false;
  std::string key;
  {
    std::vector<std::unique_ptr<Machine>> ms;
    int kind = (int)t.Below(8);
    ms.emplace_back(new Machine(t, kind));
    if (t.Coin()) ms.emplace_back(new Machine(t, t.Coin() ? kind : (int)t.Below(8)));
    for (auto& m : ms) {
      c.label(kNames[m->kind]);
      c.note(strf("%s of type %d to %d", kNames[m->kind], m->type, m->target));
      key += strf("%d.%d.%d/", m->kind, m->type, m->target);
      if (!t.Chance(1, 10)) Start(c, *m);
    }
    for (int i = (int)t.Range(1, 14); i > 0; i--) {
      Machine& m = *ms[t.Below(ms.size())];
      size_t op = t.Below(16);
      if (op < 10) Push(c, m);
      else if (op < 13) nt |= Finish(c, m);
      else if (op < 15) Start(c, m);
      else if (t.Chance(1, 2)) BadBatch(c, m);
    }
    for (auto& m : ms) {
      nt |= Finish(c, *m);
      for (auto& b : m->batches) key += FeatsKey(b) + "|";
    }
    for (auto& m : ms) {
      m->k.k.release(&m->k.k);
      VF_CHECK(!m->k.k.release, "release() leaves the release callback of a kernel");
    }
  }
  live.Check("kernels");
  if (nt) c.nontrivial(key);
}

VF_PROP("C27", Run,
        "histories of start, push_batch and finish calls, right and wrong, on one or two interleaved kernels of every kind "
        "and columns of every encoding; scalar functions. Non-trivial: a finished history of several batches, compared "
        "with a fresh kernel given them as one")
