// C14: geometry objects: building, copying, visiting, editing
#include "native_util.h"
using namespace vf;

// One object of the history and what it must hold
struct Slot {
  struct GeoArrowGeometry g;
  bool has = false, null = false;
  G want;
  std::shared_ptr<NodeGeom> keep;            // storage of a shallow copy's coordinates
  std::vector<std::shared_ptr<Exact>> bufs;  // storage of hand-made nodes
  const Slot* from = nullptr;                // slot whose coordinates are borrowed
  Slot() { VF_CHECK(GeoArrowGeometryInit(&g) == 0, "init"); }
  ~Slot() { GeoArrowGeometryReset(&g); }
  Slot(const Slot&) = delete;
};

static void CheckSlot(Slot& s, Tape& t, const char* what) {
  if (!s.has) return;
  struct GeoArrowGeometryView v = GeoArrowGeometryAsView(&s.g);
  if (s.null) {
    VF_CHECK(v.size_nodes == 1 && v.root->size == 0 && v.root->geometry_type == 0,
             "%s: a null feature gave %lld nodes", what, (long long)v.size_nodes);
    return;
  }
  G got;
  std::string why;
  VF_CHECK(GFromNodes(v, &got, nullptr, nullptr, &why), "%s: nodes: %s\n%s", what, why.c_str(),
           Show(s.want).c_str());
  VF_CHECK(SameG(got, s.want, &why), "%s: %s\n%s", what, why.c_str(), Show(s.want).c_str());
  VF_CHECK(GeoArrowGeometryViewNumCoords(v) == CoordCount(s.want), "%s: NumCoords", what);
  Recorder rec;
  int rc = t.Coin() ? GeoArrowGeometryVisit(&s.g, &rec.v) : GeoArrowGeometryViewVisit(v, &rec.v);
  VF_CHECK(rc == 0, "%s: visit: %d %s", what, rc, rec.error.message);
  CheckRecorder(rec, what);
  VF_CHECK(SameFeats(rec.feats, OneFeat(s.want), &why), "%s: visited: %s", what, why.c_str());
}

// Node by node through AppendNode and the Set functions
static void Manual(Slot* s, const G& g, int level, Tape& t, bool inl) {
  struct GeoArrowGeometryNode* n = nullptr;
  auto add = [&]() {
    int rc = inl ? GeoArrowGeometryAppendNodeInline(&s->g, &n) : GeoArrowGeometryAppendNode(&s->g, &n);
    VF_CHECK(rc == 0, "AppendNode: %d", rc);
    for (int j = 0; j < 4; j++)
      VF_CHECK(n->coords[j], "AppendNode leaves coords[%d] NULL", j);
    VF_CHECK(n->size == 0 && n->flags == 0 && n->level == 0 && n->geometry_type == 0,
             "AppendNode leaves the node uninitialized");
  };
  auto seq = [&](const std::vector<C4>& c, int type, int lv) {
    add();
    std::string bytes;
    int nd = NDim(g.dims);
    bool inter = t.Coin();
    if (inter)
      for (auto& x : c) bytes.append((const char*)x.data(), nd * 8);
    else
      for (int j = 0; j < nd; j++)
        for (auto& x : c) bytes.append((const char*)&x[j], 8);
    s->bufs.push_back(std::make_shared<Exact>(bytes));
    (inter ? GeoArrowGeometryNodeSetInterleaved : GeoArrowGeometryNodeSetSeparated)(
        n, (enum GeoArrowGeometryType)type, (enum GeoArrowDimensions)g.dims, s->bufs.back()->View());
    n->level = (uint8_t)lv;
  };
  if (g.type == PT || g.type == LS) {
    seq(g.coords, g.type, level);
    return;
  }
  add();
  n->geometry_type = (uint8_t)g.type;
  n->dimensions = (uint8_t)g.dims;
  n->level = (uint8_t)level;
  n->size = (uint32_t)(g.type == PG ? g.rings.size() : g.kids.size());
  for (auto& r : g.rings) seq(r, LS, level + 1);
  for (auto& k : g.kids) Manual(s, k, level + 1, t, inl);
}

static void Run(Ctx& c) {
  Tape& t = c.t;
  Live live;
  {
    GenOpt o;
    o.huge = true;
    o.mixed_dims = t.Chance(1, 3);
    o.mixed_multi = o.mixed_dims && t.Coin();
    o.max_depth = (int)t.Range(1, 5);
    int n_slots = 2 + (int)t.Below(2);
    std::vector<std::unique_ptr<Slot>> slots;
    for (int i = 0; i < n_slots; i++) slots.emplace_back(new Slot());
    int ops = 2 + t.Small(10);
    bool nt = false;
    std::string key;
    // borrowers of slot s lose their coordinates when s changes
    auto changed = [&](Slot* s) {
      for (auto& x : slots)
        if (x->from == s) x->has = false, x->from = nullptr;
      s->from = nullptr;
      s->keep.reset();
      s->bufs.clear();
    };
    auto resize0 = [&](Slot* s) {
      int rc = t.Coin() ? GeoArrowGeometryResizeNodesInline(&s->g, 0) : GeoArrowGeometryResizeNodes(&s->g, 0);
      VF_CHECK(rc == 0 && s->g.size_nodes == 0, "ResizeNodes(0): %d", rc);
      s->has = false;
    };
    for (int k = 0; k < ops; k++) {
      Slot* s = slots[t.Below(slots.size())].get();
      Slot* d = slots[t.Below(slots.size())].get();
      int op = (int)t.Below(9);
      key += (char)('a' + op);
      switch (op) {
        case 0:
        case 1: {  // build through a visitor
          Feat f;
          f.null = t.Chance(1, 12);
          if (!f.null) f.g = GenG(t, o);
          c.note("build " + Show(f));
          struct GeoArrowVisitor v;
          struct GeoArrowError err;
          err.message[0] = 0;
          GeoArrowVisitorInitVoid(&v);
          GeoArrowGeometryInitVisitor(&s->g, &v);
          v.error = &err;
          changed(s);
          int rc = Emit(f, &v, &t);
          VF_CHECK(rc == 0, "build: %d %s", rc, err.message);
          s->has = true, s->null = f.null, s->want = f.g;
          if (!f.null) key += ShapeKey(f.g);
          c.label("build");
          break;
        }
        case 2:
        case 3: {  // deep copy between objects
          if (s == d || !s->has || d->from == s || s->from == d) break;
          c.note("deep copy");
          changed(d);
          int rc = GeoArrowGeometryDeepCopy(GeoArrowGeometryAsView(&s->g), &d->g);
          VF_CHECK(rc == 0, "deep copy: %d", rc);
          d->has = true, d->null = s->null, d->want = s->want;
          c.label("deep copy");
          nt |= !s->null && CoordCount(s->want) > 1;
          break;
        }
        case 4: {  // shallow copy between objects
          if (s == d || !s->has || s->from || s->keep || d->from == s) break;
          c.note("shallow copy");
          changed(d);
          int rc = GeoArrowGeometryShallowCopy(GeoArrowGeometryAsView(&s->g), &d->g);
          VF_CHECK(rc == 0, "shallow copy: %d", rc);
          d->has = true, d->null = s->null, d->want = s->want, d->from = s;
          c.label("shallow copy");
          break;
        }
        case 5: {  // copy of foreign nodes
          G g = GenG(t, o);
          c.note("copy nodes of " + Show(g));
          auto ng = std::make_shared<NodeGeom>();
          BuildNodes(g, ng.get(), &t);
          changed(s);
          bool deep = t.Coin();
          int rc = deep ? GeoArrowGeometryDeepCopy(ng->View(), &s->g)
                        : GeoArrowGeometryShallowCopy(ng->View(), &s->g);
          VF_CHECK(rc == 0, "copy of nodes: %d", rc);
          if (!deep) s->keep = ng;
          s->has = true, s->null = false, s->want = g;
          key += ShapeKey(g);
          c.label(deep ? "deep copy of nodes" : "shallow copy of nodes");
          nt |= CoordCount(g) > 1;
          break;
        }
        case 6: {  // by hand
          G g = GenG(t, o);
          c.note("append nodes of " + Show(g));
          changed(s);
          resize0(s);
          Manual(s, g, 0, t, t.Coin());
          s->has = true, s->null = false, s->want = g;
          c.label("by hand");
          break;
        }
        case 7: {  // nodes resized and then assigned
          G g = GenG(t, o);
          c.note("resize to the nodes of " + Show(g));
          auto ng = std::make_shared<NodeGeom>();
          BuildNodes(g, ng.get(), &t);
          changed(s);
          int64_t n = (int64_t)ng->nodes.size(), had = 0;
          auto size = [&](int64_t to) {
            int rc = t.Coin() ? GeoArrowGeometryResizeNodesInline(&s->g, to) : GeoArrowGeometryResizeNodes(&s->g, to);
            VF_CHECK(rc == 0, "ResizeNodes(%lld): %d", (long long)to, rc);
            VF_CHECK(s->g.size_nodes == to && s->g.capacity_nodes >= to, "ResizeNodes(%lld): %lld nodes of %lld",
                     (long long)to, (long long)s->g.size_nodes, (long long)s->g.capacity_nodes);
            // nodes that were there stay, nodes that are new are assigned
            for (; had < to; had++) s->g.root[had] = ng->nodes[(size_t)(had % n)];
            had = to;
          };
          for (int i = 0; i < 3; i++) size((int64_t)t.Below((uint64_t)n * 3 + 40));
          size(n);
          s->keep = ng;
          s->has = true, s->null = false, s->want = g;
          c.label("resized");
          break;
        }
        default: {
          c.note("truncate");
          changed(s);
          resize0(s);
          c.label("truncate");
        }
      }
      for (auto& x : slots) CheckSlot(*x, t, "after an operation");
    }
    // a node list of the wrong length is an error and nothing outside it is read
    if (t.Coin()) {
      G g = GenG(t, o);
      NodeGeom ng;
      BuildNodes(g, &ng, &t);
      size_t n = ng.nodes.size();
      std::vector<struct GeoArrowGeometryNode> cut(ng.nodes);
      int how = (int)t.Below(4);
      static const char* hows[] = {"too few nodes", "too many nodes", "another node size", "no geometry type"};
      bool bad = true;
      size_t at = t.Below(n);
      if (how == 0) {
        bad = n > 1;
        if (bad) cut.resize(1 + t.Below(n - 1));
      } else if (how == 1) {
        struct GeoArrowGeometryNode extra = cut[at];
        cut.push_back(extra);
      } else if (how == 2) {
        // one member more or less than there are (a polygon could take another one for a ring)
        for (size_t i = 0; i < n; i++)
          if (cut[i].geometry_type == 3) at = 0;
        bad = cut[at].geometry_type >= 3;
        if (bad) cut[at].size += cut[at].size && t.Coin() ? -1 : 1;
      } else {
        // rings have no type that matters
        bad = at == 0 || cut[0].geometry_type >= 4;
        for (size_t i = 0; i < at; i++)
          if (cut[i].geometry_type == 3 && at <= i + cut[i].size) bad = false;
        if (bad) cut[at].geometry_type = (uint8_t)t.Range(8, 255);
      }
      if (bad) {
        Exact mem(std::string((const char*)cut.data(), cut.size() * sizeof(cut[0])));
        Recorder rec;
        int rc;
        if (t.Coin()) {
          struct GeoArrowGeometryView v;
          v.root = (const struct GeoArrowGeometryNode*)mem.p;
          v.size_nodes = (int64_t)cut.size();
          rc = GeoArrowGeometryViewVisit(v, &rec.v);
        } else {
          struct GeoArrowGeometry v;
          memset(&v, 0, sizeof(v));
          v.root = (struct GeoArrowGeometryNode*)mem.p;
          v.size_nodes = (int64_t)cut.size();
          rc = GeoArrowGeometryVisit(&v, &rec.v);
        }
        VF_CHECK(rc == EINVAL, "%s: %zu nodes for a geometry of %zu: code %d", hows[how], cut.size(), n, rc);
        VF_CHECK(rec.error.message[0], "%s: %zu nodes for a geometry of %zu: no message", hows[how], cut.size(), n);
        c.label(hows[how]);
      }
    }
    if (nt) c.nontrivial(key);
  }
  live.Check("geometry objects");
}

VF_PROP("C14", Run,
        "histories of building, deep and shallow copying, hand-assembling and truncating several "
        "geometry objects, each compared with its model after every step by node interpretation and by "
        "visiting; node lists of the wrong length. Non-trivial: a geometry with several coordinates was "
        "copied")
