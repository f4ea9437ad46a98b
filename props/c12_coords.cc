// C12: coordinate helpers: dimension mapping, node sequences
#include "native_util.h"
using namespace vf;

struct Coords {  // n coordinates of dims in some layout, exactly sized
  int dims, nd;
  int64_t n;
  std::vector<C4> v;
  std::vector<double*> blocks;
  double* values[8];
  int stride;
  std::vector<size_t> block_n;
  Coords(Tape& t, int d, int64_t count, bool fill) : dims(d), nd(NDim(d)), n(count) {
    memset(values, 0, sizeof(values));
    bool inter = t.Coin();
    int pad = t.Chance(1, 4) ? (int)t.Below(3) : 0;
    stride = inter ? nd + pad : 1 + pad;
    size_t len = n ? (size_t)(n - 1) * stride + (inter ? nd : 1) : 0;
    for (int j = 0; j < (inter ? 1 : nd); j++) {
      double* p = (double*)malloc(len ? len * 8 : 1);
      for (size_t i = 0; i < len; i++) p[i] = -777.25;
      blocks.push_back(p);
      block_n.push_back(len);
    }
    for (int j = 0; j < nd; j++) values[j] = inter ? blocks[0] + j : blocks[j];
    if (fill)
      for (int64_t i = 0; i < n; i++) {
        v.push_back(GenCoord(t, dims, 0));
        for (int j = 0; j < nd; j++) values[j][i * stride] = v.back()[j];
      }
  }
  ~Coords() {
    for (auto p : blocks) free(p);
  }
  C4 At(int64_t i) const {
    C4 c{};
    for (int j = 0; j < nd; j++) c[j] = values[j][i * stride];
    return c;
  }
  // every slot that belongs to no coordinate in [a, b) still holds the marker
  void CheckRest(int64_t a, int64_t b) const {
    std::set<const double*> used;
    for (int64_t i = a; i < b; i++)
      for (int j = 0; j < nd; j++) used.insert(values[j] + i * stride);
    for (size_t k = 0; k < blocks.size(); k++)
      for (size_t i = 0; i < block_n[k]; i++)
        if (!used.count(blocks[k] + i))
          VF_CHECK(blocks[k][i] == -777.25, "element %zu of buffer %zu outside the target changed", i, k);
  }
};

static bool SameCoord(const C4& a, const C4& b, int nd) {
  for (int j = 0; j < nd; j++)
    if (!SameBits(a[j], b[j])) return false;
  return true;
}

static void ViewCopy(Ctx& c) {
  Tape& t = c.t;
  int sd = (int)t.Range(1, 4), dd = (int)t.Range(1, 4);
  int64_t sn = t.Small(20), n = t.Range(0, sn), so = t.Range(0, sn - n);
  int64_t dn = n + t.Small(6), dof = t.Range(0, dn - n);
  Coords src(t, sd, sn, true), dst(t, dd, dn, false);
  struct GeoArrowCoordView sv;
  memset(&sv, 0, sizeof(sv));
  for (int j = 0; j < src.nd; j++) sv.values[j] = src.values[j];
  sv.n_coords = sn, sv.n_values = src.nd, sv.coords_stride = src.stride;
  struct GeoArrowWritableCoordView dv;
  memset(&dv, 0, sizeof(dv));
  for (int j = 0; j < dst.nd; j++) dv.values[j] = dst.values[j];
  dv.size_coords = dof, dv.capacity_coords = dn, dv.n_values = dst.nd, dv.coords_stride = dst.stride;
  GeoArrowCoordViewCopy(&sv, (enum GeoArrowDimensions)sd, so, &dv, (enum GeoArrowDimensions)dd, dof, n);
  for (int64_t i = 0; i < n; i++) {
    C4 want = MapCoord(src.v[so + i], sd, dd);
    VF_CHECK(SameCoord(dst.At(dof + i), want, dst.nd), "%s to %s: coordinate %lld: %s %s %s %s",
             DimName(sd), DimName(dd), (long long)i, Dbl(dst.At(dof + i)[0]).c_str(),
             Dbl(dst.At(dof + i)[1]).c_str(), Dbl(dst.At(dof + i)[2]).c_str(),
             Dbl(dst.At(dof + i)[3]).c_str());
  }
  dst.CheckRest(dof, dof + n);
  c.label("coord view copy");
  c.note(strf("copy %lld coords from %lld of %s to %lld of %s", (long long)n, (long long)so, DimName(sd),
              (long long)dof, DimName(dd)));
  if (n) c.nontrivial(strf("v%d%d%d%d%lld,%lld,%lld", sd, dd, src.stride, dst.stride, (long long)n,
                           (long long)so, (long long)dof));
}

static void Generic(Ctx& c) {
  Tape& t = c.t;
  GenOpt o;
  o.huge = true;
  o.mixed_dims = t.Coin();
  o.mixed_multi = o.mixed_dims && t.Coin();
  G g = GenG(t, o);
  c.note(Show(g));
  NodeGeom ng;
  BuildNodes(g, &ng, &t);
  int dd = (int)t.Range(1, 4);
  std::vector<C4> want;
  AllCoords(g, dd, &want);
  VF_CHECK(GeoArrowGeometryViewNumCoords(ng.View()) == want.size(), "NumCoords %u for %zu coordinates",
           GeoArrowGeometryViewNumCoords(ng.View()), want.size());
  Coords dst(t, dd, (int64_t)want.size(), false);
  uint8_t* out[4] = {};
  int32_t strides[4] = {};
  for (int j = 0; j < dst.nd; j++) out[j] = (uint8_t*)dst.values[j], strides[j] = dst.stride * 8;
  GeoArrowGeometryViewCopyCoordsGeneric(ng.View(), out, strides, (enum GeoArrowDimensions)dd);
  for (size_t i = 0; i < want.size(); i++)
    VF_CHECK(SameCoord(dst.At((int64_t)i), want[i], dst.nd), "coordinate %zu of %zu in %s: %s %s %s %s", i,
             want.size(), DimName(dd), Dbl(dst.At(i)[0]).c_str(), Dbl(dst.At(i)[1]).c_str(),
             Dbl(dst.At(i)[2]).c_str(), Dbl(dst.At(i)[3]).c_str());
  dst.CheckRest(0, (int64_t)want.size());
  // every sequence on its own
  const struct GeoArrowGeometryNode* nodes = ng.nodes.data();
  for (size_t k = 0; k < ng.nodes.size(); k++) {
    if (nodes[k].geometry_type != PT && nodes[k].geometry_type != LS) continue;
    int nd = NDim(nodes[k].dimensions);
    int64_t need = (int64_t)nodes[k].size * nd * 8;
    VF_CHECK(GeoArrowGeometryNodeWriteSequence(nodes + k, nullptr, 0) == need, "size asked for");
    {  // of any size: a node may repeat one coordinate
      struct GeoArrowGeometryNode many = nodes[k];
      for (int j = 0; j < 4; j++) many.coord_stride[j] = 0;
      many.size = t.Coin() ? 0xffffffffu - (uint32_t)t.Small(9) : (uint32_t)t.Range(0, 0xffffffffLL);
      VF_CHECK(GeoArrowGeometryNodeWriteSequence(&many, nullptr, 0) == (int64_t)many.size * nd * 8, "size of %u coordinates", many.size);
    }
    int64_t have = t.Chance(1, 4) && need ? need - 1 - (int64_t)t.Below((uint64_t)need) : need;
    uint8_t* buf = (uint8_t*)malloc(have ? (size_t)have : 1);
    memset(buf, 0x5a, (size_t)have);
    int64_t r = GeoArrowGeometryNodeWriteSequence(nodes + k, buf, have);
    VF_CHECK(r == need, "WriteSequence returned %lld, not %lld", (long long)r, (long long)need);
    if (have < need) {
      for (int64_t i = 0; i < have; i++) VF_CHECK(buf[i] == 0x5a, "wrote to a buffer that is too small");
    } else if (need) {
      G got, ref;
      std::string why;
      struct GeoArrowGeometryNode one = nodes[k];
      one.level = 0;
      struct GeoArrowGeometryView v;
      v.root = &one, v.size_nodes = 1;
      VF_CHECK(GFromNodes(v, &ref, nullptr, nullptr, &why), "%s", why.c_str());
      for (uint32_t i = 0; i < nodes[k].size; i++) {
        C4 x{};
        memcpy(x.data(), buf + (size_t)i * nd * 8, nd * 8);
        VF_CHECK(SameCoord(x, ref.coords[i], nd), "sequence coordinate %u", i);
      }
    }
    free(buf);
  }
  c.label("copy all coordinates");
  if (want.size() > 1) c.nontrivial(strf("g%d", dd) + ShapeKey(g));
}

static void SetNode(Ctx& c) {
  Tape& t = c.t;
  int d = (int)t.Range(1, 4), nd = NDim(d);
  bool inter = t.Coin();
  int64_t n = t.Small(30);
  std::string bytes;
  std::vector<C4> v;
  for (int64_t i = 0; i < n; i++) v.push_back(GenCoord(t, d, 0));
  auto put = [&](double x) { bytes.append((const char*)&x, 8); };
  if (inter)
    for (auto& x : v)
      for (int j = 0; j < nd; j++) put(x[j]);
  else
    for (int j = 0; j < nd; j++)
      for (auto& x : v) put(x[j]);
  Exact buf(bytes);
  struct GeoArrowGeometryNode node;
  static const uint8_t nan[8] = {0, 0, 0, 0, 0, 0, 0xf8, 0x7f};
  memset(&node, 0, sizeof(node));
  for (int j = 0; j < 4; j++) node.coords[j] = nan;
  int type = n == 1 && t.Coin() ? PT : LS;
  (inter ? GeoArrowGeometryNodeSetInterleaved
         : GeoArrowGeometryNodeSetSeparated)(&node, (enum GeoArrowGeometryType)type,
                                             (enum GeoArrowDimensions)d, buf.View());
  struct GeoArrowGeometryView view;
  view.root = &node, view.size_nodes = 1;
  G got, want;
  want.type = type, want.dims = d, want.coords = v;
  std::string why;
  c.note(strf("set %s node over %lld %s coordinates", inter ? "interleaved" : "separated", (long long)n,
              DimName(d)));
  VF_CHECK(GFromNodes(view, &got, n ? buf.p : nullptr, buf.p + buf.n, &why), "%s", why.c_str());
  VF_CHECK(SameG(got, want, &why), "%s", why.c_str());
  c.label(inter ? "interleaved node" : "separated node");
  if (n) c.nontrivial(strf("s%d%d%d%lld", d, inter, type, (long long)n) + bytes.substr(0, 24));
}

static void Run(Ctx& c) {
  Live live;
  switch (c.t.Below(3)) {
    case 0: ViewCopy(c); break;
    case 1: Generic(c); break;
    default: SetNode(c); break;
  }
  live.Check("coordinate helpers");
}

VF_PROP("C12", Run,
        "random coordinates copied between views of all dimension pairs, layouts, strides, offsets and "
        "exactly sized targets; all coordinates of random geometries copied to fixed dimensions; nodes "
        "set over interleaved and separated coordinates. Non-trivial: coordinates were moved")
