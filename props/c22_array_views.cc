// C22: the C++ array views
#include "big_util.h"
#include "hpp_util.h"
using namespace vf;

// Coordinates through every way in to a sequence
template <typename Seq>
static void CheckSeq(Tape& t, const Seq& seq, const std::vector<C4>& want, int dims) {
  using Coord = typename Seq::value_type;
  int n = (int)Coord().size();
  VF_CHECK(seq.size() == (int64_t)want.size(), "sequence of %lld coordinates, expected %zu",
           (long long)seq.size(), want.size());
  auto is = [&](const Coord& c, size_t i, const char* how) {
    VF_CHECK(SameV(Flat(c), Want<Coord>(want[i], dims)), "%s: coordinate %zu is %s, expected %s", how, i,
             ShowV(Flat(c)).c_str(), ShowV(Want<Coord>(want[i], dims)).c_str());
  };
  size_t k = 0;
  for (const auto c : seq) {
    VF_CHECK(k < want.size(), "iteration does not end");
    is(c, k++, "iteration");
  }
  VF_CHECK(k == want.size(), "iteration gave %zu of %zu", k, want.size());
  VF_CHECK(seq.end() - seq.begin() == (int64_t)want.size(), "distance");
  if (want.empty()) return;
  int64_t i = 0;
  auto it = seq.begin();
  for (int s = 0; s < 4; s++) {
    int64_t j = (int64_t)t.Below(want.size());
    is(seq.coord(j), j, "coord()");
    is(it[j - i], j, "iterator []");
    switch (t.Below(3)) {
      case 0: it += j - i, i = j; break;
      case 1: it -= i - j, i = j; break;
      default:
        if (i + 1 < (int64_t)want.size() && t.Coin())
          ++it, i++;
        else if (i > 0)
          --it, i--;
    }
    is(*it, i, "iterator");
    auto there = seq.begin();
    there += j;
    VF_CHECK(it - there == i - j && (it == there) == (i == j) && (it != there) == (i != j) && (it < there) == (i < j) &&
                 (it > there) == (i > j) && (it <= there) == (i <= j) && (it >= there) == (i >= j) && it < seq.end() &&
                 !(seq.end() > seq.end()) && !(it > it) && seq.end() >= it,
             "iterators at %lld and %lld", (long long)i, (long long)j);
  }
  for (int d = 0; d < n; d++) {
    auto b = seq.dbegin(d), e = seq.dend(d);
    VF_CHECK(e - b == (int64_t)want.size(), "dimension %d has %lld values", d, (long long)(e - b));
    size_t p = 0;
    for (auto x = b; x != e; ++x, ++p) {
      VF_CHECK(p < want.size(), "dimension iteration does not end");
      VF_CHECK(SameBits(*x, Want<Coord>(want[p], dims)[d]), "dimension %d value %zu is %s", d, p,
               Dbl(*x).c_str());
    }
    size_t q = t.Below(want.size());
    VF_CHECK(SameBits(b[(ptrdiff_t)q], Want<Coord>(want[q], dims)[d]), "dimension %d [%zu] is %s, expected %s", d, q,
             Dbl(b[(ptrdiff_t)q]).c_str(), Dbl(Want<Coord>(want[q], dims)[d]).c_str());
    auto y = b;
    y += (int64_t)q;
    VF_CHECK(SameBits(*y, Want<Coord>(want[q], dims)[d]), "dimension %d += %zu", d, q);
    double post = y++;
    VF_CHECK(SameBits(post, Want<Coord>(want[q], dims)[d]), "dimension %d postfix ++ at %zu gave %s", d, q,
             Dbl(post).c_str());
    VF_CHECK(y - b == (int64_t)q + 1, "position after postfix ++");
    --y;
    y -= (int64_t)q;
    VF_CHECK(y == b, "back to the start");
  }
}

template <typename Coord>
static void CheckElem(Tape& t, const au::CoordSequence<Coord>& s, const G& g) {
  std::vector<C4> c;
  if (g.type == MPT)
    for (auto& k : g.kids) c.push_back(k.coords[0]);
  else
    c = g.coords;
  CheckSeq(t, s, c, g.dims);
}
template <typename T>
static void CheckElem(Tape& t, const au::ListSequence<T>& s, const G& g) {
  size_t n = g.type == PG ? g.rings.size() : g.kids.size();
  VF_CHECK(s.size() == (int64_t)n, "%lld parts, expected %zu", (long long)s.size(), n);
  size_t i = 0;
  for (const auto& item : s) {
    VF_CHECK(i < n, "iteration does not end");
    G part;
    if (g.type == PG) {
      part.type = LS;
      part.dims = g.dims;
      part.coords = g.rings[i];
    } else {
      part = g.kids[i];
    }
    CheckElem(t, item, part);
    i++;
  }
  VF_CHECK(i == n, "%zu of %zu parts", i, n);
}
template <typename Arr, typename Coord>
static void CheckRowsOf(Tape& t, const Arr& arr, const au::CoordSequence<Coord>& v, const std::vector<Feat>& feats) {
  if (!feats.empty()) {
    for (int k = 0; k < 3; k++) {
      size_t i = t.Below(feats.size());
      if (!feats[i].null)
        VF_CHECK(SameV(Flat(v.coord(i)), Want<Coord>(feats[i].g.coords[0], feats[i].g.dims)), "point %zu is %s", i,
                 ShowV(Flat(v.coord(i))).c_str());
    }
    auto it = v.begin();
    for (size_t i = 0; i < feats.size(); i++, ++it)
      if (!feats[i].null)
        VF_CHECK(SameV(Flat(*it), Want<Coord>(feats[i].g.coords[0], feats[i].g.dims)), "point %zu is %s", i,
                 ShowV(Flat(*it)).c_str());
  }
}
template <typename Arr, typename T>
static void CheckRowsOf(Tape& t, const Arr& arr, const au::ListSequence<T>& v, const std::vector<Feat>& feats) {
  size_t i = 0;
  for (const auto& item : v) {
    VF_CHECK(i < feats.size(), "iteration does not end");
    if (!feats[i].null) CheckElem(t, item, feats[i].g);
    i++;
  }
  VF_CHECK(i == feats.size(), "%zu of %zu rows", i, feats.size());
}

struct Job {
  Ctx& c;
  std::vector<Feat> feats;
  int gt, dims;
};

template <typename Arr>
static void CheckArray(Arr& arr, const struct GeoArrowArrayView* view, Job* job) {
  Tape& t = job->c.t;
  VF_CHECK((int)Arr::geometry_type == job->gt && (int)Arr::dimensions == job->dims, "dispatched to %d/%d",
           (int)Arr::geometry_type, (int)Arr::dimensions);
  int rc = arr.Init(view);
  VF_CHECK(rc == 0, "Init: %d", rc);
  std::vector<Feat> feats = job->feats;
  int cuts = (int)t.Below(3);
  for (int k = 0; k < cuts; k++) {
    int64_t o = (int64_t)t.Below(feats.size() + 1), n = (int64_t)t.Below(feats.size() - o + 1);
    arr = arr.Slice(o, n);
    feats = std::vector<Feat>(feats.begin() + o, feats.begin() + o + n);
    job->c.label("sliced");
    job->c.note(strf("slice %lld %lld", (long long)o, (long long)n));
  }
  VF_CHECK(arr.value.size() == (int64_t)feats.size(), "%lld rows, expected %zu", (long long)arr.value.size(),
           feats.size());
  bool nulls = false;
  for (size_t i = 0; i < feats.size(); i++) {
    VF_CHECK(arr.is_valid(i) == !feats[i].null && arr.is_null(i) == feats[i].null, "row %zu: valid %d null %d, expected null %d",
             i, arr.is_valid(i), arr.is_null(i), feats[i].null);
    nulls |= feats[i].null;
  }
  CheckRowsOf(t, arr, arr.value, feats);
  switch (t.Below(4)) {
    case 0: CheckVisits<au::XY<double>>(arr, feats); break;
    case 1: CheckVisits<au::XYZ<double>>(arr, feats); break;
    case 2: CheckVisits<au::XYM<double>>(arr, feats); break;
    default: CheckVisits<au::XYZM<double>>(arr, feats); break;
  }
  if (!nulls) {
    std::vector<C4> all;
    for (auto& f : feats) AllCoords(f.g, f.g.dims, &all);
    CheckSeq(t, arr.Coords(), all, job->dims);
    job->c.label("no nulls");
  }
}

// Views that do not fit are refused
template <typename Arr>
static void CheckMisfit(Arr& arr, const struct GeoArrowArrayView* view, Job* job, bool fits) {
  int rc = arr.Init(view);
  if (!fits) VF_CHECK(rc == EINVAL, "Init of a %d/%d array from a %d/%d view: %d", (int)Arr::geometry_type,
                      (int)Arr::dimensions, job->gt, job->dims, rc);
}

static void Native(Ctx& c) {
  Tape& t = c.t;
  GenOpt o;
  o.huge = true;
  int gt = (int)t.Range(1, 6), dims = (int)t.Range(1, 4), ct = (int)t.Range(1, 2);
  o.types = {gt};
  o.dims = dims;
  o.max_coords = 12;
  o.long_seqs = t.Chance(1, 10);
  o.empty_point_members = false;
  std::vector<Feat> feats = GenFeats(t, o, 10);
  for (auto& f : feats) f.g = WkbForm(f.g);
  enum GeoArrowType type = MakeT(gt, dims, ct);
  c.note(strf("type %d", type));
  c.note(ShowFeats(feats));
  auto arr = BuildNative(t, type, feats, NativeOpt());
  struct GeoArrowArrayView view;
  VF_CHECK(GeoArrowArrayViewInitFromType(&view, type) == 0, "init");
  struct GeoArrowError err;
  err.message[0] = 0;
  int rc = GeoArrowArrayViewSetArray(&view, &arr->a, &err);
  VF_CHECK(rc == 0, "SetArray: %d %s", rc, err.message);
  Job job{c, feats, gt, dims};
  if (t.Chance(1, 8)) {
    int ogt = (int)t.Range(1, 6), od = (int)t.Range(1, 4);
    bool fits = NativeLevels(ogt) == NativeLevels(gt) && NDim(od) <= NDim(dims);
    if (!fits) c.label("misfit");
    GEOARROW_DISPATCH_NATIVE_ARRAY_CALL(MakeT(ogt, od, ct), CheckMisfit, &view, &job, fits);
    return;
  }
  GEOARROW_DISPATCH_NATIVE_ARRAY_CALL(type, CheckArray, &view, &job);
  c.label(TypeName(gt));
  c.label(ct == 1 ? "separate" : "interleaved");
  size_t n = 0;
  for (auto& f : feats) n += f.null ? 0 : CoordCount(f.g);
  if (n > 1) c.nontrivial(strf("%d;", type) + FeatsKey(feats));
}

template <typename Coord>
static void BoxOf(Ctx& c, int dims) {
  Tape& t = c.t;
  int nd = NDim(dims);
  std::vector<std::vector<double>> rows;
  std::vector<bool> nulls;
  size_t n = t.Below(8);
  for (size_t i = 0; i < n; i++) {
    rows.emplace_back();
    for (int j = 0; j < 2 * nd; j++) rows.back().push_back(GenOrdinate(t, 0));
    nulls.push_back(t.Chance(1, 5));
  }
  enum GeoArrowType type = GeoArrowMakeType(GEOARROW_GEOMETRY_TYPE_BOX, (enum GeoArrowDimensions)dims,
                                            GEOARROW_COORD_TYPE_SEPARATE);
  auto arr = BuildBox(t, type, rows, nulls, NativeOpt());
  struct GeoArrowArrayView view;
  VF_CHECK(GeoArrowArrayViewInitFromType(&view, type) == 0, "init");
  int rc = GeoArrowArrayViewSetArray(&view, &arr->a, nullptr);
  VF_CHECK(rc == 0, "SetArray: %d", rc);
  au::BoxArray<Coord> box;
  VF_CHECK(box.Init(&view) == 0, "box Init");
  size_t off = 0;
  if (t.Coin()) {
    off = t.Below(n + 1);
    n = t.Below(n - off + 1);
    box = box.Slice((int64_t)off, (int64_t)n);
  }
  VF_CHECK(box.value.size() == (int64_t)n, "box rows");
  au::PointArray<Coord> lo = box.LowerBound(), hi = box.UpperBound();
  VF_CHECK(lo.value.size() == (int64_t)n && hi.value.size() == (int64_t)n, "bound rows");
  for (size_t i = 0; i < n; i++) {
    bool null = nulls[off + i];
    VF_CHECK(box.is_null(i) == null && lo.is_null(i) == null && hi.is_valid(i) == !null, "row %zu validity", i);
    if (null) continue;
    auto& r = rows[off + i];
    auto b = box.value.coord(i);
    VF_CHECK(SameV(Flat(b), r), "box %zu is %s, expected %s", i, ShowV(Flat(b)).c_str(), ShowV(r).c_str());
    std::vector<double> l(r.begin(), r.begin() + nd), h(r.begin() + nd, r.end());
    VF_CHECK(SameV(Flat(lo.value.coord(i)), l) && SameV(Flat(hi.value.coord(i)), h) &&
                 SameV(Flat(b.lower_bound()), l) && SameV(Flat(b.upper_bound()), h),
             "bounds of box %zu", i);
    C4 lc{0, 0, 0, 0}, hc{0, 0, 0, 0};
    for (int j = 0; j < nd; j++) lc[j] = l[j], hc[j] = h[j];
    lc = MapCoord(lc, dims, 4);
    hc = MapCoord(hc, dims, 4);
    if (!HasZ(dims)) lc[2] = INFINITY, hc[2] = -INFINITY;
    if (!HasM(dims)) lc[3] = INFINITY, hc[3] = -INFINITY;
    VF_CHECK(SameBits(b.xmin(), lc[0]) && SameBits(b.ymin(), lc[1]) && SameBits(b.zmin(), lc[2]) &&
                 SameBits(b.mmin(), lc[3]) && SameBits(b.xmax(), hc[0]) && SameBits(b.ymax(), hc[1]) &&
                 SameBits(b.zmax(), hc[2]) && SameBits(b.mmax(), hc[3]),
             "accessors of box %zu", i);
  }
  auto e = decltype(box.value.coord(0))::Empty();
  for (int j = 0; j < nd; j++)
    VF_CHECK(e[j] == INFINITY && e[nd + j] == -INFINITY, "the empty box of %d dimensions is %s", nd, ShowV(Flat(e)).c_str());
  c.label("box");
  if (n > 1) c.nontrivial(strf("box%d;%zu;%zu", dims, n, off));
}

template <typename T>
static uint64_t SwapBits(T v) {
  uint8_t b[8] = {0}, r[8] = {0};
  memcpy(b, &v, sizeof v);
  for (size_t i = 0; i < sizeof v; i++) r[i] = b[sizeof v - 1 - i];
  uint64_t o;
  memcpy(&o, r, 8);
  return o;
}

template <typename Coord, typename Load>
static void UnalignedOf(Ctx& c, bool swapped) {
  Tape& t = c.t;
  using T = typename Coord::value_type;
  int dims = (int)Coord::dimensions, nd = NDim(dims);
  size_t n = t.Below(12);
  std::vector<C4> want;
  for (size_t i = 0; i < n; i++) {
    C4 x = GenCoord(t, dims, 0);
    for (auto& v : x) {
      T narrow = (T)v;
      if (!std::isfinite(v) || std::fabs(v) < 3e38) v = narrow;
      else v = 1;
    }
    want.push_back(x);
  }
  bool interleaved = t.Coin();
  int64_t stride = (interleaved ? nd : 1) + (int64_t)t.Below(3);
  int64_t stride_b = stride * (int64_t)sizeof(T);
  bool odd = t.Coin();
  if (odd) stride_b += (int64_t)t.Below(7);
  size_t lead = t.Below(9), per = n ? (n - 1) * stride_b + (interleaved ? nd : 1) * sizeof(T) : 0;
  size_t size = lead + per * (interleaved ? 1 : nd);
  uint8_t* mem = (uint8_t*)malloc(size ? size : 1);
  if (size) memset(mem, 0x5a, size);
  auto at = [&](size_t i, int j) { return mem + lead + i * stride_b + (interleaved ? j * sizeof(T) : j * per); };
  for (size_t i = 0; i < n; i++)
    for (int j = 0; j < nd; j++) {
      T v = (T)want[i][j];
      uint64_t b = SwapBits(v);
      memcpy(at(i, j), swapped ? (void*)&b : (void*)&v, sizeof v);
    }
  {
    au::UnalignedCoordSequence<Coord, Load> seq;
    std::array<const void*, (size_t)decltype(seq)::coord_size> ptr{};
    for (int j = 0; j < nd; j++) ptr[j] = n ? at(0, j) : nullptr;
    int rc = interleaved ? seq.InitInterleaved((int64_t)n, n ? mem + lead : nullptr, stride)
                         : seq.InitSeparated((int64_t)n, ptr, stride);
    VF_CHECK(rc == 0, "Init: %d", rc);
    seq.stride_bytes = stride_b;
    for (int k = (int)t.Below(3); k > 0; k--) {
      size_t o = t.Below(n + 1), m = t.Below(n - o + 1);
      seq = seq.Slice((int64_t)o, (int64_t)m);
      want = std::vector<C4>(want.begin() + o, want.begin() + o + m);
      n = m;
      c.label("sliced");
    }
    CheckSeq(t, seq, want, dims);
    G g;
    g.type = LS;
    g.dims = dims;
    g.coords = want;
    if (t.Coin())
      CheckVisits<au::XYZM<double>>(seq, OneFeat(g));
    else
      CheckVisits<au::XY<double>>(seq, OneFeat(g));
    if (interleaved) {
      au::UnalignedCoordSequence<Coord, Load> bad;
      VF_CHECK(bad.InitInterleaved(1, nullptr) == EINVAL, "nullptr data");
    }
  }
  free(mem);
  c.label(swapped ? "unaligned, swapped" : "unaligned");
  if (n > 1) c.nontrivial(strf("u%d;%d;%zu;%d;%d", dims, (int)sizeof(T), n, (int)stride_b, (int)lead));
}

// A sequence over plain arrays or a coordinate view, any stride
template <typename Coord, typename Seq>
static void AlignedOf(Ctx& c) {
  Tape& t = c.t;
  int dims = (int)Coord::dimensions, nd = NDim(dims);
  size_t n = t.Below(12);
  bool interleaved = t.Coin();
  int64_t stride = (interleaved ? nd : 1) + (int64_t)t.Below(3);
  std::vector<C4> want;
  for (size_t i = 0; i < n; i++) want.push_back(GenCoord(t, dims, 0));
  size_t per = n ? (n - 1) * stride + (interleaved ? nd : 1) : 0;
  std::vector<double> mem(per * (interleaved ? 1 : nd), -7);
  auto at = [&](size_t i, int j) { return i * stride + (interleaved ? j : j * per); };
  for (size_t i = 0; i < n; i++)
    for (int j = 0; j < nd; j++) mem[at(i, j)] = want[i][j];
  struct GeoArrowCoordView v;
  memset(&v, 0, sizeof v);
  v.n_coords = (int64_t)n;
  v.n_values = nd;
  v.coords_stride = (int32_t)stride;
  for (int j = 0; j < nd; j++) v.values[j] = n ? &mem[at(0, j)] : nullptr;
  Seq seq;
  const struct GeoArrowCoordView* cv = &v;
  int rc = seq.InitFrom(cv);
  VF_CHECK(rc == 0, "InitFrom(view): %d", rc);
  for (int k = (int)t.Below(3); k > 0; k--) {
    size_t o = t.Below(n + 1), m = t.Below(n - o + 1);
    seq = seq.Slice((int64_t)o, (int64_t)m);
    want = std::vector<C4>(want.begin() + o, want.begin() + o + m);
    n = m;
    c.label("sliced");
  }
  CheckSeq(t, seq, want, dims);
  G g;
  g.type = LS;
  g.dims = dims;
  g.coords = want;
  switch (t.Below(3)) {
    case 0: CheckVisits<au::XYM<double>>(seq, OneFeat(g)); break;
    case 1: CheckVisits<au::XYZ<double>>(seq, OneFeat(g)); break;
    default: CheckVisits<au::XYZM<double>>(seq, OneFeat(g)); break;
  }
  v.n_values = nd - 1;
  Seq small;
  VF_CHECK(small.InitFrom(cv) == EINVAL, "a view with too few dimensions is accepted");
  c.label("coordinate view");
  if (n > 1) c.nontrivial(strf("a%d;%zu;%d", dims, n, (int)stride));
}

static void Run(Ctx& c) {
  Tape& t = c.t;
  Live live;
  using LI = au::internal::LoadIdentity<double>;
  using LS_ = au::internal::LoadSwapped<double>;
  using LF = au::internal::LoadIdentity<float>;
  using LSF = au::internal::LoadSwapped<float>;
  switch (t.Below(10)) {
    case 9:
      switch (t.Below(4)) {
        case 0: BoxOf<au::XY<double>>(c, 1); break;
        case 1: BoxOf<au::XYZ<double>>(c, 2); break;
        case 2: BoxOf<au::XYM<double>>(c, 3); break;
        default: BoxOf<au::XYZM<double>>(c, 4); break;
      }
      break;
    case 8:
      switch (t.Below(6)) {
        case 0: UnalignedOf<au::XY<double>, LI>(c, false); break;
        case 1: UnalignedOf<au::XYZ<double>, LS_>(c, true); break;
        case 2: UnalignedOf<au::XYM<double>, LS_>(c, true); break;
        case 3: UnalignedOf<au::XYZM<double>, LI>(c, false); break;
        case 4: UnalignedOf<au::XYZ<float>, LF>(c, false); break;
        default: UnalignedOf<au::XYM<float>, LSF>(c, true); break;
      }
      break;
    case 7:
      switch (t.Below(4)) {
        case 0: AlignedOf<au::XY<double>, au::CoordSequence<au::XY<double>>>(c); break;
        case 1: AlignedOf<au::XYM<double>, au::CoordSequence<au::XYM<double>>>(c); break;
        case 2: AlignedOf<au::XYZ<double>, au::UnalignedCoordSequence<au::XYZ<double>>>(c); break;
        default: AlignedOf<au::XYZM<double>, au::UnalignedCoordSequence<au::XYZM<double>>>(c); break;
      }
      break;
    default:
      Native(c);
  }
  live.Check("array views");
}

// Rows whose index does not fit 31 bits
static void Big(int which, Ctx& c) {
  bool interleaved = which & 1, sliced = which & 2;
  BigPoints p(interleaved, sliced);
  c.note(strf("points, interleaved %d, sliced %d", interleaved, sliced));
  struct GeoArrowArrayView view;
  VF_CHECK(GeoArrowArrayViewInitFromType(
               &view, interleaved ? GEOARROW_TYPE_INTERLEAVED_POINT : GEOARROW_TYPE_POINT) == 0,
           "init");
  VF_CHECK(GeoArrowArrayViewSetArray(&view, &p.a, nullptr) == 0, "set");
  au::PointArray<au::XY<double>> arr;
  VF_CHECK(arr.Init(&view) == 0, "Init");
  auto rows = [&](au::PointArray<au::XY<double>>& a, int64_t from) {
    VF_CHECK(a.value.size() == from + BigPoints::kRows, "%lld rows", (long long)a.value.size());
    auto seq = a.Coords();
    auto it = seq.begin();
    it += from;
    VF_CHECK(it - seq.begin() == from && seq.end() - it == BigPoints::kRows, "iterator distance");
    for (int64_t i = 0; i < BigPoints::kRows; i++) {
      auto v = seq.coord(from + i);
      VF_CHECK(v[0] == i + 1 && v[1] == 10 * (i + 1), "row %lld: %g %g", (long long)i, v[0], v[1]);
      VF_CHECK(it[i][1] == v[1] && it[i][0] == v[0], "iterator at %lld", (long long)i);
      VF_CHECK(seq.dbegin(1)[from + i] == v[1], "dimension iterator at %lld", (long long)i);
      VF_CHECK(a.is_valid(from + i) == (i != 2) && a.is_null(from + i) == (i == 2), "validity of %lld", (long long)i);
    }
  };
  rows(arr, sliced ? 0 : BigPoints::kBefore);
  if (!sliced) {
    auto cut = arr.Slice(BigPoints::kBefore - 1, BigPoints::kRows + 1);
    rows(cut, 1);
    auto cut2 = cut.Slice(1, BigPoints::kRows);
    rows(cut2, 0);
    uint64_t n = 0;
    cut2.VisitVertices<au::XY<double>>([&](au::XY<double>) { n++; });
    VF_CHECK(n == 4, "%llu vertices", (unsigned long long)n);
  }
  c.nontrivial(strf("big %d", which));
}

VF_PROP_BIG("C22", Run,
        "native arrays of random features with random offsets at every level, seen through the C++ "
        "arrays (dispatched by type, sliced up to twice), box arrays, and coordinate sequences over "
        "aligned or unaligned memory in either byte order with any stride; rows, parts, coordinates, "
        "iterators, dimension iterators, vertices and edges in all four target dimensions compared "
        "with the features. Non-trivial: more than one coordinate",
            Big, 4)
