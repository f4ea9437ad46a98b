// C09: writing native columns
#include "native_util.h"
using namespace vf;

static void Run(Ctx& c) {
  Tape& t = c.t;
  Live live;
  {
    int gt = (int)t.Range(1, 6), dims = (int)t.Range(1, 4), ct = (int)t.Range(1, 2);
    enum GeoArrowType type = MakeT(gt, dims, ct);
    struct GeoArrowNativeWriter nw;
    struct GeoArrowArrayWriter aw;
    bool array_writer = t.Chance(1, 3);
    int rc = array_writer ? GeoArrowArrayWriterInitFromType(&aw, type)
                          : GeoArrowNativeWriterInit(&nw, type);
    VF_CHECK(rc == 0, "init %d: %d", type, rc);
    struct Guard {
      std::function<void()> f;
      ~Guard() { f(); }
    } guard{[&] { array_writer ? GeoArrowArrayWriterReset(&aw) : GeoArrowNativeWriterReset(&nw); }};
    GenOpt o;
    o.huge = true;
    o.dims = t.Coin() ? dims : 0;
    o.mixed_dims = o.dims == 0 && t.Coin();
    o.mixed_multi = o.mixed_dims && t.Coin();
    o.max_depth = 2;
    static const std::vector<int> kNear[] = {{}, {PT}, {LS, MLS}, {PG, MPG}, {PT, MPT}, {LS, MLS},
                                             {PG, MPG}};
    bool any = t.Chance(1, 4);
    int batches = GenBatches(t, 2);
    bool nt = false, broken = false;
    std::string key = strf("%d:", type);
    for (int b = 0; b < batches && !broken; b++) {
      bool append = !array_writer && t.Coin();
      struct GeoArrowVisitor v;
      struct GeoArrowError err;
      err.message[0] = 0;
      memset(&v, 0, sizeof(v));
      v.error = &err;
      rc = array_writer ? GeoArrowArrayWriterInitVisitor(&aw, &v)
                        : GeoArrowNativeWriterInitVisitor(&nw, &v);
      VF_CHECK(rc == 0, "InitVisitor: %d", rc);
      v.error = &err;
      int n = GenRows(t, o, 10);
      bool many = n > kOwnRows;
      GenOpt go = many ? SmallMembers(o) : o;
      std::vector<Feat> first;
      uint64_t seed = many && t.Coin() ? t.Bits(4) : 0;
      std::vector<Feat> want;
      c.note(strf("batch %d: %s %s coord type %d, %s", b, TypeName(gt), DimName(dims), ct,
                  append ? "append" : "visitor"));
      for (int i = 0; i < n && !broken; i++) {
        Feat f;
        f.null = t.Chance(1, 6);
        go.types = any && t.Coin() && !many ? std::vector<int>{PT, LS, PG, MPT, MLS, MPG, GC}
                  : t.Coin()      ? std::vector<int>{gt}
                                  : kNear[gt];
        if (many && i >= kOwnRows)
          f.null = seed && NullAt(seed, (uint64_t)i);
        if (!f.null) f.g = many && i >= kOwnRows ? first[(size_t)(i % kOwnRows)].g : GenG(t, go);
        if (many && i < kOwnRows) {
          if (f.null) f.g = GenG(t, go);
          first.push_back(f);
          if (f.null) f.g = G();
        }
        if (i < 100) c.note(Show(f));
        Feat w;
        w.null = f.null;
        w.g.type = gt;
        w.g.dims = dims;
        Fit fit = FIT;
        if (!f.null) fit = ToNative(f.g, gt, dims, !append, &w.g);
        err.message[0] = 0;
        if (append) {
          if (f.null) {
            rc = GeoArrowNativeWriterAppendNull(&nw);
          } else {
            NodeGeom ng;
            BuildNodes(f.g, &ng, &t);
            rc = GeoArrowNativeWriterAppend(&nw, ng.View(), &err);
          }
        } else {
          rc = Emit(f, &v, &t);
        }
        if (fit == FIT) {
          VF_CHECK(rc == 0, "feature %d rejected: %d %s", i, rc, err.message);
        } else if (fit == REJECT) {
          VF_CHECK(rc == EINVAL, "feature %d cannot be a %s: code %d", i, TypeName(gt), rc);
          VF_CHECK(err.message[0], "feature %d rejected without a message", i);
          c.label(append ? "rejected, carried on" : "rejected");
          if (!append) broken = true;
          continue;
        } else {
          c.label("unspecified conversion");
          broken = true;
          continue;
        }
        want.push_back(w);
        if (!f.null) {
          if (f.g.type != gt) c.label("converted type");
          if (f.g.dims != dims) c.label("converted dimensions");
          if (CoordCount(f.g) > 1) nt = true;
        }
      }
      if (broken) break;
      key += FeatsKey(want) + "/";
      ArrayHolder arr;
      err.message[0] = 0;
      rc = array_writer ? GeoArrowArrayWriterFinish(&aw, &arr.a, &err)
                        : GeoArrowNativeWriterFinish(&nw, &arr.a, &err);
      VF_CHECK(rc == 0, "finish: %d %s", rc, err.message);
      std::vector<Feat> got = ReadNative(&arr.a, type);
      std::string why;
      VF_CHECK(SameFeats(got, want, &why), "batch %d (%s): %s", b, append ? "append" : "visitor",
               why.c_str());
      int64_t nulls = 0;
      for (auto& f : want) nulls += f.null;
      VF_CHECK(arr.a.null_count == nulls || arr.a.null_count == -1, "null_count %lld, %lld nulls",
               (long long)arr.a.null_count, (long long)nulls);
      c.label(append ? "append" : array_writer ? "array writer" : "visitor");
      if (b) c.label("later batch");
      if (nulls) c.label("with nulls");
    }
    if (nt && !broken) c.nontrivial(key);
  }
  live.Check("native writer");
}

VF_PROP("C09", Run,
        "batches of random features of, or convertible to, each of 6 types x 4 dimensions x 2 "
        "coordinate layouts, written through visitor callbacks in random chunks, the array writer or "
        "node lists in random layouts, read back straight from the buffers. Non-trivial: some feature "
        "has several coordinates and every batch completed")
