// C06: precision and size limits of formatted WKT, through the format_wkt kernel
#include "kernel_util.h"
#include "numfmt.h"
using namespace vf;

static void Run(Ctx& c) {
  Tape& t = c.t;
  Live live;
  {
    GenOpt o;
    o.huge = true;
    o.max_depth = (int)t.Range(1, 4);
    o.max_coords = 12;
    int source = (int)t.Below(4);  // direct writer, WKB, WKT, native
    int type = 0;
    if (source == 3) {
      type = (int)t.Range(1, 6);
      o.types = {type};
      o.dims = (int)t.Range(1, 4);
      o.empty_point_members = false;
    }
    bool has_max = !t.Chance(1, 6), has_prec = t.Coin();
    int prec = (int)t.Range(0, 16);
    long max = t.Chance(1, 8) ? (t.Coin() ? 100000 : 0) : (long)t.Range(0, 120);
    std::vector<Feat> feats = GenFeats(t, o, 8, 25);
    if (source != 0)
      for (auto& f : feats)
        if (!f.null && (source == 1 || source == 3)) f.g = WkbForm(f.g);
    c.note(strf("source %d max %ld (%d) precision %d (%d)\n", source, max, has_max, prec, has_prec) +
           ShowFeats(feats));
    // full text and limited text by the same route
    std::vector<BinaryItem> full, lim;
    for (int pass = 0; pass < 2; pass++) {
      ArrayHolder out;
      if (source == 0) {
        WktWriter w;
        if (has_prec) w.w.precision = prec;
        if (pass && has_max) w.w.max_element_size_bytes = max;
        struct GeoArrowVisitor v;
        struct GeoArrowError err;
        err.message[0] = 0;
        GeoArrowWKTWriterInitVisitor(&w.w, &v);
        v.error = &err;
        for (auto& f : feats) {
          int rc = Emit(f, &v, &t);
          if (pass && rc == EAGAIN) {
            c.label("stopped early");
            rc = v.feat_end(&v);
          }
          VF_CHECK(rc == 0, "writer: %d %s", rc, err.message);
        }
        int rc = GeoArrowWKTWriterFinish(&w.w, &out.a, &err);
        VF_CHECK(rc == 0, "finish: %d %s", rc, err.message);
      } else {
        SourceColumn src(t, source == 1 ? (int)GEOARROW_TYPE_WKB : source == 2
                                ? (int)GEOARROW_TYPE_WKT
                                : (int)MakeT(type, o.dims, t.Coin() ? 1 : 2),
                         feats);
        KernelHolder k("format_wkt");
        std::vector<std::pair<std::string, std::string>> opts;
        if (has_prec) opts.push_back({"precision", std::to_string(prec)});
        if (pass && has_max) opts.push_back({"max_element_size_bytes", std::to_string(max)});
        SchemaHolder os;
        k.Start(&src.schema.s, opts, &os.s);
        VF_CHECK(strcmp(os.s.format, "u") == 0, "output format %s", os.s.format);
        k.Push(&src.arr->a, &out.a);
        k.FinishNone();
      }
      (pass ? lim : full) = ReadBinary(&out.a, 0);
    }
    VF_CHECK(full.size() == feats.size() && lim.size() == feats.size(), "lengths %zu/%zu for %zu",
             full.size(), lim.size(), feats.size());
    int p = has_prec ? prec : 16;
    bool cut = false;
    for (size_t i = 0; i < feats.size(); i++) {
      VF_CHECK(full[i].null == feats[i].null && lim[i].null == feats[i].null, "nulls at %zu", i);
      if (feats[i].null) continue;
      std::string e = CheckWktText(full[i].value, feats[i].g, true, p);
      VF_CHECK(e.empty(), "feature %zu: %s\n%s", i, e.c_str(), Quote(full[i].value).c_str());
      std::string want = full[i].value;
      if (has_max && (long)want.size() > max) {
        want.resize(max);
        cut = true;
      }
      VF_CHECK(lim[i].value == want, "feature %zu: limit %ld gives %s\n expected %s", i, max,
               Quote(lim[i].value, 800).c_str(), Quote(want, 800).c_str());
    }
    if (cut) c.label("truncated");
    static const char* kS[] = {"writer", "from WKB", "from WKT", "from native"};
    c.label(kS[source]);
    if (!feats.empty() && (cut || p < 16))
      c.nontrivial(FeatsKey(feats) + strf("%d %d %ld %d", source, p, max, has_max));
  }
  live.Check("WKT formatting");
}

VF_PROP("C06", Run,
        "random features formatted by the writer and by the format_wkt kernel (from WKB, WKT and "
        "native columns with offsets) with and without an element size limit; the limited item must "
        "be the exact prefix of the full one and every ordinate within half a unit of the last "
        "place. Non-trivial: something was truncated or the precision was below 16")
