// C01: any byte sequence given to the WKB reader
#include "wkb_gen.h"
using namespace vf;

static void One(Ctx& c, WkbReader& rd, const std::string& bytes) {
  Exact buf(bytes);
  G ref;
  bool unspec = false;
  WkbStatus st = RefWkbDecode(buf.p, buf.n, &ref, nullptr, 1 << 20, &unspec);
  struct GeoArrowError err;
  memset(err.message, 0, sizeof(err.message));
  struct GeoArrowGeometryView view;
  memset(&view, 0, sizeof(view));
  int rc = GeoArrowWKBReaderRead(&rd.r, buf.View(), &view, &err);
  bool deep = st == WKB_OK && (ContainerLevel(ref, 0) > 254 || Levels(ref) > 255);
  if (!unspec && !deep)
    VF_CHECK((rc == 0) == (st == WKB_OK), "reader returned %d (%s) but the bytes are %s", rc,
             err.message, st == WKB_OK ? "well formed" : "malformed or truncated");
  if (rc != 0) {
    VF_CHECK(rc == EINVAL || rc == ENOTSUP, "unexpected code %d", rc);
    VF_CHECK(err.message[0] != 0 && memchr(err.message, 0, sizeof(err.message)),
             "rejected with code %d but no message", rc);
    c.label(st == WKB_SHORT ? "rejected: short" : "rejected: other");
  } else {
    c.label("accepted");
    G got;
    std::string why;
    VF_CHECK(GFromNodes(view, &got, buf.p, buf.p + buf.n, &why), "bad nodes: %s", why.c_str());
    if (!unspec)
      VF_CHECK(SameG(got, ref, &why), "decoded geometry differs: %s", why.c_str());
  }
  // The visiting entry point agrees
  Recorder rec;
  int rc2 = GeoArrowWKBReaderVisit(&rd.r, buf.View(), &rec.v);
  VF_CHECK(rc == rc2, "Read returned %d, Visit %d (%s)", rc, rc2, rec.error.message);
  if (rc2 == 0) {
    CheckRecorder(rec, "WKB visit");
    std::string why;
    if (!unspec)
      VF_CHECK(rec.feats.size() == 1 && SameG(rec.feats[0].g, ref, &why), "visited: %s",
               why.c_str());
  } else {
    VF_CHECK(rec.calls == 0, "malformed bytes reached the visitor");
  }
}

static void Run(Ctx& c) {
  Tape& t = c.t;
  Live live;
  {
    WkbReader rd;
    int n = 1 + (int)t.Below(3);
    for (int i = 0; i < n; i++) {
      std::string s = GenBytes(t, c);
      c.note("bytes: " + Hex(s.data(), s.size(), 1200));
      One(c, rd, s);
      if (s.size() > 5) c.nontrivial(s);
    }
  }
  live.Check("WKB reader");
}

VF_PROP("C01", Run,
        "byte strings: mutated/truncated encodings of random geometries, count and type fields "
        "replaced by extreme values, deep nesting, shaped noise; several per reader. Non-trivial: "
        "longer than one header (5 bytes), distinct by content")
