// C20: running out of memory
#include "ops.h"

// Fails every allocation (or a choice of them) in turn
static void Inject(Ctx& c, const std::function<Res()>& f) {
  Tape& t = c.t;
  auto run = [&](long at, bool rest) {
    long live = g_alloc.live;
    g_alloc.count = 0, g_alloc.failed = false, g_alloc.fail_at = at, g_alloc.fail_rest = rest;
    Res r;
    try {
      r = f();
    } catch (Failure& e) {
      g_alloc.fail_at = -1;
      e.msg = strf("failing allocation %ld%s: ", at, rest ? " and all later ones" : "") + e.msg;
      throw;
    }
    g_alloc.fail_at = -1;
    VF_CHECK(g_alloc.live == live, "failing allocation %ld%s: code %d, %ld allocation(s) not released", at,
             rest ? " and all later ones" : "", r.rc, g_alloc.live - live);
    return r;
  };
  Res base = run(-1, false);
  long n = g_alloc.count;
  c.note(strf("code %d with %ld allocations", base.rc, n));
  std::vector<long> at;
  if (n <= 16)
    for (long i = 0; i < n; i++) at.push_back(i);
  else
    for (int i = 0; i < 14; i++) at.push_back((long)t.Below((uint64_t)n));
  int failed = 0, survived = 0;
  for (long k : at) {
    bool rest = t.Chance(1, 3);
    Res r = run(k, rest);
    VF_CHECK(g_alloc.failed, "allocation %ld was not made this time", k);
    if (r.redone) {
      VF_CHECK(r.rc == base.rc && r.out == base.out, "failing allocation %ld, doing again what failed (code %d): code %d, %s, expected %s", k,
               r.redone, r.rc, Quote(r.out).c_str(), Quote(base.out).c_str());
      failed++;
    } else if (r.rc == 0) {
      VF_CHECK(base.rc == 0 && r.out == base.out, "failing allocation %ld%s went unnoticed: %s, expected %s", k,
               rest ? " and all later ones" : "", Quote(r.out).c_str(), Quote(base.out).c_str());
      survived++;
    } else {
      failed++;
    }
  }
  // and nothing stays behind
  Res again = run(-1, false);
  VF_CHECK(again.rc == base.rc && again.out == base.out, "a later run differs: %s, before %s", Quote(again.out).c_str(), Quote(base.out).c_str());
  if (failed) c.label("reported");
  if (survived) c.label("made do without");
  if (failed > 1) c.nontrivial(base.out + strf("/%zu.%ld", at.size(), n));
}

static void Run(Ctx& c) {
  Live live;
  switch (c.t.Below(12)) {
    case 0: Schemas(c); break;
    case 1:
    case 2: Readers(c); break;
    case 3:
    case 4:
    case 5: Writers(c); break;
    case 6:
    case 7: Kernels(c); break;
    case 8: Geometries(c); break;
    case 9: Builders(c); break;
    case 10: ReadersOfArrays(c); break;
    default: Types(c);
  }
  live.Check("allocation failures");
}

VF_PROP("C20", Run,
        "operations of every part (schemas, readers, writers, kernels, geometry objects, builders, array readers, C++ "
        "types) on random inputs, run without failure, then once for each of up to 16 allocations with that one (or "
        "that one and all later ones) failing, then once more. Non-trivial: more than one run reported a failure")
