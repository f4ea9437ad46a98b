// C19: arrays built buffer by buffer
#include "hpp_util.h"
using namespace vf;

// The buffers of a column, in the builder's order
struct Flat_ {
  std::vector<std::string> bufs;  // validity, offsets..., values...
  std::vector<std::vector<int32_t>> offs;
  std::vector<C4> coords;
};
static std::string Bytes(const void* p, size_t n) { return std::string((const char*)p, n); }
template <typename T>
static std::string VecBytes(const std::vector<T>& v) {
  return Bytes(v.data(), v.size() * sizeof(T));
}

struct Column {
  int type;
  std::vector<Feat> feats;          // native
  std::vector<std::string> items;   // serialized
  std::vector<std::vector<double>> rows;  // boxes
  std::vector<bool> nulls;
  size_t n = 0;
  Flat_ f;
  bool box() const { return type < 100000 && type % 1000 == GEOARROW_GEOMETRY_TYPE_BOX; }
  bool ser() const { return type >= GEOARROW_TYPE_WKB; }
  bool inter() const { return type >= 10000 && !ser(); }
  int dims() const { return type % 10000 / 1000 + 1; }
};

static Column GenColumn(Tape& t, int type) {
  Column c;
  c.type = type;
  if (c.ser()) {
    c.n = t.Below(7);
    bool large = type == GEOARROW_TYPE_LARGE_WKB || type == GEOARROW_TYPE_LARGE_WKT;
    std::string data;
    std::vector<int32_t> o32{0};
    std::vector<int64_t> o64{0};
    for (size_t i = 0; i < c.n; i++) {
      c.nulls.push_back(t.Chance(1, 5));
      c.items.push_back(c.nulls.back() ? "" : t.BytesString((size_t)t.Small(40)));
      data += c.items.back();
      o32.push_back((int32_t)data.size());
      o64.push_back((int64_t)data.size());
    }
    c.f.bufs = {"", large ? VecBytes(o64) : VecBytes(o32), data};
    if (!large) c.f.offs = {o32};
  } else if (c.box()) {
    c.n = t.Below(7);
    int nv = 2 * NDim(c.dims());
    std::vector<std::vector<double>> v((size_t)nv);
    for (size_t i = 0; i < c.n; i++) {
      c.nulls.push_back(t.Chance(1, 5));
      c.rows.emplace_back();
      for (int j = 0; j < nv; j++) c.rows.back().push_back(GenOrdinate(t, 0)), v[(size_t)j].push_back(c.rows.back().back());
    }
    c.f.bufs = {""};
    for (auto& x : v) c.f.bufs.push_back(VecBytes(x));
  } else {
    GenOpt o;
    o.types = {type % 1000};
    o.dims = c.dims();
    o.max_coords = 10;
    o.long_seqs = t.Chance(1, 6);
    o.empty_point_members = false;
    c.feats = GenFeats(t, o, 7);
    c.n = c.feats.size();
    int levels = NativeLevels(type % 1000);
    c.f.offs.assign((size_t)levels, {0});
    auto& f = c.f;
    auto seq = [&](const std::vector<C4>& s) { f.coords.insert(f.coords.end(), s.begin(), s.end()); };
    auto end = [&](int l) { f.offs[(size_t)l].push_back(l + 1 < levels ? (int32_t)f.offs[(size_t)l + 1].size() - 1 : (int32_t)f.coords.size()); };
    auto rings = [&](const G& g, int l) {
      for (auto& r : g.rings) seq(r), end(l);
    };
    for (auto& ft : c.feats) {
      ft.g = WkbForm(ft.g);
      if (ft.null) ft.g = G();
      c.nulls.push_back(ft.null);
      const G& g = ft.g;
      switch (type % 1000) {
        case PT: seq(ft.null ? std::vector<C4>{C4{1, 2, 3, 4}} : g.coords); break;
        case LS: seq(g.coords), end(0); break;
        case PG: rings(g, 1), end(0); break;
        case MPT:
          for (auto& k : g.kids) seq(k.coords);
          end(0);
          break;
        case MLS:
          for (auto& k : g.kids) seq(k.coords), end(1);
          end(0);
          break;
        default:
          for (auto& k : g.kids) rings(k, 2), end(1);
          end(0);
      }
    }
    f.bufs = {""};
    for (auto& x : f.offs) f.bufs.push_back(VecBytes(x));
    int nd = NDim(c.dims());
    std::vector<std::vector<double>> v(c.inter() ? 1 : (size_t)nd);
    for (auto& x : f.coords)
      for (int j = 0; j < nd; j++) v[c.inter() ? 0 : (size_t)j].push_back(x[(size_t)j]);
    for (auto& x : v) f.bufs.push_back(VecBytes(x));
  }
  bool any = false;
  for (bool b : c.nulls) any |= b;
  if ((any || t.Chance(1, 4)) && c.n) {
    std::string bits((c.n + 7) / 8 + t.Below(3), 0);
    for (auto& b : bits) b = (char)t.Byte();
    for (size_t i = 0; i < c.n; i++) {
      bits[i / 8] = (char)(bits[i / 8] & ~(1 << (i % 8)));
      if (!c.nulls[i]) bits[i / 8] = (char)(bits[i / 8] | 1 << (i % 8));
    }
    c.f.bufs[0] = bits;
  }
  return c;
}

static void CheckColumn(const Column& c, const struct ArrowArray* a) {
  VF_CHECK(a->length == (int64_t)c.n, "length %lld, expected %zu", (long long)a->length, c.n);
  if (c.ser()) {
    auto got = ReadBinary(a, c.type == GEOARROW_TYPE_LARGE_WKB || c.type == GEOARROW_TYPE_LARGE_WKT);
    for (size_t i = 0; i < c.n; i++) {
      VF_CHECK(got[i].null == c.nulls[i], "row %zu null %d", i, got[i].null);
      if (!c.nulls[i]) VF_CHECK(got[i].value == c.items[i], "row %zu: %s", i, Quote(got[i].value).c_str());
    }
  } else if (c.box()) {
    int nv = 2 * NDim(c.dims());
    VF_CHECK(a->n_buffers == 1 && a->n_children == nv && a->offset == 0, "box array");
    const uint8_t* v = (const uint8_t*)a->buffers[0];
    for (size_t i = 0; i < c.n; i++) {
      bool null = v && !(v[i / 8] >> (i % 8) & 1);
      VF_CHECK(null == c.nulls[i], "row %zu null %d", i, null);
      for (int j = 0; j < nv; j++) {
        VF_CHECK(a->children[j]->length == (int64_t)c.n && a->children[j]->offset == 0, "box child %d", j);
        double d = ((const double*)a->children[j]->buffers[1])[i];
        VF_CHECK(SameBits(d, c.rows[i][(size_t)j]), "box %zu, %d: %s", i, j, Dbl(d).c_str());
      }
    }
  } else {
    std::string why;
    VF_CHECK(SameFeats(ReadNative(a, (enum GeoArrowType)c.type), c.feats, &why), "%s", why.c_str());
  }
}

// A buffer handed over, and whether it was given back
struct Lent {
  Exact e;
  int freed = 0;
  bool none = false;  // handed over as NULL: when it is given back is not specified
  explicit Lent(const std::string& s) : e(s) {}
};
static void GiveBack(uint8_t* ptr, int64_t size, void* p) {
  Lent* l = (Lent*)p;
  if (ptr != (l->none ? nullptr : l->e.p) || size != (int64_t)l->e.n) l->freed += 100;
  l->freed++;
}

// A movable container that counts itself
struct Tracked {
  using value_type = uint8_t;
  std::vector<uint8_t> v;
  int* live;
  Tracked(const std::string& s, int* l) : v(s.begin(), s.end()), live(l) { ++*live; }
  Tracked(Tracked&& o) : v(std::move(o.v)), live(o.live) { ++*live; }
  ~Tracked() { --*live; }
  const uint8_t* data() const { return v.data(); }
  size_t size() const { return v.size(); }
};

static struct GeoArrowBufferView BV(const std::string& s) {
  struct GeoArrowBufferView v;
  v.data = (const uint8_t*)s.data();
  v.size_bytes = (int64_t)s.size();
  return v;
}

enum Mech { OWN, WRAP, APPEND, COORDS };

static void Run(Ctx& c) {
  Tape& t = c.t;
  Live live;
  static const int kSer[] = {GEOARROW_TYPE_WKB, GEOARROW_TYPE_WKT, GEOARROW_TYPE_LARGE_WKB, GEOARROW_TYPE_LARGE_WKT};
  int type;
  switch (t.Below(8)) {
    case 0: type = kSer[t.Below(4)]; break;
    case 1: type = GEOARROW_GEOMETRY_TYPE_BOX + 1000 * (int)t.Below(4); break;
    default: type = MakeT((int)t.Range(1, 6), (int)t.Range(1, 4), (int)t.Range(1, 2));
  }
  Mech mech = (Mech)t.Below(type < 100000 && type % 1000 <= 6 ? 4 : 3);
  c.note(strf("type %d mechanism %d", type, mech));
  c.label(mech == OWN ? "owned buffers" : mech == WRAP ? "wrapped buffers" : mech == APPEND ? "appended buffers" : "coordinates");
  std::vector<std::unique_ptr<Lent>> lent;
  std::vector<int> given;  // batch of each
  int tracked = 0;
  std::string key;
  {
    SchemaHolder sh;
    VF_CHECK(GeoArrowSchemaInitExtension(&sh.s, (enum GeoArrowType)type) == 0, "schema");
    std::unique_ptr<geoarrow::ArrayBuilder> bp;
    try {
      switch (t.Below(3)) {
        case 0: bp.reset(new geoarrow::ArrayBuilder((enum GeoArrowType)type)); break;
        case 1: bp.reset(new geoarrow::ArrayBuilder(&sh.s)); break;
        default:
          bp.reset(new geoarrow::ArrayBuilder(geoarrow::GeometryDataType::Make((enum GeoArrowType)type)));
      }
    } catch (const geoarrow::ErrnoException& e) {
      VF_CHECK(type >= GEOARROW_TYPE_WKB && e.code == ENOTSUP, "no builder for type %d: %s", type, e.what());
      c.label("no builder");
      live.Check("builder");
      return;
    }
    struct GeoArrowBuilder* b = bp->builder();
    int batches = 1 + (int)t.Below(3);
    std::vector<std::unique_ptr<ArrayHolder>> outs;
    std::vector<Column> cols;
    std::vector<std::vector<const void*>> ptrs;
    for (int k = 0; k < batches; k++) {
      Column col = GenColumn(t, type);
      c.note(strf("batch of %zu ", col.n) + (col.feats.empty() ? std::string() : ShowFeats(col.feats)));
      auto& bufs = col.f.bufs;
      VF_CHECK(b->view.n_buffers == (int64_t)bufs.size(), "%lld buffers, expected %zu", (long long)b->view.n_buffers, bufs.size());
      ptrs.emplace_back();
      // Which buffers are set first does not matter
      std::vector<size_t> order;
      for (size_t i = 0; i < bufs.size(); i++) order.insert(order.begin() + (long)t.Below(i + 1), i);
      size_t skip = t.Chance(1, 12) && k + 1 == batches ? t.Below(bufs.size()) : bufs.size();  // abandoned half way
      bool abandon = skip < bufs.size();
      bool spoil = !abandon && k + 1 == batches && t.Chance(1, 12) && col.n > 0;  // the last buffer is too short
      if (spoil) {
        std::string& last = bufs.back();
        if (last.size() >= 8 && !col.box() && NativeLevels(type % 1000) > 0)
          last.resize(last.size() - 8);
        else
          spoil = false;
      }
      switch (mech) {
        case OWN:
          for (size_t i : order) {
            if (abandon && i == skip) break;
            if (bufs[i].empty() && (i == 0 || t.Coin())) continue;
            if (t.Chance(1, 8)) {  // replaced before it is used
              lent.emplace_back(new Lent(t.BytesString(t.Below(20))));
              given.push_back(-1);
              VF_CHECK(GeoArrowBuilderSetOwnedBuffer(b, (int64_t)i, lent.back()->e.View(), &GiveBack, lent.back().get()) == 0, "set buffer");
            }
            size_t before = lent.size();
            lent.emplace_back(new Lent(bufs[i]));
            given.push_back(k);
            Lent* l = lent.back().get();
            bool none = bufs[i].empty() && t.Coin();  // no memory at all, not just nothing in it
            int64_t bad = t.Coin() ? -1 : b->view.n_buffers + (int64_t)t.Below(3);
            if (t.Chance(1, 8)) {
              VF_CHECK(GeoArrowBuilderSetOwnedBuffer(b, bad, l->e.View(), &GiveBack, l) == EINVAL, "buffer %lld was accepted", (long long)bad);
              VF_CHECK(l->freed == 0, "a refused buffer was freed");
            }
            if (none) {
              struct GeoArrowBufferView nv;
              nv.data = nullptr;
              nv.size_bytes = 0;
              l->none = true;
              VF_CHECK(GeoArrowBuilderSetOwnedBuffer(b, (int64_t)i, nv, &GiveBack, l) == 0, "set no buffer");
              c.label("no memory");
            } else {
              VF_CHECK(GeoArrowBuilderSetOwnedBuffer(b, (int64_t)i, l->e.View(), &GiveBack, l) == 0, "set buffer");
            }
            if (before && given[before - 1] == -1) VF_CHECK(lent[before - 1]->freed == 1, "a replaced buffer was freed %d times", lent[before - 1]->freed);
            VF_CHECK(l->freed <= (none ? 1 : 0), "freed %d times at once", l->freed);
            ptrs.back().push_back(l->e.p);
          }
          break;
        case WRAP:
          for (size_t i : order) {
            if (abandon && i == skip) break;
            if (bufs[i].empty() && i == 0) continue;
            int before = tracked;
            if (t.Chance(1, 8)) {
              bool threw = false;
              try {
                Tracked obj(bufs[i], &tracked);
                struct GeoArrowBufferView v = {obj.data(), (int64_t)obj.size()};
                int64_t no_such = t.Coin() ? b->view.n_buffers : -1;
                if (t.Coin())
                  bp->SetBufferWrapped(no_such, std::move(obj), v);
                else
                  bp->SetBufferWrapped(no_such, std::move(obj));
              } catch (const geoarrow::ErrnoException& e) {
                threw = e.code == EINVAL;
              }
              VF_CHECK(threw && tracked == before, "a refused buffer is still there");
            }
            Tracked obj(bufs[i], &tracked);
            if (t.Coin()) {
              struct GeoArrowBufferView v;
              v.data = obj.data();
              v.size_bytes = (int64_t)obj.size();
              bp->SetBufferWrapped((int64_t)i, std::move(obj), v);
            } else {
              bp->SetBufferWrapped((int64_t)i, std::move(obj));
            }
          }
          break;
        case APPEND:
          for (size_t i : order) {
            if (abandon && i == skip) break;
            size_t at = 0;
            while (at < bufs[i].size()) {
              size_t n = 1 + t.Below(std::min<size_t>(bufs[i].size() - at, 200));
              if (t.Chance(1, 3)) n = bufs[i].size() - at;
              std::string piece = bufs[i].substr(at, n);
              switch (t.Below(3)) {
                case 0: VF_CHECK(GeoArrowBuilderAppendBuffer(b, (int64_t)i, BV(piece)) == 0, "append"); break;
                case 1:
                  VF_CHECK(GeoArrowBuilderReserveBuffer(b, (int64_t)i, (int64_t)(n + t.Below(40))) == 0, "reserve");
                  VF_CHECK(b->view.buffers[i].capacity_bytes >= b->view.buffers[i].size_bytes + (int64_t)n, "reserved too little");
                  GeoArrowBuilderAppendBufferUnsafe(b, (int64_t)i, BV(piece));
                  break;
                default: bp->AppendToBuffer((int64_t)i, piece);
              }
              at += n;
              VF_CHECK(b->view.buffers[i].size_bytes == (int64_t)at, "size %lld", (long long)b->view.buffers[i].size_bytes);
            }
            if (bufs[i].empty() && t.Coin()) bp->AppendToBuffer((int64_t)i, bufs[i]);
          }
          break;
        default: {  // offsets and coordinates, a few at a time
          if (!bufs[0].empty()) bp->AppendToBuffer(0, bufs[0]);
          std::vector<size_t> done(col.f.offs.size() + 1);
          size_t ncoords = col.f.coords.size();
          if (spoil) ncoords--;
          int dims = col.dims(), src = t.Chance(2, 3) ? dims : (int)t.Range(1, 4), nd = NDim(src);
          // the other dimensions come out NaN, so say so
          if (src != dims) {
            for (auto& x : col.f.coords) x = MapCoord(MapCoord(x, dims, src), src, dims);
            std::function<void(G*)> walk = [&](G* g) {
              for (auto& x : g->coords) x = MapCoord(MapCoord(x, dims, src), src, dims);
              for (auto& r : g->rings)
                for (auto& x : r) x = MapCoord(MapCoord(x, dims, src), src, dims);
              for (auto& kd : g->kids) walk(&kd);
            };
            for (auto& f : col.feats) walk(&f.g);
            c.label("other dimensions");
          }
          if (abandon) ncoords /= 2;
          // room for some of the buffers beforehand
          while (t.Chance(1, 3)) {
            int64_t i = 1 + (int64_t)t.Below((uint64_t)b->view.n_buffers - 1);
            VF_CHECK(GeoArrowBuilderReserveBuffer(b, i, (int64_t)t.Below(2000)) == 0, "reserve");
            c.label("room beforehand");
          }
          for (;;) {
            size_t w = t.Below(done.size());
            bool left = false;
            for (size_t i = 0; i < done.size(); i++) left |= done[i] < (i < col.f.offs.size() ? col.f.offs[i].size() : ncoords);
            if (!left) break;
            while (done[w] >= (w < col.f.offs.size() ? col.f.offs[w].size() : ncoords)) w = (w + 1) % done.size();
            if (w < col.f.offs.size()) {
              size_t n = 1 + t.Below(col.f.offs[w].size() - done[w]);
              std::vector<int32_t> piece(col.f.offs[w].begin() + (long)done[w], col.f.offs[w].begin() + (long)(done[w] + n));
              if (t.Chance(1, 3)) {
                VF_CHECK(GeoArrowBuilderOffsetReserve(b, (int32_t)w, (int64_t)(n + t.Below(40))) == 0, "reserve");
                VF_CHECK(GeoArrowBuilderOffsetCheck(b, (int32_t)w, (int64_t)n), "reserved too little");
                GeoArrowBuilderOffsetAppendUnsafe(b, (int32_t)w, piece.data(), (int64_t)n);
              } else if (t.Coin())
                bp->AppendToOffsetBuffer((int64_t)w, piece);
              else
                VF_CHECK(GeoArrowBuilderOffsetAppend(b, (int32_t)w, piece.data(), (int64_t)n) == 0, "offsets");
              done[w] += n;
            } else {
              size_t n = 1 + t.Below(ncoords - done[w]), lead = t.Below(3);
              bool il = t.Coin();
              std::vector<double> mem((n + lead) * (size_t)nd, -5);
              struct GeoArrowCoordView v;
              memset(&v, 0, sizeof v);
              v.n_coords = (int64_t)(n + lead);
              v.n_values = nd;
              v.coords_stride = il ? nd : 1;
              for (int j = 0; j < nd; j++) v.values[j] = mem.data() + (il ? (size_t)j : (size_t)j * (n + lead));
              for (size_t i = 0; i < n; i++) {
                C4 x = MapCoord(col.f.coords[done[w] + i], dims, src);
                for (int j = 0; j < nd; j++) mem[il ? (i + lead) * (size_t)nd + (size_t)j : (size_t)j * (n + lead) + lead + i] = x[(size_t)j];
              }
              bool room = t.Chance(1, 4);
              if (room) {
                VF_CHECK(GeoArrowBuilderCoordsReserve(b, (int64_t)(n + t.Below(50))) == 0, "reserve");
                VF_CHECK(GeoArrowBuilderCoordsCheck(b, (int64_t)n), "reserved too little");
              }
              if (room && t.Coin())
                GeoArrowBuilderCoordsAppendUnsafe(b, &v, (enum GeoArrowDimensions)src, (int64_t)lead, (int64_t)n);
              else if (t.Coin())
                bp->AppendCoords(&v, (enum GeoArrowDimensions)src, (int64_t)lead, (int64_t)n);
              else
                VF_CHECK(GeoArrowBuilderCoordsAppend(b, &v, (enum GeoArrowDimensions)src, (int64_t)lead, (int64_t)n) == 0, "coords");
              done[w] += n;
            }
          }
        }
      }
      if (abandon) {
        c.label("abandoned");
        break;
      }
      outs.emplace_back(new ArrayHolder());
      if (spoil) {
        struct GeoArrowError err;
        memset(err.message, 0, sizeof err.message);
        int rc = GeoArrowBuilderFinish(b, &outs.back()->a, &err);
        VF_CHECK(rc != 0, "an array whose offsets point past its values was finished");
        VF_CHECK(outs.back()->a.release == nullptr, "output after a failure");
        VF_CHECK(err.message[0], "no message");
        outs.pop_back();
        c.label("inconsistent buffers");
        break;
      }
      if (t.Coin()) {
        bp->Finish(&outs.back()->a);
      } else {
        struct GeoArrowError err;
        err.message[0] = 0;
        int rc = GeoArrowBuilderFinish(b, &outs.back()->a, t.Coin() ? &err : nullptr);
        VF_CHECK(rc == 0, "finish: %d %s", rc, err.message);
      }
      key += strf("%d.%d.", type, mech) + std::to_string(col.n) + FeatsKey(col.feats);
      if (col.n > 0) c.nontrivial(key);
      CheckColumn(col, &outs.back()->a);
      cols.push_back(col);
      for (size_t i = 0; i < lent.size(); i++)
        VF_CHECK(lent[i]->freed == (given[i] == -1) || (lent[i]->none && lent[i]->freed == 1), "buffer %zu of %zu freed %d times before its array", i, lent.size(), lent[i]->freed);
      if (t.Chance(1, 3)) {
        size_t d = t.Below(outs.size());
        outs[d]->Release();
        for (size_t i = 0; i < lent.size(); i++)
          if (given[i] == (int)d) {
            VF_CHECK(lent[i]->freed == 1, "buffer freed %d times with its array", lent[i]->freed);
            given[i] = -1;
          }
      }
    }
    bp.reset();
    // Arrays outlive the builder
    for (size_t i = 0; i < outs.size(); i++)
      if (outs[i]->a.release) CheckColumn(cols[i], &outs[i]->a);
  }
  for (size_t i = 0; i < lent.size(); i++) VF_CHECK(lent[i]->freed == 1, "buffer %zu freed %d times", i, lent[i]->freed);
  VF_CHECK(tracked == 0, "%d wrapped objects left", tracked);
  live.Check("builder");
}

VF_PROP("C19", Run,
        "batches of random columns of every type built through owned buffers (some replaced, some refused), wrapped "
        "C++ objects, appended pieces, or offsets and coordinates in any interleaving and source dimensions; up to "
        "three batches per builder, some abandoned half way or inconsistent; arrays read back from their buffers, also "
        "after the builder is gone, and every buffer accounted for. Non-trivial: at least one row, by structure")
