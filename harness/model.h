// Independent reference model of simple-feature geometries and of the
// encodings geoarrow-c handles.  Nothing in here calls the library.
#pragma once
#include <array>
#include <memory>
#include <string>
#include <vector>

#include "core.h"
#include "geoarrow/geoarrow.h"

namespace vf {

using C4 = std::array<double, 4>;

inline int NDim(int dims) {
  switch (dims) {
    case 1: return 2;
    case 2: return 3;
    case 3: return 3;
    case 4: return 4;
    default: return 0;
  }
}
inline bool HasZ(int dims) { return dims == 2 || dims == 4; }
inline bool HasM(int dims) { return dims == 3 || dims == 4; }

enum { PT = 1, LS = 2, PG = 3, MPT = 4, MLS = 5, MPG = 6, GC = 7 };

struct G {
  int type = PT;
  int dims = 1;
  std::vector<C4> coords;                // PT, LS: NDim(dims) ordinates used
  std::vector<std::vector<C4>> rings;    // PG
  std::vector<G> kids;                   // MPT, MLS, MPG, GC
};

struct Feat {
  bool null = false;
  G g;
};

bool SameBits(double a, double b);  // bitwise; any NaN equals any NaN
bool SameG(const G& a, const G& b, std::string* why = nullptr);
bool SameFeats(const std::vector<Feat>& a, const std::vector<Feat>& b, std::string* why);
std::string Show(const G& g, int depth = 0);
std::string Show(const Feat& f);
size_t CoordCount(const G& g);
size_t NodeCount(const G& g);
int Depth(const G& g);
const char* TypeName(int type);
const char* DimName(int dims);
std::string ShapeKey(const G& g);  // structure without ordinates

// ---- generators
struct GenOpt {
  std::vector<int> types = {PT, LS, PG, MPT, MLS, MPG, GC};
  int dims = 0;             // 0: any
  bool mixed_dims = false;  // children may have other dimensions
  bool mixed_multi = false; // members of multi geometries too (WKB only)
  bool empties = true;      // empty geometries / rings / members
  bool empty_point_members = true;
  int max_depth = 3;        // nesting of collections
  int max_coords = 40;
  bool long_seqs = true;  // now and then sequences of hundreds of coordinates
  bool huge = false;      // rarely counts around 2^8 members and 2^16 coordinates
  int ordinates = 0;  // 0: anything, 1: finite, 2: finite small decimals, 3: never NaN
  bool nan_points = true;
};
double GenOrdinate(Tape& t, int mode);
C4 GenCoord(Tape& t, int dims, int mode);
G GenG(Tape& t, const GenOpt& o, int depth = 0);
std::vector<Feat> GenFeats(Tape& t, const GenOpt& o, int max_n, int null_pct = 15);
// Numbers of rows, rarely around a power of two (rows then repeat), and of batches
static const int kOwnRows = 12;
int GenRows(Tape& t, const GenOpt& o, int max_n);
int GenBatches(Tape& t, int max_more);
GenOpt SmallMembers(const GenOpt& o);
inline bool NullAt(uint64_t seed, uint64_t i) { return ((seed + i) * 0x9e3779b97f4a7c15ull >> 61) == 0; }
// One geometry type/dims (for native arrays)
G GenSimple(Tape& t, int type, int dims, const GenOpt& o);

// ---- visitor side
// Drives a visitor with a feature.  chunk (optional) picks how coordinates are
// cut and laid out.  Returns the first non-zero code.
int Emit(const Feat& f, struct GeoArrowVisitor* v, Tape* chunk);
int EmitG(const G& g, struct GeoArrowVisitor* v, Tape* chunk);

// Records everything it is told and checks the protocol
struct Recorder {
  struct GeoArrowVisitor v;
  struct GeoArrowError error;
  std::vector<Feat> feats;
  std::string protocol_error;
  std::string log;      // event names, for messages
  long calls = 0;       // callbacks received
  long fail_at = -1;    // callback index that returns fail_code
  int fail_code = 0;
  long calls_after_fail = 0;
  bool failed = false;
  bool keep_log = false;
  long empty_coord_calls = 0;
  Recorder();
  Recorder(const Recorder&) = delete;
  // Everything closed?
  bool Complete() const { return stack.empty() && !in_feat; }

  // internals
  bool in_feat = false, got = false, in_ring = false;
  std::vector<G> stack;
  int Hit(const char* name);
};

// ---- WKB
struct WkbOpt {
  bool mixed_endian = false;
  int endian = 1;  // 1 little, 0 big
  int flavor = 0;  // 0: ISO, 1: EWKB flags
  bool srid = false;
};
// Tape (optional) picks per-geometry byte order/flavor/SRID
std::string RefWkb(const G& g, const WkbOpt& o, Tape* t = nullptr);
enum WkbStatus { WKB_OK, WKB_SHORT, WKB_ENDIAN, WKB_TYPE, WKB_DEEP };
// Reference decoder.  consumed: bytes used.
WkbStatus RefWkbDecode(const uint8_t* p, size_t n, G* out, size_t* consumed, int max_depth = 1 << 20,
                       bool* unspecified = nullptr);
// The canonical form of a geometry as carried by WKB: empty points are
// all-NaN points.
G WkbForm(const G& g);

// ---- WKT
struct WktStyle {
  bool flat_multipoint = false;
  bool lower = false, ws = false;
};
std::string RefWkt(const G& g, const WktStyle& s, Tape* t, std::string (*num)(double, void*),
                   void* num_ctx);
std::string RefNum17(double v, void*);
// Strict independent parser for WKT as written by a writer.  Returns false on
// malformed input.
bool RefWktParse(const std::string& s, G* out, std::string* err);

// What a reader of WKT owes a byte sequence.
enum WktStatus { WKT_OK, WKT_BAD, WKT_UNSPEC };
// Number tokens: NUM_MUST parse to *v, NUM_MAY be rejected or parse to *v (NaN
// in *v: any value), NUM_NOT: must be rejected.
enum NumClass { NUM_MUST, NUM_MAY, NUM_NOT };
NumClass ClassifyNumber(const std::string& tok, double* v);
WktStatus RefWktRead(const std::string& s, G* out);

// ---- Arrow arrays in exactly sized buffers
struct RefArray {
  struct ArrowArray a;
  std::vector<std::unique_ptr<RefArray>> kids;
  std::vector<struct ArrowArray*> kid_ptrs;
  std::vector<const void*> bufs;
  std::vector<void*> owned;
  int released = 0;
  RefArray();
  ~RefArray();
  RefArray(const RefArray&) = delete;
  void* AddBuffer(const void* data, size_t n);  // exact copy; n == 0 gives nullptr
  void AddNull() { bufs.push_back(nullptr); }
  void AddChild(std::unique_ptr<RefArray> k) { kids.push_back(std::move(k)); }
  // Fills in the ArrowArray struct (after children/buffers are added)
  struct ArrowArray* Finish(int64_t length, int64_t offset, int64_t null_count);
};

struct NativeOpt {
  bool offsets = true;      // random offsets/padding at every level
  bool validity = true;     // may carry nulls
  int force_offset0 = -1;   // parent offset
};
int NativeLevels(int geometry_type);
// Builds an array for a native type from features of that geometry type and
// dimensions (exactly), using random slack at every level.
std::unique_ptr<RefArray> BuildNative(Tape& t, enum GeoArrowType type,
                                      const std::vector<Feat>& feats, const NativeOpt& o);
// A box array: four/six/eight ordinates per feature, null if nulls[i]
std::unique_ptr<RefArray> BuildBox(Tape& t, enum GeoArrowType type,
                                   const std::vector<std::vector<double>>& rows,
                                   const std::vector<bool>& nulls, const NativeOpt& o);
// A binary/utf8 array (type 0: int32 offsets, 1: int64 offsets, 2: views)
std::unique_ptr<RefArray> BuildBinary(Tape& t, int kind, const std::vector<std::string>& items,
                                      const std::vector<bool>& nulls, const NativeOpt& o);

// Reads a native array straight from its buffers following the Arrow columnar
// layout (all offsets honoured); throws Failure when it is not a valid array
// of that type.
std::vector<Feat> ReadNative(const struct ArrowArray* a, enum GeoArrowType type);
struct BinaryItem {
  bool null;
  std::string value;
};
std::vector<BinaryItem> ReadBinary(const struct ArrowArray* a, int kind);

// Rebuilds a geometry from a node list by the documented meaning of the node
// fields.  lo/hi: every coordinate must lie inside [lo, hi) (or be the filler).
// Returns false with a reason when the nodes do not describe one geometry.
bool GFromNodes(struct GeoArrowGeometryView v, G* out, const uint8_t* lo, const uint8_t* hi,
                std::string* err);
// Builds nodes for g over coordinate storage, in a random layout
struct NodeGeom {
  std::vector<struct GeoArrowGeometryNode> nodes;
  std::vector<void*> owned;
  ~NodeGeom() {
    for (void* p : owned) free(p);
  }
  struct GeoArrowGeometryView View() const {
    struct GeoArrowGeometryView v;
    v.root = nodes.data();
    v.size_nodes = (int64_t)nodes.size();
    return v;
  }
};
void BuildNodes(const G& g, NodeGeom* out, Tape* t, int level = 0);

// Type helpers (arithmetic of the public type ids)
inline enum GeoArrowType MakeT(int gt, int dims, int coord_type) {
  return (enum GeoArrowType)((coord_type - 1) * 10000 + (dims - 1) * 1000 + gt);
}

}  // namespace vf
