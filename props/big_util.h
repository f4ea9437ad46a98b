// Columns of more than 2 GB
#pragma once
#include <sys/mman.h>

#include "util.h"

namespace vf {

// Zeroed memory that only takes the pages written to
struct BigMap {
  uint8_t* p;
  size_t n;
  explicit BigMap(size_t size) : n(size) {
    p = (uint8_t*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) throw NoMemory();
  }
  ~BigMap() { munmap(p, n); }
};

// A large binary or string array over it
struct BigArray {
  struct ArrowArray a;
  const void* buffers[3];
  BigArray(const BigMap& m, const std::vector<int64_t>& offsets) {
    memset(&a, 0, sizeof(a));
    buffers[0] = nullptr, buffers[1] = offsets.data(), buffers[2] = m.p;
    a.length = (int64_t)offsets.size() - 1;
    a.n_buffers = 3;
    a.buffers = buffers;
    a.release = [](struct ArrowArray* x) { x->release = nullptr; };
  }
};

// Point rows whose index does not fit 31 bits: kRows of them after kBefore others.  Row i
// of them is (i + 1, 10 (i + 1)), null for i == 2
struct BigPoints {
  static constexpr int64_t kBefore = ((int64_t)1 << 31) + 100, kRows = 5;
  BigMap values, bitmap;
  struct ArrowArray a, children[2], *child_ptrs[2];
  const void *buffers[1], *child_buffers[2][2];
  // sliced: the others are cut off by the array's offset
  BigPoints(bool interleaved, bool sliced)
      : values((size_t)(kBefore + kRows) * 16), bitmap((size_t)(kBefore + kRows) / 8 + 1) {
    int64_t n = kBefore + kRows;
    auto xy = (double*)values.p;
    for (int64_t i = 0; i < kRows; i++) {
      int64_t row = kBefore + i;
      // separate: the y values after all x values
      xy[interleaved ? 2 * row : row] = (double)(i + 1);
      xy[interleaved ? 2 * row + 1 : n + row] = (double)(10 * (i + 1));
      if (i != 2) bitmap.p[row / 8] |= (uint8_t)(1 << row % 8);
    }
    auto none = [](struct ArrowArray* x) { x->release = nullptr; };
    memset(children, 0, sizeof(children));
    memset(&a, 0, sizeof(a));
    for (int j = 0; j < 2; j++) {
      child_ptrs[j] = &children[j];
      child_buffers[j][0] = nullptr;
      child_buffers[j][1] = xy + (interleaved ? 0 : j * n);
      children[j].length = interleaved ? 2 * n : n;
      children[j].n_buffers = 2;
      children[j].buffers = child_buffers[j];
      children[j].release = none;
    }
    buffers[0] = bitmap.p;
    a.offset = sliced ? kBefore : 0;
    a.length = sliced ? kRows : n;
    a.null_count = -1;
    a.n_buffers = 1, a.buffers = buffers;
    a.n_children = interleaved ? 1 : 2, a.children = child_ptrs;
    a.release = none;
  }
};

// Counts instead of keeping what it is given
struct Tally {
  struct GeoArrowVisitor v;
  struct GeoArrowError error;
  int64_t feats = 0, geoms = 0, coords = 0;
  std::vector<int64_t> per_feat;
  double last[2] = {-1, -1};
  double sum = 0;
  Tally() {
    GeoArrowVisitorInitVoid(&v);
    error.message[0] = 0;
    v.error = &error;
    v.private_data = this;
    v.feat_start = [](struct GeoArrowVisitor* x) {
      auto self = (Tally*)x->private_data;
      self->feats++;
      self->per_feat.push_back(0);
      return 0;
    };
    v.geom_start = [](struct GeoArrowVisitor* x, enum GeoArrowGeometryType, enum GeoArrowDimensions) {
      ((Tally*)x->private_data)->geoms++;
      return 0;
    };
    v.coords = [](struct GeoArrowVisitor* x, const struct GeoArrowCoordView* cv) {
      auto self = (Tally*)x->private_data;
      self->coords += cv->n_coords;
      self->per_feat.back() += cv->n_coords;
      for (int64_t i = 0; i < cv->n_coords; i++)
        for (int j = 0; j < 2; j++)
          self->sum += self->last[j] = GEOARROW_COORD_VIEW_VALUE(cv, i, j);
      return 0;
    };
  }
};

}  // namespace vf
