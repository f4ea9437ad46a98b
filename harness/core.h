// Harness core: choice tape, failure reporting, classification, allocation
// accounting.  Every random decision of a property is drawn from Tape, so a
// case is a pure function of its bytes (which are also the replay file and the
// libFuzzer input).
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

namespace vf {

// A big scenario there is no memory for
struct NoMemory {};

struct Failure {
  std::string msg;
};

[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

#define VF_CHECK(cond, ...)                                                        \
  do {                                                                             \
    if (!(cond)) ::vf::fail("%s:%d: %s: %s", __FILE__, __LINE__, #cond,            \
                            ::vf::strf(__VA_ARGS__).c_str());                      \
  } while (0)

class Tape {
 public:
  // Generate mode: bytes come from a PRNG and are recorded.
  // Replay mode: bytes come from `data`, then zeros.
  static constexpr size_t kMax = 1 << 20;
  void StartGenerate(uint64_t seed, uint8_t* mirror, volatile uint32_t* mirror_len);
  void StartReplay(const uint8_t* data, size_t size);

  uint8_t Byte();
  uint64_t Bits(int nbytes);
  // Uniform in [0, n), n >= 1
  uint64_t Below(uint64_t n);
  // Uniform in [lo, hi]
  int64_t Range(int64_t lo, int64_t hi) { return lo + (int64_t)Below((uint64_t)(hi - lo) + 1); }
  bool Coin() { return Below(2) == 1; }
  // True with probability num/den.  Zero bytes give false.
  bool Chance(int num, int den) { return (int64_t)Below(den) >= den - num; }
  // Small non-negative integer with a geometric-ish tail, at most max
  int Small(int max);
  template <typename T>
  const T& Pick(const std::vector<T>& v) { return v[Below(v.size())]; }
  std::string BytesString(size_t n) {
    std::string s(n, 0);
    for (auto& c : s) c = (char)Byte();
    return s;
  }
  bool Exhausted() const { return replay_ ? pos_ >= size_ : rec_ >= kMax; }
  size_t Remaining() const { return replay_ ? (pos_ < size_ ? size_ - pos_ : 0) : kMax - rec_; }
  bool replaying() const { return replay_; }
  std::vector<uint8_t> recorded;

 private:
  bool replay_ = false;
  const uint8_t* data_ = nullptr;
  size_t size_ = 0, pos_ = 0, rec_ = 0;
  uint64_t s_[2] = {1, 2};
  uint64_t cur_ = 0;
  int cur_n_ = 0;
  uint8_t* mirror_ = nullptr;
  volatile uint32_t* mirror_len_ = nullptr;
};

struct Ctx {
  Tape& t;
  explicit Ctx(Tape& tape) : t(tape) {}
  // Count this case under a class
  void label(const std::string& s) { labels.insert(s); }
  // Declare the case non-trivial, with a key identifying it
  void nontrivial(const std::string& key);
  void nontrivial(uint64_t key) { is_nontrivial = true; hash = hash * 1000003u ^ key; }
  // Human readable description of the case (kept for samples and failures)
  void note(const std::string& s) {
    if (desc.size() < 6000) desc += (s.size() > 6000 ? s.substr(0, 6000) + "..." : s) + "\n";
  }
  std::set<std::string> labels;
  bool is_nontrivial = false;
  uint64_t hash = 1469598103934665603ull;
  std::string desc;
};

uint64_t Hash(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
std::string Quote(const void* p, size_t n, size_t max = 400);
inline std::string Quote(const std::string& s, size_t max = 400) {
  return Quote(s.data(), s.size(), max);
}
std::string Hex(const void* p, size_t n, size_t max = 400);
std::string Dbl(double v);

// ---- allocation accounting (the C sources are compiled with malloc & co
// redirected to vf_malloc & co)
struct AllocState {
  long live = 0;        // live library allocations
  long count = 0;       // allocations requested since reset
  long fail_at = -1;    // index of the allocation that fails (-1: none)
  bool fail_rest = false;  // all later ones fail as well
  bool failed = false;  // a failure was injected
  size_t max_single = (size_t)1 << 31;  // larger requests fail
  size_t biggest = 0;
  uint8_t fill = 0xA5;
};
extern AllocState g_alloc;

// Runs f and checks no library allocation made inside is still live after.
struct LeakCheck {
  long before;
  LeakCheck() : before(g_alloc.live) {}
  void Check(const char* what) {
    VF_CHECK(g_alloc.live == before, "%s: %ld library allocation(s) not released", what,
             g_alloc.live - before);
  }
};

struct Prop {
  const char* id;
  void (*fn)(Ctx&);
  const char* rule;
  // Scenarios too large to be drawn at random (gigabytes of data), each run once
  void (*big)(int, Ctx&) = nullptr;
  int nbig = 0;
};
const Prop& TheProp();

#define VF_PROP(ID, FN, RULE) \
  static const ::vf::Prop kTheProp{ID, FN, RULE}; \
  const ::vf::Prop& ::vf::TheProp() { return kTheProp; }
#define VF_PROP_BIG(ID, FN, RULE, BIG, N) \
  static const ::vf::Prop kTheProp{ID, FN, RULE, BIG, N}; \
  const ::vf::Prop& ::vf::TheProp() { return kTheProp; }

}  // namespace vf
