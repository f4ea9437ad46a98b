#include "core.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <unordered_set>

namespace vf {

AllocState g_alloc;

std::string strf(const char* fmt, ...) {
  char buf[8192];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  return buf;
}

void fail(const char* fmt, ...) {
  char buf[16384];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  throw Failure{buf};
}

static uint64_t Mix(uint64_t z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

void Tape::StartGenerate(uint64_t seed, uint8_t* mirror, volatile uint32_t* mirror_len) {
  replay_ = false;
  s_[0] = Mix(seed);
  s_[1] = Mix(s_[0] + 1);
  cur_n_ = 0;
  rec_ = 0;
  mirror_ = mirror;
  mirror_len_ = mirror_len;
  if (mirror_len_) *mirror_len_ = 0;
  recorded.clear();
}

void Tape::StartReplay(const uint8_t* data, size_t size) {
  replay_ = true;
  data_ = data;
  size_ = size;
  pos_ = 0;
  recorded.clear();
}

uint8_t Tape::Byte() {
  if (replay_) return pos_ < size_ ? data_[pos_++] : 0;
  if (rec_ >= kMax) return 0;
  if (cur_n_ == 0) {
    uint64_t s1 = s_[0], s0 = s_[1];
    cur_ = s0 + s1;
    s_[0] = s0;
    s1 ^= s1 << 23;
    s_[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    cur_n_ = 8;
  }
  uint8_t b = (uint8_t)(cur_ >> 56);
  cur_ <<= 8;
  cur_n_--;
  if (mirror_) {
    mirror_[rec_] = b;
    *mirror_len_ = (uint32_t)(rec_ + 1);
  } else {
    recorded.push_back(b);
  }
  rec_++;
  return b;
}

uint64_t Tape::Bits(int nbytes) {
  uint64_t v = 0;
  for (int i = 0; i < nbytes; i++) v = (v << 8) | Byte();
  return v;
}

uint64_t Tape::Below(uint64_t n) {
  if (n <= 1) return 0;
  if (n <= 64) return Byte() % n;
  if (n <= 0x4000) return Bits(2) % n;
  if (n <= 0x40000000ull) return Bits(4) % n;
  return Bits(8) % n;
}

int Tape::Small(int max) {
  if (max <= 0) return 0;
  uint8_t b = Byte();
  int v;
  if (b < 96)
    v = b % 3;
  else if (b < 200)
    v = b % 6;
  else if (b < 245)
    v = b % 17;
  else
    v = (int)Below((uint64_t)max + 1);
  return v > max ? v % (max + 1) : v;
}

uint64_t Hash(const void* p, size_t n, uint64_t h) {
  const uint8_t* b = (const uint8_t*)p;
  for (size_t i = 0; i < n; i++) {
    h ^= b[i];
    h *= 1099511628211ull;
  }
  return h;
}

void Ctx::nontrivial(const std::string& key) {
  is_nontrivial = true;
  hash = Hash(key.data(), key.size(), hash);
}

std::string Quote(const void* p, size_t n, size_t max) {
  const uint8_t* b = (const uint8_t*)p;
  std::string s = "\"";
  for (size_t i = 0; i < n; i++) {
    if (i >= max) {
      s += strf("\"...(%zu bytes)", n);
      return s;
    }
    if (b[i] == '"' || b[i] == '\\') {
      s += '\\';
      s += (char)b[i];
    } else if (b[i] >= 32 && b[i] < 127) {
      s += (char)b[i];
    } else {
      s += strf("\\x%02x", b[i]);
    }
  }
  return s + "\"";
}

std::string Hex(const void* p, size_t n, size_t max) {
  const uint8_t* b = (const uint8_t*)p;
  std::string s;
  for (size_t i = 0; i < n && i < max; i++) s += strf("%02x", b[i]);
  if (n > max) s += strf("...(%zu bytes)", n);
  return s;
}

std::string Dbl(double v) {
  uint64_t u;
  memcpy(&u, &v, 8);
  if (v != v) return strf("nan(%016llx)", (unsigned long long)u);
  return strf("%.17g", v);
}

}  // namespace vf

// ---- redirected allocation functions
extern "C" {
void __sanitizer_print_stack_trace(void);  // VF_TRACE=1: where failures are injected
static bool ShouldFail(size_t n) {
  auto& a = vf::g_alloc;
  long i = a.count++;
  if (n > a.biggest) a.biggest = n;
  if (n > a.max_single) {
    a.failed = true;
    return true;
  }
  if (a.fail_at >= 0 && (i == a.fail_at || (a.fail_rest && i > a.fail_at))) {
    a.failed = true;
    if (getenv("VF_TRACE")) __sanitizer_print_stack_trace();
    return true;
  }
  return false;
}
void* vf_malloc(size_t n) {
  if (ShouldFail(n)) return nullptr;
  void* p = malloc(n ? n : 1);
  if (p) {
    vf::g_alloc.live++;
    memset(p, vf::g_alloc.fill, n < 65536 ? n : 65536);
  }
  return p;
}
void* vf_calloc(size_t m, size_t n) {
  size_t sz;
  if (__builtin_mul_overflow(m, n, &sz)) return nullptr;
  if (ShouldFail(sz)) return nullptr;
  void* p = calloc(1, sz ? sz : 1);
  if (p) vf::g_alloc.live++;
  return p;
}
void vf_free(void* p) {
  if (p) vf::g_alloc.live--;
  free(p);
}
void* vf_realloc(void* p, size_t n) {
  if (!p) return vf_malloc(n);
  if (n == 0) {
    // As glibc: frees and returns NULL
    vf_free(p);
    return nullptr;
  }
  if (ShouldFail(n)) return nullptr;
  return realloc(p, n);
}
char* vf_strdup(const char* s) {
  size_t n = strlen(s) + 1;
  char* p = (char*)vf_malloc(n);
  if (p) memcpy(p, s, n);
  return p;
}
}

namespace vf {

static void ResetGlobals() {
  g_alloc.count = 0;
  g_alloc.fail_at = -1;
  g_alloc.fail_rest = false;
  g_alloc.failed = false;
  g_alloc.max_single = (size_t)1 << 31;
  g_alloc.biggest = 0;
  g_alloc.fill = 0xA5;
}

struct State {  // shared with the parent
  uint64_t case_index;
  volatile uint32_t len;
  uint32_t running;
  uint8_t tape[Tape::kMax];
};

static double Now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static const int kCpuLimit = 20;  // seconds of CPU time for one case: a hang
static const int kBigLimit = 120;  // the same for a big scenario

static void OnCpu(int) {
  const char msg[] = "\nHANG: case exceeded its CPU limit\n";
  (void)!write(2, msg, sizeof(msg) - 1);
  _exit(88);
}

static void ArmCpu(int seconds) {
  struct itimerval it;
  memset(&it, 0, sizeof(it));
  it.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &it, nullptr);
}

static std::string JsonStr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 32 || c > 126) {
      o += strf("\\u%04x", c);
    } else {
      o += c;
    }
  }
  return o + "\"";
}

// The tape of big scenario i
static const char kBig[] = "\x93VF-BIG";
static std::vector<uint8_t> BigTape(int i) {
  std::vector<uint8_t> v(kBig, kBig + sizeof(kBig) - 1);
  v.push_back((uint8_t)i);
  return v;
}
static bool IsBig(const uint8_t* data, size_t n) {
  return TheProp().nbig && n == sizeof(kBig) && !memcmp(data, kBig, n - 1) && data[n - 1] < TheProp().nbig;
}
static void RunBig(int i, Ctx& c) {
  g_alloc.max_single = (size_t)1 << 34;
  c.label(strf("big scenario %d", i));
  try {
    TheProp().big(i, c);
  } catch (NoMemory&) {
    c.label(strf("big scenario %d skipped: no memory", i));
  }
}

static int RunOne(const uint8_t* data, size_t n, std::string* msg, Ctx** keep = nullptr) {
  Tape t;
  t.StartReplay(data, n);
  Ctx c(t);
  ResetGlobals();
  try {
    if (IsBig(data, n)) RunBig(data[n - 1], c);
    else TheProp().fn(c);
  } catch (Failure& f) {
    *msg = f.msg + "\n" + c.desc;
    return 1;
  } catch (std::exception& e) {
    *msg = std::string("uncaught exception: ") + e.what() + "\n" + c.desc;
    return 1;
  }
  return 0;
}

// Runs the tape in a forked child; 0: passed, otherwise a failure
static int RunForked(const std::vector<uint8_t>& tape, std::string* out) {
  int fd[2];
  if (pipe(fd) != 0) return 0;
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    dup2(fd[1], 2);
    signal(SIGPROF, OnCpu);
    ArmCpu(IsBig(tape.data(), tape.size()) ? kBigLimit : kCpuLimit);
    std::string msg;
    int rc = RunOne(tape.data(), tape.size(), &msg);
    if (rc) (void)!write(fd[1], msg.data(), msg.size());
    _exit(rc ? 66 : 0);
  }
  close(fd[1]);
  if (out) out->clear();
  char buf[4096];
  ssize_t k;
  while ((k = read(fd[0], buf, sizeof(buf))) > 0)
    if (out && out->size() < 20000) out->append(buf, k);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
  return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}

static std::vector<uint8_t> ReadFile(const char* path) {
  std::vector<uint8_t> v;
  FILE* f = fopen(path, "rb");
  if (!f) return v;
  uint8_t buf[65536];
  size_t k;
  while ((k = fread(buf, 1, sizeof(buf), f)) > 0) v.insert(v.end(), buf, buf + k);
  fclose(f);
  return v;
}

static void WriteFile(const char* path, const void* p, size_t n) {
  FILE* f = fopen(path, "wb");
  if (!f) return;
  fwrite(p, 1, n, f);
  fclose(f);
}

static int Shrink(const char* in, const char* outp, double seconds) {
  std::vector<uint8_t> best = ReadFile(in);
  std::string msg;
  int kind = RunForked(best, &msg);
  if (kind == 0) return 2;
  double t0 = Now();
  int evals = 0;
  auto still = [&](const std::vector<uint8_t>& c) {
    evals++;
    std::string m;
    return RunForked(c, &m) == kind;
  };
  bool slow = kind == 88 || IsBig(best.data(), best.size());
  if (!slow) {
    bool progress = true;
    while (progress && Now() - t0 < seconds) {
      progress = false;
      // truncate
      for (size_t cut = best.size() / 2; cut >= 1 && Now() - t0 < seconds; cut /= 2) {
        while (best.size() >= cut) {
          std::vector<uint8_t> c(best.begin(), best.end() - cut);
          if (Now() - t0 > seconds || !still(c)) break;
          best = c;
          progress = true;
        }
      }
      // delete blocks
      for (size_t len = std::min<size_t>(best.size() / 2, 512); len >= 1; len /= 2) {
        for (size_t i = 0; i + len <= best.size() && Now() - t0 < seconds;) {
          std::vector<uint8_t> c(best);
          c.erase(c.begin() + i, c.begin() + i + len);
          if (still(c)) {
            best = c;
            progress = true;
          } else {
            i += len;
          }
        }
      }
      // zero and decrease bytes
      for (size_t i = 0; i < best.size() && Now() - t0 < seconds; i++) {
        if (best[i] == 0) continue;
        for (int v : {0, 1, (int)best[i] / 2, (int)best[i] - 1}) {
          if (v >= best[i]) continue;
          std::vector<uint8_t> c(best);
          c[i] = (uint8_t)v;
          if (still(c)) {
            best = c;
            progress = true;
            break;
          }
        }
      }
    }
  }
  RunForked(best, &msg);
  WriteFile(outp, best.data(), best.size());
  printf("SHRUNK kind=%d size=%zu evals=%d\n%s\n", kind, best.size(), evals, msg.c_str());
  return 0;
}

struct Stats {
  uint64_t cases = 0, nontrivial = 0;
  std::map<std::string, uint64_t> labels;
  std::unordered_set<uint64_t> hashes;
  std::vector<std::string> samples;
  uint64_t sample_seen = 0;
  void Add(const Ctx& c) {
    cases++;
    for (auto& l : c.labels) labels[l]++;
    if (c.is_nontrivial) {
      nontrivial++;
      if (hashes.size() < 400000) hashes.insert(c.hash);
      // keep a few samples, spread out (deterministic)
      sample_seen++;
      if (samples.size() < 6 && (sample_seen & (sample_seen - 1)) == 0 && sample_seen >= 16)
        samples.push_back(c.desc.substr(0, 1200));
    }
  }
  void Write(const char* path, const std::string& status, const std::string& msg,
             uint64_t fail_case) {
    FILE* f = fopen(path, "w");
    if (!f) return;
    fprintf(f, "{\"status\":%s,\"message\":%s,\"fail_case\":%llu,\"cases\":%llu,"
               "\"nontrivial\":%llu,\"distinct\":%zu,\"rule\":%s,\"labels\":{",
            JsonStr(status).c_str(), JsonStr(msg).c_str(), (unsigned long long)fail_case,
            (unsigned long long)cases, (unsigned long long)nontrivial, hashes.size(),
            JsonStr(TheProp().rule).c_str());
    bool first = true;
    for (auto& l : labels) {
      fprintf(f, "%s%s:%llu", first ? "" : ",", JsonStr(l.first).c_str(),
              (unsigned long long)l.second);
      first = false;
    }
    fprintf(f, "},\"samples\":[");
    for (size_t i = 0; i < samples.size(); i++)
      fprintf(f, "%s%s", i ? "," : "", JsonStr(samples[i]).c_str());
    fprintf(f, "]}\n");
    fclose(f);
  }
};

static int Run(uint64_t seed, uint64_t worker, uint64_t workers, uint64_t ncases,
               const char* state_path, const char* out_path, const char* hash_path,
               double max_seconds) {
  int fd = open(state_path, O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (fd < 0 || ftruncate(fd, sizeof(State)) != 0) return 3;
  State* st = (State*)mmap(nullptr, sizeof(State), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  signal(SIGPROF, OnCpu);
  Stats stats;
  double t0 = Now();
  std::string status = "ok", msg;
  uint64_t fail_case = 0;
  uint64_t pseed = Hash(TheProp().id, strlen(TheProp().id));
  // one after the other: each needs gigabytes
  for (int b = 0; worker == 0 && !getenv("VF_NO_BIG") && b < TheProp().nbig && status == "ok"; b++) {
    std::vector<uint8_t> bt = BigTape(b);
    ArmCpu(kBigLimit);
    st->case_index = (uint64_t)b;
    memcpy(st->tape, bt.data(), bt.size());
    st->len = (uint32_t)bt.size();
    st->running = 1;
    Tape t;
    t.StartReplay(bt.data(), bt.size());
    Ctx c(t);
    ResetGlobals();
    try {
      RunBig(b, c);
    } catch (Failure& f) {
      status = "fail";
      msg = f.msg + "\n" + c.desc;
    } catch (std::exception& e) {
      status = "fail";
      msg = std::string("uncaught exception: ") + e.what() + "\n" + c.desc;
    }
    st->running = 0;
    stats.Add(c);
  }
  for (uint64_t i = worker; i < ncases && status == "ok"; i += workers) {
    if ((i / workers) % 16 == 0) {
      if (Now() - t0 > max_seconds) {
        status = "time";
        break;
      }
      ArmCpu(kCpuLimit * 2);
    }
    st->case_index = i;
    st->running = 1;
    Tape t;
    t.StartGenerate(Mix(seed * 0x100000001B3ull + i) ^ pseed, st->tape, &st->len);
    Ctx c(t);
    ResetGlobals();
    try {
      TheProp().fn(c);
    } catch (Failure& f) {
      status = "fail";
      msg = f.msg + "\n" + c.desc;
    } catch (std::exception& e) {
      status = "fail";
      msg = std::string("uncaught exception: ") + e.what() + "\n" + c.desc;
    }
    st->running = 0;
    stats.Add(c);
    if (status == "fail") {
      fail_case = i;
      break;
    }
  }
  ArmCpu(0);
  stats.Write(out_path, status, msg, fail_case);
  FILE* f = fopen(hash_path, "wb");
  if (f) {
    for (uint64_t h : stats.hashes) fwrite(&h, 8, 1, f);
    fclose(f);
  }
  return status == "fail" ? 66 : 0;
}

#ifndef VF_FUZZER
static int Main(int argc, char** argv) {
  auto arg = [&](const char* name, const char* def) -> const char* {
    for (int i = 1; i + 1 < argc; i++)
      if (!strcmp(argv[i], name)) return argv[i + 1];
    return def;
  };
  auto num = [&](const char* name, const char* def) { return strtoull(arg(name, def), 0, 0); };
  if (argc < 2) return 3;
  if (!strcmp(argv[1], "run")) {
    return Run(num("--seed", "1"), num("--worker", "0"), num("--workers", "1"),
               num("--cases", "1000"), arg("--state", "/tmp/vf.state"),
               arg("--out", "/tmp/vf.out"), arg("--hashes", "/dev/null"),
               strtod(arg("--max-seconds", "600"), nullptr));
  }
  if (!strcmp(argv[1], "tapes")) {  // seed corpus for the fuzzer
    uint64_t n = num("--cases", "100"), seed = num("--seed", "1");
    uint64_t pseed = Hash(TheProp().id, strlen(TheProp().id));
    for (uint64_t i = 0; i < n; i++) {
      Tape t;
      t.StartGenerate(Mix(seed * 0x100000001B3ull + i) ^ pseed, nullptr, nullptr);
      Ctx c(t);
      ResetGlobals();
      try {
        TheProp().fn(c);
      } catch (Failure&) {
      }
      if (t.recorded.size() > 4096) continue;
      WriteFile(strf("%s/%llu", arg("--dir", "."), (unsigned long long)i).c_str(),
                t.recorded.data(), t.recorded.size());
    }
    return 0;
  }
  if (!strcmp(argv[1], "shrink")) {
    return Shrink(argv[2], argv[3], strtod(arg("--seconds", "60"), nullptr));
  }
  if (!strcmp(argv[1], "replay")) {  // in a child, prints the outcome
    std::vector<uint8_t> t = ReadFile(argv[2]);
    std::string msg;
    int rc = RunForked(t, &msg);
    printf("%s\n%s\n", rc ? "FAIL" : "PASS", msg.c_str());
    return rc ? 1 : 0;
  }
  if (!strcmp(argv[1], "direct")) {  // in process, for debuggers
    std::vector<uint8_t> t = ReadFile(argv[2]);
    std::string msg;
    int rc = RunOne(t.data(), t.size(), &msg);
    printf("%s\n%s\n", rc ? "FAIL" : "PASS", msg.c_str());
    return rc;
  }
  return 3;
}
#endif

#ifdef VF_FUZZER
static Stats g_fuzz_stats;
static const char* g_fuzz_out;
static void WriteFuzzStats() {
  if (g_fuzz_out) g_fuzz_stats.Write(g_fuzz_out, "ok", "", 0);
}
static int FuzzOne(const uint8_t* data, size_t size) {
  static bool init = false;
  if (!init) {
    init = true;
    g_fuzz_out = getenv("VF_FUZZ_OUT");
    atexit(WriteFuzzStats);
  }
  Tape t;
  t.StartReplay(data, size);
  Ctx c(t);
  ResetGlobals();
  std::string msg;
  bool bad = false;
  try {
    TheProp().fn(c);
  } catch (Failure& f) {
    bad = true;
    msg = f.msg;
  } catch (std::exception& e) {
    bad = true;
    msg = std::string("uncaught exception: ") + e.what();
  }
  g_fuzz_stats.Add(c);
  if (bad) {
    WriteFuzzStats();
    fprintf(stderr, "PROPERTY FAILURE: %s\n%s\n", msg.c_str(), c.desc.c_str());
    abort();
  }
  return 0;
}
#endif

}  // namespace vf

#ifdef VF_FUZZER
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  return vf::FuzzOne(data, size);
}
#else
int main(int argc, char** argv) { return vf::Main(argc, argv); }
#endif
