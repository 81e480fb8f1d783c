// Shared driver, PRNG and reporting for the monitor harnesses. Independent of
// the code under test.
#ifndef VERIF_UTIL_H_
#define VERIF_UTIL_H_
#include <inttypes.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>

#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vf {

typedef std::string Bytes;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  uint64_t u(uint64_t n) { return n ? next() % n : 0; }          // [0,n)
  uint64_t range(uint64_t a, uint64_t b) { return a + u(b - a + 1); }
  int64_t irange(int64_t a, int64_t b) {
    return a + (int64_t)u((uint64_t)(b - a) + 1);
  }
  bool chance(int pct) { return u(100) < (uint64_t)pct; }
  bool coin() { return next() & 1; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T> const T& pick(const std::vector<T>& v) {
    return v[u(v.size())];
  }
  template <class T> T pick(std::initializer_list<T> v) {
    return *(v.begin() + u(v.size()));
  }
  // Value with interesting magnitudes: small, around powers of two, around
  // 2^7k size-coding boundaries, or uniform, never above max.
  uint64_t edgy(uint64_t max = ~0ULL) {
    uint64_t v;
    switch (u(6)) {
      case 0: v = u(4); break;
      case 1: v = u(300); break;
      case 2: { int b = (int)u(65); v = b >= 64 ? ~0ULL : ((1ULL << b) - 1); v += u(3); v -= u(2); break; }
      case 3: { int b = (int)(7 * range(1, 8)); v = (1ULL << b); v += u(4); v -= u(4); break; }
      case 4: { int b = (int)range(1, 63); v = next() & ((1ULL << b) - 1); break; }
      default: v = max - u(3); break;
    }
    if (v > max) v = max == ~0ULL ? v : v % (max + 1);
    return v;
  }
  Bytes bytes(size_t n) {
    Bytes b(n, '\0');
    size_t i = 0;
    while (i < n) {
      uint64_t v = next();
      for (int k = 0; k < 8 && i < n; ++k, v >>= 8) b[i++] = (char)(v & 0xff);
    }
    return b;
  }
  // Printable / UTF-8-ish string without NUL.
  std::string text(size_t maxlen) {
    size_t n = chance(15) ? 0 : range(1, maxlen ? maxlen : 1);
    if (!maxlen) n = 0;
    std::string s;
    static const char* const kExtra[] = {"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x8e\xac", " ", "&", "\"", "\\"};
    while (s.size() < n) {
      if (chance(8)) s += kExtra[u(7)];
      else s += (char)range(0x21, 0x7e);
    }
    return s;
  }
};

inline uint64_t Hash(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
  return h;
}
inline uint64_t Hash(const std::string& s) { return Hash(s.data(), s.size()); }
inline uint64_t Mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9e3779b97f4a7c15ULL + b + 0x7f4a7c15;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

inline std::string Json(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}
inline std::string Fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
#include <stdarg.h>
inline std::string Fmt(const char* f, ...) {
  va_list ap; va_start(ap, f);
  char b[4096]; vsnprintf(b, sizeof b, f, ap); va_end(ap);
  return b;
}
inline std::string Hex(const Bytes& b, size_t max = 64) {
  std::string o; char t[4];
  for (size_t i = 0; i < b.size() && i < max; ++i) { snprintf(t, sizeof t, "%02x", (unsigned char)b[i]); o += t; }
  if (b.size() > max) o += Fmt("..(%zu)", b.size());
  return o;
}

// What one process observed.
struct Report {
  uint64_t evaluations = 0;
  std::map<std::string, uint64_t> ev;
  std::set<uint64_t> sigs;
  std::vector<std::string> samples;
  uint64_t violations = 0;
  uint64_t cur_case = 0;
  std::set<std::string> keys_printed;
  std::map<std::string, int> key_count;

  void count(const std::string& k, uint64_t n = 1) { ev[k] += n; }
  void sig(uint64_t s) { sigs.insert(s); }
  void sample(const std::string& s) { if (samples.size() < 3) samples.push_back(s.substr(0, 1500)); }
  // key: stable identification of what failed; msg: the witness.
  void viol(const std::string& key, const std::string& msg) {
    if (++key_count[key] > 3) return;  // one finding must not hide the rest
    ++violations;
    std::string m = msg; if (m.size() > 3000) m.resize(3000);
    printf("VIOL {\"case\":%" PRIu64 ",\"key\":%s,\"msg\":%s}\n", cur_case, Json(key).c_str(), Json(m).c_str());
    fflush(stdout);
  }
  void print() {
    printf("REPORT {\"evaluations\":%" PRIu64 ",\"violations\":%" PRIu64 ",\"events\":{", evaluations, violations);
    bool f = true;
    for (auto& e : ev) { printf("%s%s:%" PRIu64, f ? "" : ",", Json(e.first).c_str(), e.second); f = false; }
    printf("},\"samples\":[");
    f = true;
    for (auto& e : samples) { printf("%s%s", f ? "" : ",", Json(e).c_str()); f = false; }
    printf("],\"sigs\":[");
    f = true;
    for (auto& e : sigs) { printf("%s\"%" PRIx64 "\"", f ? "" : ",", e); f = false; }
    printf("]}\n");
    fflush(stdout);
  }
};

inline Report& R() { static Report r; return r; }

struct Args {
  std::string suite;
  uint64_t seed = 1, from = 0, to = 1;
  std::string cur, tmp = "/tmp";
  int tier = 0;       // 0 quick, 1 thorough
  int limit_cpu = 20; // seconds of CPU per case before "hang"
  bool verbose = false;
  std::map<std::string, std::string> kv;
};
inline Args& A() { static Args a; return a; }

static volatile uint64_t* g_cur = nullptr;
static uint64_t g_cur_dummy;

inline void OnCpu(int) {
  char b[64];
  int n = snprintf(b, sizeof b, "\nHANG %" PRIu64 "\n", g_cur ? *g_cur : 0);
  if (write(1, b, n) < 0) {}
  _exit(99);
}
inline void ArmCpu(int sec) {
  struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &t, nullptr);
}

extern "C" int __lsan_do_recoverable_leak_check(void) __attribute__((weak));

typedef void (*CaseFn)(uint64_t case_no, Rng& rng);

inline int Main(int argc, char** argv, const std::map<std::string, CaseFn>& suites) {
  Args& a = A();
  for (int i = 1; i < argc; ++i) {
    std::string s = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (s == "--seed") a.seed = strtoull(val().c_str(), 0, 10);
    else if (s == "--from") a.from = strtoull(val().c_str(), 0, 10);
    else if (s == "--to") a.to = strtoull(val().c_str(), 0, 10);
    else if (s == "--cur") a.cur = val();
    else if (s == "--tmp") a.tmp = val();
    else if (s == "--tier") a.tier = atoi(val().c_str());
    else if (s == "--cpu") a.limit_cpu = atoi(val().c_str());
    else if (s == "-v") a.verbose = true;
    else if (s.size() > 2 && s[0] == '-' && s[1] == '-') { std::string k = s.substr(2); a.kv[k] = val(); }
    else a.suite = s;
  }
  auto it = suites.find(a.suite);
  if (it == suites.end()) { fprintf(stderr, "unknown suite %s\n", a.suite.c_str()); return 2; }
  g_cur = &g_cur_dummy;
  if (!a.cur.empty()) {
    int fd = open(a.cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ftruncate(fd, 4096) == 0) {
      void* m = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (m != MAP_FAILED) g_cur = (volatile uint64_t*)m;
      close(fd);
    }
  }
  signal(SIGPROF, OnCpu);
  signal(SIGPIPE, SIG_IGN);
  uint64_t leak_from = a.from;
  auto leaks = [&](uint64_t end) {
    ArmCpu(0);
    if (__lsan_do_recoverable_leak_check && end > leak_from && __lsan_do_recoverable_leak_check()) {
      R().print();
      printf("LEAK %" PRIu64 " %" PRIu64 "\n", leak_from, end);
      fflush(stdout);
      _exit(97);
    }
    leak_from = end;
  };
  for (uint64_t c = a.from; c < a.to; ++c) {
    if (c - leak_from >= 250) leaks(c);
    *g_cur = c;
    R().cur_case = c;
    Rng rng(Mix(Mix(a.seed, Hash(a.suite)), c));
    ArmCpu(a.limit_cpu);
    it->second(c, rng);
    ++R().evaluations;
    if (R().violations > 100) { leaks(c + 1); break; }
  }
  leaks(a.to);
  R().print();
  fflush(stderr);
  _exit(0);
}

inline bool ReadFile(const std::string& p, Bytes* out) {
  FILE* f = fopen(p.c_str(), "rb");
  if (!f) return false;
  out->clear();
  char b[65536]; size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) out->append(b, n);
  fclose(f);
  return true;
}
inline bool WriteFile(const std::string& p, const Bytes& d) {
  FILE* f = fopen(p.c_str(), "wb");
  if (!f) return false;
  bool ok = d.empty() || fwrite(d.data(), 1, d.size(), f) == d.size();
  return fclose(f) == 0 && ok;
}

}  // namespace vf
#endif
