// Common machinery of every C++ monitor: seeded cases, oracles that throw, event
// counters, per-case stderr capture, heap-growth and CPU watchdogs, JSON report.
#ifndef VH_HPP
#define VH_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <iostream>
#include <functional>
#include <algorithm>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
#if defined(__SANITIZE_ADDRESS__)
#define VH_ASAN 1
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" int __asan_address_is_poisoned(void const volatile *addr);
#endif

namespace vh {
#ifdef VH_SLOW // with the library's assertions, or for valgrind: no cases of the largest kind
static const bool slow=true;
#else
static const bool slow=false;
#endif

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x=1): s(x * 0x9E3779B97F4A7C15ull + 0x1234567ull) { for (int i=0;i<4;i++) next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // inclusive range
  long range(long a, long b) { return a + (long)(next() % (uint64_t)(b - a + 1)); }
  bool chance(int num, int den) { return (long)(next() % den) < num; }
  template <class V> auto pick(const V& v) -> decltype(v[0]) { return v[next() % v.size()]; }
};

struct Fail { std::string key, msg; };
struct Skip { std::string why; };

struct State {
  uint64_t checks=0;                       // oracle evaluations
  std::map<std::string, uint64_t> count;   // event counters
  std::unordered_set<uint64_t> distinct;   // digests of non-trivial observations
  std::vector<std::string> samples;
  std::string cur;                         // description of the running case
};
inline State& st() { static State s; return s; }
inline void count(const char* k, uint64_t n=1) { st().count[k] += n; }
inline uint64_t fnv(const std::string& s) {
  uint64_t h=1469598103934665603ull;
  for (unsigned char c: s) { h ^= c; h *= 1099511628211ull; }
  return h;
}
// register one distinct non-trivial observation
inline void seen(const std::string& s) {
  if (st().distinct.size() < 4000000) st().distinct.insert(fnv(s));
  if (st().samples.size() < 4 || (st().samples.size() < 12 && (fnv(s) & 1023) == 0))
    st().samples.push_back(s.size() > 300 ? s.substr(0, 300) + "..." : s);
}
inline void desc(const std::string& s) { st().cur += s; }
[[noreturn]] inline void fail(const std::string& key, const std::string& msg) { throw Fail{key, msg}; }
inline void ok(bool c, const char* key, const std::string& msg="") {
  ++st().checks;
  if (!c) fail(key, msg);
}
template <class F> inline void okf(bool c, const char* key, F f) {
  ++st().checks;
  if (!c) fail(key, f());
}
template <class T> std::string str(const T& x) { std::ostringstream o; o << x; return o.str(); }

typedef void (*CaseFn)(Rng&, int size);
struct Scenario {
  const char* name;
  CaseFn fn;
  int weight;        // how often it is scheduled
  int maxsize;       // size ramps 1..maxsize
  bool leak;         // apply the heap-growth monitor
};

inline char* curmap() { static char* p=nullptr; return p; }
inline char*& curp() { static char* p=nullptr; return p; }
inline int& errfd() { static int f=-1; return f; }
inline std::string readerr() {
  fflush(stderr);
  if (errfd() < 0) return "";
  std::string r; char b[65536]; off_t o=0; ssize_t n;
  while ((n=pread(errfd(), b, sizeof b, o)) > 0) { r.append(b, n); o += n; if (r.size() > (64u<<20)) break; }
  return r;
}
inline void reseterr() {
  if (errfd() >= 0) { if (ftruncate(errfd(), 0)) {} }
}
inline void on_prof(int) {
  static const char m[]="\nVH-TIMEOUT: the case used up its CPU allowance\n";
  if (write(2, m, sizeof m - 1)) {}
  _exit(77);
}
inline void cpu_limit(int sec) {
  struct itimerval t; memset(&t, 0, sizeof t);
  t.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &t, nullptr);
}
inline std::string jesc(const std::string& s) {
  std::string r="\"";
  for (unsigned char c: s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec*1e-9; }
inline double cpu() { struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec*1e-9; }

// Messages of the library's own allocator that its accounting did not drain.
inline void check_drained() {
  std::string e=readerr();
  ++st().checks;
  size_t p=e.find("(mSize != 0)");
  if (p != std::string::npos) {
    size_t b=e.rfind('\n', p); b = (b == std::string::npos) ? 0: b+1;
    fail("accounting-not-drained", "an allocator was destroyed with bytes still accounted: " + e.substr(b, 120));
  }
}

struct Config { int cpuLimit=60; bool drained=true; };
inline Config& cfg() { static Config c; return c; }

inline void run_one(const Scenario& sc, Rng r, int size) {
  reseterr();
  sc.fn(r, size);
  if (cfg().drained) check_drained();
}

inline void one_case(const Scenario& sc, uint64_t seed, int size) {
  st().cur.clear();
  cpu_limit(cfg().cpuLimit);
#ifdef VH_ASAN
  static uint64_t nth=0;
  bool leakTest=sc.leak && (nth++ % 8) == 0;
#else
  bool leakTest=false;
#endif
  try {
    run_one(sc, Rng(seed), size);
#ifdef VH_ASAN
    if (leakTest) {
      // the same case again and again: a heap that grows every time is a leak
      size_t d[4];
      State keep; std::swap(keep, st());
      try {
        for (int i=0; i < 4; i++) {
          { State z; std::swap(z, st()); }
          size_t a=__sanitizer_get_current_allocated_bytes();
          run_one(sc, Rng(seed), size);
          { State z; std::swap(z, st()); }
          d[i] = __sanitizer_get_current_allocated_bytes() - a;
        }
      }
      catch (...) { std::swap(keep, st()); throw; }
      std::swap(keep, st());
      ++st().checks; count("leak_tests");
      if ((long)d[1] > 0 && d[1] == d[2] && d[2] == d[3])
        fail("leak", "every repetition of the case leaves " + str(d[3]) + " more bytes allocated");
    }
#endif
  } catch (const Skip& s) { count(("skip:" + s.why).c_str()); }
  cpu_limit(0);
  (void)leakTest;
}

inline int main_(int argc, char** argv, const std::vector<Scenario>& scs) {
  uint64_t seed=1; int shard=0, nshards=1; double seconds=10; uint64_t maxcases=0;
  std::string out, cur, err, caseid, only;
  for (int i=1; i+1 < argc; i+=2) {
    std::string a=argv[i], v=argv[i+1];
    if (a == "--seed") seed = strtoull(v.c_str(), 0, 10);
    else if (a == "--shard") { shard = atoi(v.c_str()); }
    else if (a == "--nshards") nshards = atoi(v.c_str());
    else if (a == "--seconds") seconds = atof(v.c_str());
    else if (a == "--max") maxcases = strtoull(v.c_str(), 0, 10);
    else if (a == "--out") out = v;
    else if (a == "--cur") cur = v;
    else if (a == "--err") err = v;
    else if (a == "--case") caseid = v;
    else if (a == "--only") only = v;
    else if (a == "--cpu") cfg().cpuLimit = atoi(v.c_str());
  }
  signal(SIGPROF, on_prof);
  if (!err.empty()) {
    errfd() = open(err.c_str(), O_RDWR|O_CREAT|O_TRUNC|O_APPEND, 0644);
    dup2(errfd(), 2);
  }
  if (!cur.empty()) {
    int f=open(cur.c_str(), O_RDWR|O_CREAT|O_TRUNC, 0644);
    if (ftruncate(f, 256)) {}
    curp() = (char*)mmap(0, 256, PROT_READ|PROT_WRITE, MAP_SHARED, f, 0);
    close(f);
  }
  std::vector<const Scenario*> wheel;
  for (auto& s: scs)
    if (only.empty() || ("," + only + ",").find("," + std::string(s.name) + ",") != std::string::npos)
      for (int i=0; i < s.weight; i++) wheel.push_back(&s);
  if (wheel.empty()) { fprintf(stdout, "no scenario\n"); return 2; }
  struct V { std::string id, key, msg, desc; };
  std::vector<V> viol;
  uint64_t cases=0; double t0=now();
  std::map<std::string, uint64_t> perScen;
  std::map<std::string, double> scenCpu; double slow=0; std::string slowId;
  auto doit=[&](const Scenario& sc, uint64_t cs, int size) {
    std::string id=std::string(sc.name) + ":" + str(cs) + ":" + str(size);
    if (curp()) { strncpy(curp(), id.c_str(), 255); }
    ++cases; ++perScen[sc.name];
    double c0=cpu();
    try { one_case(sc, cs, size); }
    catch (const Fail& f) { viol.push_back({id, f.key, f.msg, st().cur}); }
    cpu_limit(0);
    double dc=cpu() - c0; scenCpu[sc.name] += dc;
    if (dc > slow) { slow = dc; slowId = id; }
  };
  if (!caseid.empty()) {
    size_t p=caseid.find(':'), q=caseid.rfind(':');
    std::string n=caseid.substr(0, p);
    for (auto& s: scs)
      if (n == s.name) doit(s, strtoull(caseid.c_str()+p+1, 0, 10), atoi(caseid.c_str()+q+1));
  }
  else {
    Rng master(seed*1000003ull + 17);
    uint64_t i=0;
    for (;; i++) {
      if (now() - t0 > seconds || (maxcases && i >= maxcases) || viol.size() >= 5) break;
      uint64_t cs=master.next() >> 1;
      uint64_t sz=master.next();
      if ((int)(i % nshards) != shard) continue;
      const Scenario& sc=*wheel[(i / nshards) % wheel.size()];
      // sizes ramp up over the first cases and then are mixed
      int lim=sc.maxsize;
      uint64_t k=i / nshards / wheel.size();
      if (k < (uint64_t)lim) lim = (int)k + 1;
      doit(sc, cs, 1 + (int)(sz % lim));
    }
  }
  if (curp()) strncpy(curp(), "end", 255);
  std::ostringstream j;
  j << "{\"cases\":" << cases << ",\"checks\":" << st().checks << ",\"wall\":" << now()-t0;
  j << ",\"count\":{"; bool f=true;
  for (auto& k: st().count) { j << (f ? "": ",") << jesc(k.first) << ":" << k.second; f=false; }
  j << "},\"scenarios\":{"; f=true;
  for (auto& k: perScen) { j << (f ? "": ",") << jesc(k.first) << ":" << k.second; f=false; }
  j << "},\"scencpu\":{"; f=true;
  for (auto& k: scenCpu) { j << (f ? "": ",") << jesc(k.first) << ":" << k.second; f=false; }
  j << "},\"slowest\":" << jesc(slowId + " " + str(slow)) << ",\"samples\":["; f=true;
  for (auto& s: st().samples) { j << (f ? "": ",") << jesc(s); f=false; }
  j << "],\"violations\":["; f=true;
  for (auto& v: viol) {
    j << (f ? "": ",") << "{\"case\":" << jesc(v.id) << ",\"key\":" << jesc(v.key) << ",\"msg\":" << jesc(v.msg)
      << ",\"desc\":" << jesc(v.desc.substr(0, 20000)) << "}"; f=false;
  }
  j << "]}\n";
  if (out.empty()) std::cout << j.str();
  else {
    FILE* o=fopen(out.c_str(), "w"); std::string s=j.str(); fwrite(s.data(), 1, s.size(), o); fclose(o);
    o=fopen((out + ".dig").c_str(), "wb");
    for (uint64_t d: st().distinct) fwrite(&d, 8, 1, o);
    fclose(o);
  }
  return viol.empty() ? 0: 1;
}

}
#endif
