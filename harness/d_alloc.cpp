// Monitors of the memory arena: overlap / alignment / contents of live blocks, exact
// accounting, process-wide counters, memory limit, transparency of compaction.
#include "vh.hpp"
#include "conv.hpp"
#include "gb.hpp"
#include "util/list.h"
#include "util/rbtree.h"
#include "ginv/janet.h"
#include <sys/wait.h>
#include <memory>
using namespace GInv;
using vh::Rng;

struct Block { unsigned char* p; size_t n; unsigned char tag; };
struct Arena {
  std::unique_ptr<Allocator> a; std::vector<Block> live; std::map<size_t, size_t> charge;
};
static size_t rsize(Rng& r) {
  static const size_t edge[]={1, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 4000, 4064, 4079, 4080, 4081, 4095, 4096, 4097, 4111, 4112, 4113, 4127, 4128, 4129, 4143, 4144, 8192, 8239, 8240, 8255, 8256, 12384, 65536};
  switch (r.range(0, 5)) {
    case 0: return edge[r.range(0, sizeof edge / sizeof *edge - 1)];
    case 1: return r.range(1, 64);
    case 2: return r.range(1, 600);
    case 3: return r.range(3900, 4200) * r.range(1, 4) + r.range(0, 3) * 32;
    case 4: return r.range(1, 20000);
    case 5: if (r.chance(1, 6)) { // large blocks of every magnitude
      static long page=sysconf(_SC_PAGESIZE) + 32; long k=r.range(1, 30);
      return r.chance(1, 2) ? (size_t)(r.range(16384, 65536) << r.range(0, 5)): (size_t)(page * k * k + r.range(-40, 40)); }
      // fall through
    default: return 8 * r.range(1, 16);
  }
}
struct World {
  std::vector<Arena> ar;
  std::map<uintptr_t, size_t> iv;                 // every live block of every arena
  size_t base, peak;
  World() { base = Allocator::currMemory(); peak = Allocator::maxMemory(); }
  void totals(const char* where) {
    size_t s=base;
    for (auto& x: ar) s += x.a->alloc();
    vh::okf(Allocator::currMemory() == s, "current-total", [&] { return std::string(where) + ": " + vh::str(Allocator::currMemory()) + " expected " + vh::str(s); });
    if (s > peak) peak = s;
    vh::okf(Allocator::maxMemory() == peak, "maximum-total", [&] { return std::string(where) + ": " + vh::str(Allocator::maxMemory()) + " expected " + vh::str(peak); });
  }
  void take(Rng& r, size_t i) {
    Arena& x=ar[i];
    size_t n=rsize(r), before=x.a->size(), ab=x.a->alloc();
    unsigned char* p=(unsigned char*)x.a->allocate(n);
    size_t d=x.a->size() - before;
    vh::ok(d >= n, "charge-too-small", vh::str(n));
    vh::ok(d <= n + 64, "charge-too-large", vh::str(n));
    auto c=x.charge.insert(std::make_pair(n, d));
    vh::ok(c.first->second == d, "charge-varies", vh::str(n));
    vh::ok(x.a->alloc() >= x.a->size(), "more-used-than-reserved");
    vh::ok(x.a->alloc() >= ab, "reserve-shrank");
    vh::okf(((uintptr_t)p & 15) == 0, "misaligned", [&] { return vh::str(n); });
    // disjoint from every live block
    auto it=iv.upper_bound((uintptr_t)p);
    if (it != iv.end()) vh::okf((uintptr_t)p + n <= it->first, "overlap-next", [&] { return vh::str(n); });
    if (it != iv.begin()) { --it; vh::okf(it->first + it->second <= (uintptr_t)p, "overlap-previous", [&] { return vh::str(n); }); }
    iv[(uintptr_t)p] = n;
    unsigned char tag=(unsigned char)r.range(1, 255);
    memset(p, tag, n);
    x.live.push_back(Block{p, n, tag});
    vh::count("blocks"); vh::seen("n" + vh::str(n) + " off" + vh::str((uintptr_t)p & 4095));
  }
  void verify(const Block& b) {
    bool ok=true;
    for (size_t k=0; k < b.n; k++) if (b.p[k] != b.tag) { ok=false; break; }
    vh::okf(ok, "contents-changed", [&] { return vh::str(b.n); });
  }
  void give(Rng& r, size_t i, size_t k) {
    Arena& x=ar[i]; Block b=x.live[k];
    verify(b);
    x.live[k] = x.live.back(); x.live.pop_back();
    iv.erase((uintptr_t)b.p);
    size_t before=x.a->size();
    x.a->deallocate(b.p, b.n);
    auto c=x.charge.find(b.n);
    if (c != x.charge.end())
      vh::okf(before - x.a->size() == c->second, "release-charge", [&] { return vh::str(b.n); });
  }
};
static void arena(Rng& r, int size) {
  World w;
  size_t n=r.range(1, 3);
  for (size_t i=0; i < n; i++) { w.ar.emplace_back(); w.ar.back().a.reset(new Allocator); }
  w.totals("start");
  int ops=size * 12;
  for (int o=0; o < ops; o++) {
    size_t i=r.range(0, (long)w.ar.size() - 1);
    switch (r.range(0, 9)) {
      case 0: case 1: case 2: case 3: case 4: w.take(r, i); break;
      case 5: case 6: case 7:
        if (!w.ar[i].live.empty()) w.give(r, i, r.range(0, (long)w.ar[i].live.size()-1));
        break;
      case 8:
        if (w.ar.size() > 1) {
          size_t j=(i + 1) % w.ar.size();
          size_t s1=w.ar[i].a->size(), s2=w.ar[j].a->size(), a1=w.ar[i].a->alloc(), a2=w.ar[j].a->alloc();
          w.ar[i].a->swap(*w.ar[j].a);
          std::swap(w.ar[i].live, w.ar[j].live);
          vh::ok(w.ar[i].a->size() == s2 && w.ar[j].a->size() == s1 && w.ar[i].a->alloc() == a2 && w.ar[j].a->alloc() == a1, "swap-accounting");
          vh::count("swaps");
        }
        break;
      default:
        if (r.chance(1, 2)) { // an arena dies and a new one (plain or copy constructed) takes its place
          while (!w.ar[i].live.empty()) w.give(r, i, w.ar[i].live.size()-1);
          vh::ok(w.ar[i].a->size() == 0, "not-drained", vh::str(w.ar[i].a->size()));
          if (r.chance(1, 2)) w.ar[i].a.reset(new Allocator);
          else {
            std::unique_ptr<Allocator> c(new Allocator(*w.ar[i].a));
            vh::ok(c->size() == 0, "copied-arena-not-empty");
            size_t p=w.base; for (auto& x: w.ar) p += x.a->alloc(); p += c->alloc();
            if (p > w.peak) w.peak = p;
            w.ar[i].a = std::move(c);
          }
          w.ar[i].charge.clear();
          vh::count("arenas");
        }
    }
    w.totals("step");
  }
  for (size_t i=0; i < w.ar.size(); i++) {
    for (auto& b: w.ar[i].live) w.verify(b);
    while (!w.ar[i].live.empty()) w.give(r, i, w.ar[i].live.size()-1);
    vh::ok(w.ar[i].a->size() == 0, "not-drained", vh::str(w.ar[i].a->size()));
  }
  w.ar.clear();
  w.totals("end");
}

// typed helpers: new(arena) T, new(arena) T[n], dealloc, destroy
struct Obj { static int live; long v[3]; Obj() { ++live; v[0]=1; v[1]=2; v[2]=3; } ~Obj() { --live; } };
int Obj::live=0;
static void typed(Rng& r, int size) {
  Allocator a;
  Obj::live = 0;
  std::vector<Obj*> o; std::vector<std::pair<long*, size_t>> arr;
  for (int i=0; i < size * 4; i++)
    switch (r.range(0, 3)) {
      case 0: o.push_back(new(&a) Obj); break;
      case 1: { size_t n=r.range(1, 200); long* p=new(&a) long[n]; for (size_t k=0; k < n; k++) p[k] = (long)(n*1000+k); arr.push_back({p, n}); break; }
      case 2: if (!o.empty()) { size_t k=r.range(0, (long)o.size()-1); int l=Obj::live; vh::ok(o[k]->v[2] == 3, "object-contents"); a.destroy(o[k]); vh::ok(Obj::live == l-1, "destructor-not-run"); o.erase(o.begin()+k); } break;
      default: if (!arr.empty()) { size_t k=r.range(0, (long)arr.size()-1); bool ok=true; for (size_t q=0; q < arr[k].second; q++) ok = ok && arr[k].first[q] == (long)(arr[k].second*1000+q); vh::ok(ok, "array-contents"); a.dealloc(arr[k].first, arr[k].second); arr.erase(arr.begin()+k); }
    }
  for (auto p: o) a.destroy(p);
  for (auto& p: arr) a.dealloc(p.first, p.second);
  vh::ok(Obj::live == 0, "destructor-balance");
  vh::ok(a.size() == 0, "typed-not-drained", vh::str(a.size()));
  vh::seen("typed" + vh::str(size) + ":" + vh::str(a.alloc()));
}

// memory limit: a forked child runs a script of requests under a limit, the parent runs
// the same script without and predicts the request that must not come back.
static void limit(Rng& r, int size) {
  struct Op { int arena; size_t n; };
  int na=r.range(1, 3);
  std::vector<Op> ops;
  for (int i=0; i < 4 + size * 3; i++) ops.push_back(Op{(int)r.range(0, na-1), rsize(r)});
  size_t start=Allocator::currMemory();
  size_t lim=0;
  int mode=r.range(0, 4);
  if (mode) lim = std::max(start, Allocator::maxMemory()) + (mode == 1 ? 1: mode == 2 ? r.range(1, 9000): r.range(1, 20000 * size));
  int out[2], er[2];
  if (pipe(out) || pipe(er)) throw vh::Skip{"pipe"};
  fflush(stdout); fflush(stderr);
  pid_t pid=fork();
  if (pid < 0) throw vh::Skip{"fork"};
  if (pid == 0) {
    vh::cpu_limit(20);
    close(out[0]); close(er[0]); dup2(er[1], 2);
    Allocator::setLimitMemory(lim);
    std::vector<Allocator*> a; for (int i=0; i < na; i++) a.push_back(new Allocator);
    for (auto& o: ops) {
      unsigned char* p=(unsigned char*)a[o.arena]->allocate(o.n);
      p[0] = 1; p[o.n-1] = 1;
      if (write(out[1], "+", 1)) {}
    }
    if (write(out[1], "!", 1)) {}
    _exit(42);
  }
  close(out[1]); close(er[1]);
  std::string got, msg; char b[4096]; ssize_t n;
  while ((n=read(out[0], b, sizeof b)) > 0) got.append(b, n);
  while ((n=read(er[0], b, sizeof b)) > 0) msg.append(b, n);
  close(out[0]); close(er[0]);
  int st=0; waitpid(pid, &st, 0);
  // prediction: the same script without a limit, in a second child so that the peak of this process stays low
  long stop=-1;
  if (pipe(out)) throw vh::Skip{"pipe"};
  pid = fork();
  if (pid < 0) throw vh::Skip{"fork"};
  if (pid == 0) {
    vh::cpu_limit(20);
    close(out[0]);
    size_t peak=Allocator::maxMemory();
    std::vector<Allocator*> a; for (int i=0; i < na; i++) a.push_back(new Allocator);
    for (size_t i=0; i < ops.size(); i++) {
      size_t before=a[ops[i].arena]->alloc();
      a[ops[i].arena]->allocate(ops[i].n);
      size_t c=Allocator::currMemory();
      if (c > peak) peak = c;
      if (stop < 0 && lim > 0 && peak > lim && a[ops[i].arena]->alloc() > before) stop = (long)i;
    }
    if (write(out[1], &stop, sizeof stop)) {}
    _exit(42);
  }
  close(out[1]);
  if (read(out[0], &stop, sizeof stop) != (ssize_t)sizeof stop) stop = -2;
  close(out[0]);
  int st2=0; waitpid(pid, &st2, 0);
  vh::ok(stop != -2 && WIFEXITED(st2) && WEXITSTATUS(st2) == 42, "unlimited-run-failed");
  vh::desc("limit " + vh::str(lim) + " predicted stop at " + vh::str(stop) + " of " + vh::str(ops.size()) + "; child served " + got + " status " + vh::str(st) + " message " + msg);
  vh::ok(WIFEXITED(st), "limit-crash", vh::str(st));
  if (stop < 0) {
    vh::ok(WEXITSTATUS(st) == 42 && got.size() == ops.size() + 1, "stopped-below-limit");
    vh::count("runs_below_limit");
  } else {
    vh::ok(WEXITSTATUS(st) != 42, "limit-ignored");
    vh::okf((long)got.size() == stop, "limit-wrong-request", [&] { return "served " + vh::str(got.size()) + " expected " + vh::str(stop); });
    vh::ok(WEXITSTATUS(st) == 0, "limit-exit-status", vh::str(WEXITSTATUS(st)));
    vh::ok(msg.find("memory limit exceeded") != std::string::npos && msg.find(vh::str(lim)) != std::string::npos, "limit-message", msg);
    vh::count("runs_over_limit");
  }
  vh::seen("limit" + vh::str(lim - start) + "@" + vh::str(stop));
}

// compaction: contents equal before and after, live bytes unchanged, reserve not larger
static void gclist(Rng& r, int size) {
  typedef GC<List<long> > L;
  std::vector<long> m; L l;
  for (int i=0; i < size * 60; i++) {
    int k=r.range(0, 11);
    if (k >= 10) { // through an iterator, at some place of the list
      L::Iterator it(l.begin()); size_t at=m.empty() ? 0: r.range(0, std::min(40l, (long)m.size())); for (size_t q=0; q < at; q++) ++it;
      if (r.chance(1, 2)) { long v=r.range(-1000, 1000); it.insert(v); m.insert(m.begin() + at, v); }
      else if (at < m.size()) { vh::ok(it.data() == m[at], "gc-iterator"); it.del(); m.erase(m.begin() + at); if (at < m.size()) vh::ok(it && it.data() == m[at], "gc-iterator-after-del"); else vh::ok(!it, "gc-iterator-end"); }
    }
    else if (k < 5) { long v=r.range(-1000, 1000); l.push(v); m.insert(m.begin(), v); }
    else if (k < 8) { if (!m.empty()) { vh::ok(l.pop() == m.front(), "gc-pop"); m.erase(m.begin()); } }
    else {
      size_t s=l.size(), a=l.alloc(); bool gc=l.isGC();
      l.reallocate();
      if (gc) vh::count("compactions");
      vh::ok(l.size() == s, "compaction-changed-live-bytes");
      vh::ok(l.alloc() <= a, "compaction-grew");
      if (!gc) vh::ok(l.alloc() == a, "compaction-without-need");
    }
    vh::ok(l.length() == m.size(), "gc-length");
  }
  size_t k=0;
  for (L::ConstIterator i=((const L&)l).begin(); i; ++i, ++k) vh::ok(k < m.size() && i.data() == m[k], "gc-contents");
  vh::ok(k == m.size(), "gc-contents-length");
  L c(l); vh::ok(c.length() == l.length(), "gc-copy");
  L d; d.push(5); d.swap(c); vh::ok(d.length() == m.size() && c.length() == 1 && c.head() == 5, "gc-swap");
  c = d;
  k = 0;
  for (L::ConstIterator i=((const L&)c).begin(); i; ++i, ++k) vh::ok(k < m.size() && i.data() == m[k], "gc-assign");
  vh::ok(k == m.size(), "gc-assign-length");
  vh::seen("gclist" + vh::str(m.size()) + ":" + vh::str(l.alloc()));
}
static void gcpoly(Rng& r, int size) {
  int ord=(r.chance(1, 2) ? 0x10: 0x20) | (1 << r.range(0, 2)), n=r.chance(1, 8) ? r.range(5, 12): r.range(1, 4), K=r.chance(1, 4) ? r.range(0, 3): -1;
  ref::Pol f=gen::rpol(r, ord, n, 3, r.chance(1, 6) ? 40: 1 + size, 9, K < 0 ? -1: 0, K), g=gen::rpol(r, ord, n, 2, 4, 9);
  if (r.chance(1, 2)) { // coefficients of several words
    for (auto& x: f.t) if (r.chance(1, 2)) { mpz_class c=1; c <<= r.range(20, 400); c += (long)r.range(0, 1000); x.second *= c; } }
  if (f.zero() || g.zero()) throw vh::Skip{"zero"};
  Allocator al;
  PolyInt a(&al, ord, n), b(&al, ord, n);
  conv::build(a, f); conv::build(b, g);
  GCPolyInt p(a);
  ref::Pol m=f;
  for (int i=0; i < 3 + size; i++) {
    switch (r.range(0, 3)) {
      case 0: if (m.t.size() * b.length() < 300) { p.mult(b); m = ref::mul(m, g); } break;
      case 1: p.add(a); m = ref::add(m, f); break;
      case 2: if (K < 0) { p.sub(b); m = ref::add(m, g, -1); } break;
      default: break;
    }
    if (m.zero()) break;
    size_t before=Allocator::currMemory();
    p.reallocate();
    if (Allocator::currMemory() != before) vh::count("compactions");
    vh::ok(Allocator::currMemory() <= before, "compaction-grew");
    conv::canonical(p, "after compaction");
    vh::okf(conv::pol(p) == m, "compaction-changed-polynomial", [&] { return ref::str(conv::pol(p)) + " expected " + ref::str(m); });
    vh::seen(ref::str(m));
  }
}
int main(int c, char** v) {
  return vh::main_(c, v, {
    {"arena", arena, 3, 30, true}, {"typed", typed, 1, 30, true},
    {"limit", limit, 1, 8, false},
    {"gclist", gclist, 1, 30, true}, {"gcpoly", gcpoly, 1, 8, true}});
}
