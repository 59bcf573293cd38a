// Model-based monitors of the containers: list, red-black tree, stack.
#include "vh.hpp"
#include "util/list.h"
#include "util/rbtree.h"
#include "util/stack.h"
#include <memory>
#include <cmath>
using namespace GInv;
using vh::Rng;

template <class T> static T val(Rng& r);
template <> long val<long>(Rng& r) { return r.range(-50, 50); }
template <> double val<double>(Rng& r) { return r.range(-500, 500) / 4.0; }
template <> char val<char>(Rng& r) { return (char)r.range(0, 255); }
static int pool[64];
template <> int* val<int*>(Rng& r) { return pool + r.range(0, 63); }

template <class L, class T> static void same(const L& l, const std::vector<T>& m, const char* where) {
  vh::ok(l.length() == m.size(), "length", where);
  vh::ok((bool)l == !m.empty(), "empty-flag", where);
  size_t k=0;
  for (typename L::ConstIterator i(l.begin()); i; ++i, ++k) {
    vh::ok(k < m.size(), "too-many-elements", where);
    vh::ok(i.data() == m[k], "element", where);
  }
  vh::ok(k == m.size(), "too-few-elements", where);
  if (!m.empty()) vh::ok(l.head() == m[0], "head", where);
}
template <class T> static void list(Rng& r, int size) {
  typedef List<T> L; typedef std::vector<T> M;
  Allocator al[2];
  {
    std::vector<std::unique_ptr<L>> l; std::vector<M> m; std::vector<int> own; // owning arena of each list
    int n=r.range(1, 3);
    for (int i=0; i < n; i++) { int o=r.range(0, 1); l.emplace_back(new L(&al[o])); m.emplace_back(); own.push_back(o); }
    std::string trace;
    for (int op=0; op < size * 6; op++) {
      int i=r.range(0, n-1), k=r.range(0, 15);
      trace += (char)('a' + k);
      switch (k) {
        case 0: case 1: case 2: { T v=val<T>(r); l[i]->push(v); m[i].insert(m[i].begin(), v); break; }
        case 3: if (!m[i].empty()) { T v=l[i]->pop(); vh::ok(v == m[i][0], "pop"); m[i].erase(m[i].begin()); } break;
        case 4: case 5: case 6: { // insert at a position, iterator then stands on the new element
          size_t p=r.range(0, (long)m[i].size()); typename L::Iterator it(l[i]->begin());
          for (size_t q=0; q < p; q++) ++it;
          vh::ok((bool)it == (p < m[i].size()), "iterator-end");
          T v=val<T>(r); it.insert(v); m[i].insert(m[i].begin()+p, v);
          vh::ok(it && it.data() == v, "iterator-after-insert");
          ++it; vh::ok((bool)it == (p+1 < m[i].size()), "iterator-after-insert-next");
          break; }
        case 7: case 8: if (!m[i].empty()) {
          size_t p=r.range(0, (long)m[i].size()-1); typename L::Iterator it(l[i]->begin());
          for (size_t q=0; q < p; q++) ++it;
          it.del(); m[i].erase(m[i].begin()+p);
          vh::ok((bool)it == (p < m[i].size()), "iterator-after-del-end");
          if (it) vh::ok(it.data() == m[i][p], "iterator-after-del");
          break; } break;
        case 9: if (!m[i].empty()) { // move one node inside a list or between lists of one arena
          int j=r.range(0, n-1);
          if (own[j] != own[i]) break;
          size_t p=r.range(0, (long)m[i].size()-1); typename L::Iterator it(l[i]->begin());
          for (size_t q=0; q < p; q++) ++it;
          T v=m[i][p]; typename L::ConstIterator node=it.get(); m[i].erase(m[i].begin()+p);
          vh::ok(node.data() == v, "get");
          same(*l[i], m[i], "after get");
          size_t d=r.range(0, (long)m[j].size()); typename L::Iterator jt(l[j]->begin());
          for (size_t q=0; q < d; q++) ++jt;
          jt.insert(node); m[j].insert(m[j].begin()+d, v);
          vh::ok(jt && jt.data() == v, "insert-node");
          break; } break;
        case 10: { int j=r.range(0, n-1); if (j != i) { l[i]->swap(*l[j]); std::swap(m[i], m[j]); std::swap(own[i], own[j]); } break; }
        case 11: { int j=r.range(0, n-1); if (j != i) { *l[i] = *(const L*)l[j].get(); m[i] = m[j]; same(*l[j], m[j], "source of assignment"); } break; }
        case 12: { int o=r.range(0, 1); std::unique_ptr<L> c(new L(&al[o], *l[i])); same(*c, m[i], "copy"); if (r.chance(1, 2)) { l[i] = std::move(c); own[i] = o; } break; }
        case 13: if (r.chance(1, 3)) { if (r.chance(1, 2)) l[i]->clear(); else { typename L::Iterator it(l[i]->begin()); size_t p=r.range(0, (long)m[i].size()); for (size_t q=0; q < p; q++) ++it; while (it) it.del(); m[i].resize(p); break; } m[i].clear(); } break;
        case 14: { L c(std::move(*l[i])); same(c, m[i], "moved to"); same(*l[i], M(), "moved from"); c.swap(*l[i]); break; }
        case 15: { int j=r.range(0, n-1); if (j != i) { *l[i] = std::move(*l[j]); m[i] = m[j]; own[i] = own[j]; m[j].clear(); } break; }
      }
      same(*l[i], m[i], "after step");
      if (op % 7 == 0) for (int j=0; j < n; j++) same(*l[j], m[j], "all");
      if (!m[i].empty() && r.chance(1, 4)) { // write through a const iterator
        typename L::ConstIterator it(((const L*)l[i].get())->begin()); size_t p=r.range(0, (long)m[i].size()-1);
        for (size_t q=0; q < p; q++) ++it;
        T v=val<T>(r); it.data() = v; m[i][p] = v;
      }
    }
    for (int j=0; j < n; j++) same(*l[j], m[j], "end");
    vh::count("list_ops", size * 6); vh::seen(trace);
  }
  vh::ok(al[0].size() == 0 && al[1].size() == 0, "list-memory-not-returned", vh::str(al[0].size()) + " " + vh::str(al[1].size()));
}

// ---- red-black tree
static int cmpLong(const long a, const long b) { return a < b ? -1: a > b ? 1: 0; }
static int cmpPtr(int* const a, int* const b) { return a < b ? -1: a > b ? 1: 0; }
static int cmpRev(const long a, const long b) { return a > b ? -7: a < b ? 3: 0; } // any sign convention: only the sign counts
template <class Tr> static int shape(typename Tr::ConstIterator i, bool parentRed, int depth, int& maxd, size_t& n, const char* where) {
  if (!i) return 0;
  ++n; maxd = std::max(maxd, depth);
  vh::ok(!(parentRed && i.color() == Tr::Red), "red-red", where);
  int a=shape<Tr>(i.left(), i.color() == Tr::Red, depth+1, maxd, n, where);
  int b=shape<Tr>(i.right(), i.color() == Tr::Red, depth+1, maxd, n, where);
  vh::ok(a == b, "black-height", where);
  return a + (i.color() == Tr::Black ? 1: 0);
}
template <class Tr, class S> static void sameTree(const Tr& t, const S& s, const char* where) {
  vh::ok((size_t)t.length() == s.size(), "length", where);
  vh::ok((bool)t == !s.empty(), "empty-flag", where);
  if (s.empty()) { vh::ok(!t.minimum() && !t.maximum() && !t.root(), "empty-ends", where); return; }
  auto k=s.begin();
  for (typename Tr::ConstIterator i=t.minimum(); i; ++i, ++k) { vh::ok(k != s.end(), "too-many", where); vh::ok(i.key() == *k, "ascending-key", where); }
  vh::ok(k == s.end(), "too-few", where);
  auto q=s.rbegin();
  for (typename Tr::ConstIterator i=t.maximum(); i; --i, ++q) { vh::ok(q != s.rend(), "too-many-back", where); vh::ok(i.key() == *q, "descending-key", where); }
  vh::ok(q == s.rend(), "too-few-back", where);
  vh::ok(t.minimumKey() == *s.begin() && t.maximumKey() == *s.rbegin(), "ends", where);
  int maxd=0; size_t n=0;
  vh::ok(t.root().color() == Tr::Black, "red-root", where);
  shape<Tr>(t.root(), false, 1, maxd, n, where);
  vh::ok(n == s.size(), "reachable-nodes", where);
  vh::ok(maxd <= 2 * std::log2((double)n + 1) + 1e-9, "too-deep", where);
}
template <class T, int cmp(const T, const T)> struct Less { bool operator()(const T& a, const T& b) const { return cmp(a, b) < 0; } };
template <class T, int cmp(const T, const T)> static void tree(Rng& r, int size, std::function<T(Rng&)> gen) {
  typedef RBTree<T, cmp> Tr; typedef std::set<T, Less<T, cmp>> S;
  Allocator al[2];
  {
    std::vector<std::unique_ptr<Tr>> t; std::vector<S> s; std::vector<int> own;
    int n=r.range(1, 2);
    for (int i=0; i < n; i++) { int o=r.range(0, 1); t.emplace_back(new Tr(&al[o])); s.emplace_back(); own.push_back(o); }
    int bias=r.range(2, 8), mode=r.range(0, 3); T last=gen(r); std::string trace;
    for (int op=0; op < size * 8; op++) {
      int i=r.range(0, n-1), k=r.range(0, 19);
      if (op > size * 6) bias = 1; // drain towards the end
      if (k < 14) {
        T v=gen(r);
        if (k < bias) { if (s[i].insert(v).second) { t[i]->insert(v); trace += '+'; } last = v; }
        else if (!s[i].empty()) {
          auto x=s[i].lower_bound(v); if (x == s[i].end()) x = s[i].begin();
          if (mode == 1) x = s[i].begin(); else if (mode == 2) x = std::prev(s[i].end());
          T w=*x; s[i].erase(x);
          if (r.chance(1, 2)) t[i]->remove(w); else { typename Tr::ConstIterator it=t[i]->find(w); vh::ok(it && it.key() == w, "find-before-remove"); t[i]->remove(it); }
          trace += '-';
        }
      }
      else switch (k) {
        case 14: case 15: for (int q=0; q < 4; q++) {
          T v=(q == 0) ? last: gen(r); auto it=t[i]->find(v);
          vh::ok((bool)it == (s[i].count(v) > 0), "find"); if (it) vh::ok(it.key() == v, "find-key");
          auto lo=s[i].lower_bound(v), up=s[i].upper_bound(v);
          auto p=t[i]->findPrev(v); vh::ok((bool)p == (lo != s[i].begin()), "findPrev"); if (p) vh::ok(p.key() == *std::prev(lo), "findPrev-key");
          auto x=t[i]->findNext(v); vh::ok((bool)x == (up != s[i].end()), "findNext"); if (x) vh::ok(x.key() == *up, "findNext-key");
          } break;
        case 16: { int o=r.range(0, 1); std::unique_ptr<Tr> c(new Tr(*t[i], &al[o])); sameTree(*c, s[i], "copy"); if (r.chance(1, 2)) { t[i] = std::move(c); own[i] = o; } trace += 'c'; break; }
        case 17: if (n > 1) { *t[i] = *t[1-i]; s[i] = s[1-i]; sameTree(*t[1-i], s[1-i], "source of assignment"); trace += '='; } break;
        case 18: if (n > 1) { t[0]->swap(*t[1]); std::swap(s[0], s[1]); std::swap(own[0], own[1]); trace += 's'; } break;
        default: if (r.chance(1, 6)) { t[i]->clear(); s[i].clear(); trace += '0'; }
                 else if (r.chance(1, 3)) { Tr c(std::move(*t[i])); sameTree(c, s[i], "moved to"); sameTree(*t[i], S(), "moved from"); c.swap(*t[i]); }
      }
      if (op % 3 == 0 || size < 6) sameTree(*t[i], s[i], "step");
    }
    for (int j=0; j < n; j++) sameTree(*t[j], s[j], "end");
    vh::count("tree_ops", size * 8); vh::seen(trace);
  }
  vh::ok(al[0].size() == 0 && al[1].size() == 0, "tree-memory-not-returned", vh::str(al[0].size()) + " " + vh::str(al[1].size()));
}
static void treeLong(Rng& r, int size) {
  long w=r.pick(std::vector<long>{5, 20, 100, 1000, 1l << 40});
  int mode=r.range(0, 3); long c=0;
  auto g=[&c, w, mode](Rng& r) -> long { if (mode == 0) return c += r.range(0, 2); if (mode == 1) return c -= r.range(0, 2); return r.range(-w, w); };
  if (r.chance(1, 3)) tree<long, cmpRev>(r, size, g); else tree<long, cmpLong>(r, size, g);
}
static void treePtr(Rng& r, int size) { tree<int*, cmpPtr>(r, size, [](Rng& r) { return pool + r.range(0, 63); }); }

// ---- stack
template <class T> static void sameStack(const Stack<T>& t, const std::vector<T>& m, const char* where) {
  vh::ok(t.deep() == m.size(), "depth", where);
  vh::ok((bool)t == !m.empty(), "empty-flag", where);
  vh::ok(t.size() >= t.deep(), "capacity", where);
  for (size_t k=0; k < m.size(); k++) vh::ok(t[k] == m[k], "element", where);
  if (!m.empty()) vh::ok(t.top() == m.back(), "top", where);
}
template <class T> static void stack(Rng& r, int size) {
  typedef Stack<T> K; typedef std::vector<T> M;
  Allocator al[2];
  {
    std::vector<std::unique_ptr<K>> t; std::vector<M> m;
    int n=r.range(1, 2);
    for (int i=0; i < n; i++) { t.emplace_back(new K(r.chance(1, 2) ? r.range(1, 3): r.range(1, 40), &al[r.range(0, 1)])); m.emplace_back(); }
    std::string trace;
    for (int op=0; op < size * 10; op++) {
      int i=r.range(0, n-1), k=r.range(0, 24);
      if (k < 14) { int c=r.range(1, 4); while (c--) { T v=val<T>(r); t[i]->push(v); m[i].push_back(v); } trace += '+'; }
      else if (k < 20) { int c=r.range(1, 4); while (c-- && !m[i].empty()) { vh::ok(t[i]->top() == m[i].back(), "top"); t[i]->pop(); m[i].pop_back(); } trace += '-'; }
      else if (k == 20) { std::unique_ptr<K> c(new K(*t[i], &al[r.range(0, 1)])); sameStack(*c, m[i], "copy"); T v=val<T>(r); c->push(v); M mm=m[i]; mm.push_back(v); sameStack(*c, mm, "copy then push"); if (r.chance(1, 2)) { t[i] = std::move(c); m[i] = mm; } trace += 'c'; }
      else if (k == 21 && n > 1) { *t[i] = *t[1-i]; m[i] = m[1-i]; sameStack(*t[1-i], m[1-i], "source"); trace += '='; }
      else if (k == 22 && n > 1) { t[0]->swap(*t[1]); std::swap(m[0], m[1]); trace += 's'; }
      else if (k == 23 && r.chance(1, 4)) { t[i]->reset(); m[i].clear(); trace += '0'; }
      sameStack(*t[i], m[i], "step");
    }
    for (int j=0; j < n; j++) sameStack(*t[j], m[j], "end");
    vh::count("stack_ops", size * 10); vh::seen(trace);
  }
  vh::ok(al[0].size() == 0 && al[1].size() == 0, "stack-memory-not-returned", vh::str(al[0].size()) + " " + vh::str(al[1].size()));
}
// ---- containers of many thousand elements
static void bigList(Rng& r, int size) {
  Allocator al[2];
  {
    List<long> l(al), k(al + 1); std::vector<long> m, q; long n=r.chance(1, 6) ? size > 3 && !vh::slow && r.chance(1, 8) ? r.range(66000, 140000): r.range(1000, 3000l * size): r.range(100, 600);
    while ((long)m.size() < n) { // alternately from the front and through an iterator that walks on
      long c=n > 60000 ? r.range(1000, 30000): r.range(1, 300);
      if (r.chance(1, 2)) { std::vector<long> f; for (long i=0; i < c; i++) { long x=r.range(-1000000, 1000000); l.push(x); f.push_back(x); } m.insert(m.begin(), f.rbegin(), f.rend()); }
      else { List<long>::Iterator it(l.begin()); std::vector<long> o; size_t at=r.range(0, (long)m.size()); for (size_t i=0; i < at; i++) ++it;
        for (long i=0; i < c; i++) { long x=r.range(-1000000, 1000000); it.insert(x); ++it; o.push_back(x); }
        m.insert(m.begin() + at, o.begin(), o.end()); }
    }
    same(l, m, "filled"); vh::count("big_list_elements", m.size());
    k = l; same(k, m, "copied");
    { List<long>::Iterator it(l.begin()); std::vector<long> o; long per=r.range(2, 9), i=0; // delete most of them in one pass
      for (long x: m) { if (i++ % per) it.del(); else { ++it; o.push_back(x); } }
      vh::ok(!it, "end"); same(l, o, "thinned"); same(k, m, "copy"); q = o; }
    k = l; same(k, q, "shorter copy"); l.swap(k); same(l, q, "swapped");
    size_t at=0; while (q.size() - at > 10) { vh::ok(l.head() == q[at], "head"); l.pop(); at++; }
    same(l, std::vector<long>(q.begin() + at, q.end()), "popped"); vh::seen(vh::str(n));
  }
  vh::ok(al[0].size() == 0 && al[1].size() == 0, "list-memory-not-returned");
}
static void bigTree(Rng& r, int size) {
  typedef RBTree<long, cmpLong> Tr; Allocator al[2];
  {
    Tr t(al); std::set<long, Less<long, cmpLong>> s; long n=r.chance(1, 6) ? size > 3 && !vh::slow && r.chance(1, 10) ? r.range(66000, 80000): r.range(500, 1500l * size): r.range(100, 600), c=0; int mode=r.range(0, 4);
    auto key=[&]() -> long { c++; switch (mode) { case 0: return c; case 1: return -c; case 2: return c % 2 ? c: -c; case 3: return (c * 7919) % (3 * n); default: return r.range(0, 4 * n); } };
    for (int phase=0; phase < 3; phase++) {
      while ((long)s.size() < n) { long x=key(); if (s.insert(x).second) t.insert(x); if (c > 20 * n) break; }
      sameTree(t, s, "filled"); vh::count("big_tree_entries", s.size());
      long left=r.range(0, n / 2); int how=r.range(0, 2);
      while ((long)s.size() > left) { auto x=how == 0 ? s.begin(): how == 1 ? std::prev(s.end()): s.lower_bound(r.range(*s.begin(), *s.rbegin())); long v=*x; s.erase(x); t.remove(v); }
      sameTree(t, s, "drained");
      if (phase == 1) { Tr u(t, al + 1); sameTree(u, s, "copied"); u.swap(t); sameTree(t, s, "swapped"); u.clear(); u = t; sameTree(u, s, "assigned"); }
    }
    vh::seen(vh::str(n) + ":" + vh::str(mode));
  }
  vh::ok(al[0].size() == 0 && al[1].size() == 0, "tree-memory-not-returned");
}
static void bigStack(Rng& r, int size) {
  Allocator al[2];
  {
    Stack<long> t(r.range(1, 5), al); std::vector<long> m; long n=r.chance(1, 6) ? r.range(1000, 20000l * size): r.range(100, 600);
    for (int phase=0; phase < 3; phase++) {
      while ((long)m.size() < n) { long x=r.range(-1000000, 1000000); t.push(x); m.push_back(x); if ((m.size() & 1023) == 0) vh::ok(t.deep() == m.size() && t[m.size() / 2] == m[m.size() / 2] && t[0] == m[0], "growing"); }
      sameStack(t, m, "filled"); vh::count("big_stack_elements", m.size());
      long left=r.range(0, n); while ((long)m.size() > left) { vh::ok(t.top() == m.back(), "top"); t.pop(); m.pop_back(); }
      sameStack(t, m, "drained");
      if (phase == 1) { Stack<long> u(t, al + 1); sameStack(u, m, "copied"); u.push(1); m.push_back(1); t.swap(u); sameStack(t, m, "swapped"); u = t; sameStack(u, m, "assigned"); }
    }
    vh::seen(vh::str(n));
  }
  vh::ok(al[0].size() == 0 && al[1].size() == 0, "stack-memory-not-returned");
}
int main(int c, char** v) {
  return vh::main_(c, v, {
    {"list", list<long>, 3, 40, true}, {"listd", list<double>, 1, 40, true}, {"listp", list<int*>, 1, 40, true}, {"listc", list<char>, 1, 40, true},
    {"tree", treeLong, 4, 60, true}, {"treep", treePtr, 1, 60, true},
    {"stack", stack<long>, 2, 40, true}, {"stackc", stack<char>, 1, 40, true}, {"stackp", stack<int*>, 1, 40, true},
    {"biglist", bigList, 1, 4, false}, {"bigtree", bigTree, 1, 4, false}, {"bigstack", bigStack, 1, 4, false}});
}
