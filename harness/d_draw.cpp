// Monitors of the diagrams: a picture of a search tree, Janet tree or forest is read back
// (with graphviz's own parser) and compared with the tree shown by the iterators.
#include "vh.hpp"
#include "util/allocator.h"
#include "util/list.h"
#include "util/rbtree.h"
#include "ginv/wrap.h"
#include "ginv/janet.h"
#include "ginv/gb.h"
#include "ginv/mcompletion.h"
#include "conv.hpp"
#include <memory>
#include <graphviz/cgraph.h>
#include <dlfcn.h>
using namespace GInv;
using vh::Rng;
typedef std::vector<int> V;

// ---- what a drawing takes from graphviz it gives back: contexts, graphs and layouts are
// counted on their way into the library (graphviz and pango themselves lose some bytes per
// label, so the heap as a whole says nothing)
static long contexts=0, graphs=0, layouts=0;
template <class F> static F real(const char* name) { F f=(F)dlsym(RTLD_NEXT, name); if (!f) { fprintf(stderr, "no %s\n", name); _exit(2); } return f; }
extern "C" {
GVC_t* gvContext(void) { ++contexts; return real<GVC_t* (*)(void)>("gvContext")(); }
int gvFreeContext(GVC_t* c) { --contexts; return real<int (*)(GVC_t*)>("gvFreeContext")(c); }
int gvLayout(GVC_t* c, graph_t* g, const char* e) { ++layouts; return real<int (*)(GVC_t*, graph_t*, const char*)>("gvLayout")(c, g, e); }
int gvFreeLayout(GVC_t* c, graph_t* g) { --layouts; return real<int (*)(GVC_t*, graph_t*)>("gvFreeLayout")(c, g); }
Agraph_t* agopen(char* n, Agdesc_t d, Agdisc_t* x) { ++graphs; return real<Agraph_t* (*)(char*, Agdesc_t, Agdisc_t*)>("agopen")(n, d, x); }
int agclose(Agraph_t* g) { if (g == agroot(g)) --graphs; return real<int (*)(Agraph_t*)>("agclose")(g); }
}
template <class T> static void picture(const T& t, const char* format, const char* file) {
  static bool warm=false; // the first drawing of each kind may set up what all later ones share
  long c=contexts, g=graphs, l=layouts;
  t.draw(format, file);
  vh::ok(graphs == g, "graph-not-closed"); vh::ok(layouts == l, "layout-not-freed");
  vh::ok(contexts >= 0 && (!warm || contexts <= c), "context-not-released"); warm = true;
  vh::count("drawings");
}

// ---- a picture, kept in anonymous memory
struct Pic {
  int fd; std::string path;
  Pic(): fd(memfd_create("pic", 0)), path("/proc/self/fd/" + vh::str(fd)) {}
  ~Pic() { close(fd); }
  std::string text() const { std::string r; char b[65536]; off_t o=0; ssize_t n; while ((n=pread(fd, b, sizeof b, o)) > 0) { r.append(b, n); o += n; } return r; }
};
struct Node { std::string label; bool html=false; std::map<std::string, std::string> attr; std::vector<std::pair<int, std::string>> out; int in=0; };
struct Graph {
  std::vector<Node> n; int edges=0;
  // takes the file apart; every name and attribute is copied out
  explicit Graph(const std::string& s) {
    Agraph_t* g=agmemread(s.c_str()); vh::ok(g != nullptr, "picture-unreadable", s.substr(0, 400));
    std::map<Agnode_t*, int> id;
    for (Agnode_t* v=agfstnode(g); v; v=agnxtnode(g, v)) {
      Node x; char* l=agget(v, (char*)"label"); x.html = l && aghtmlstr(l);
      x.label = !l || std::string(l) == "\\N" ? std::string(agnameof(v)): std::string(l);
      for (const char* a: {"color", "shape", "style"}) { char* c=agget(v, (char*)a); x.attr[a] = c ? c: ""; }
      id[v] = n.size(); n.push_back(x);
    }
    for (Agnode_t* v=agfstnode(g); v; v=agnxtnode(g, v))
      for (Agedge_t* e=agfstout(g, v); e; e=agnxtout(g, e)) {
        char* st=agget(e, (char*)"style"); char* dir=agget(e, (char*)"dir");
        vh::ok(!dir || !*dir || std::string(dir) == "forward", "edge-direction");
        n[id[v]].out.push_back(std::make_pair(id[aghead(e)], st ? st: "")); n[id[aghead(e)]].in++; edges++;
      }
    agclose(g);
  }
};
static void svg(const std::string& s, const Graph& g) { // the rendered picture shows as many boxes and arrows
  auto times=[&](const char* k) { int c=0; for (size_t p=0; (p=s.find(k, p)) != std::string::npos; p++) c++; return c; };
  vh::ok(times("class=\"node\"") == (int)g.n.size() && times("class=\"edge\"") == g.edges, "svg-elements");
  vh::count("rendered");
}
static const char* bad="/nonexistent/directory/picture.dot";

// ---- search trees
static int cmpInt(const int a, const int b) { return (a < b) ? -1: (a > b); }
static int cmpRev(const int a, const int b) { return (a > b) ? -1: (a < b); }
template <class T> static std::string shape(typename T::ConstIterator j) { // an undirected picture of the children
  if (!j) return "nullptr";
  std::string a=shape<T>(j.left()), b=shape<T>(j.right()); if (b < a) a.swap(b);
  return vh::str(j.key()) + (j.color() == T::Red ? "r": "b") + "(" + a + "," + b + ")";
}
static std::string shape(const Graph& g, int k, std::set<int>& done) {
  const Node& x=g.n[k]; vh::ok(done.insert(k).second, "drawn-node-reached-twice", x.label);
  if (x.label == "nullptr") { vh::ok(x.out.empty() && x.attr.at("shape") == "box", "drawn-leaf"); return x.label; }
  vh::ok(x.out.size() == 2, "drawn-children", x.label);
  for (auto& e: x.out) vh::ok(e.second == "solid" || e.second.empty(), "drawn-edge-style");
  std::string a=shape(g, x.out[0].first, done), b=shape(g, x.out[1].first, done); if (b < a) a.swap(b);
  return x.label + (x.attr.at("color").empty() ? "b": "r") + "(" + a + "," + b + ")";
}
template <class T> static void draw(T& t, const std::set<int>& keys) {
  std::string before=shape<T>(t.root());
  Pic p; picture(t, "dot", p.path.c_str());
  Graph g(p.text());
  auto w=[&] { return before + " drawn as " + p.text().substr(0, 1500); };
  vh::okf(g.n.size() == 2 * keys.size() + 1 && g.edges == 2 * (int)keys.size(), "drawn-nodes", w);
  std::vector<int> roots; for (size_t i=0; i < g.n.size(); i++) if (!g.n[i].in) roots.push_back(i);
  vh::okf(roots.size() == 1, "drawn-root", w);
  std::set<int> done; std::string s=shape(g, roots[0], done);
  vh::okf(s == before, "drawn-tree", w); vh::okf(done.size() == g.n.size(), "drawn-unreachable", w);
  vh::ok(shape<T>(t.root()) == before, "drawing-changed-the-tree");
  int k=0; typename T::ConstIterator i(t.minimum()); while (i) { ++k; ++i; } vh::ok(k == (int)keys.size() && t.length() == k, "drawing-changed-the-tree");
  vh::count("drawn_elements", keys.size()); vh::seen(s);
}
template <class T> static void search(Rng& r, int size) {
  Allocator al[1]; T t(al); std::set<int> keys;
  int N=r.chance(1, 12) ? 0: r.range(1, 2 + size * 2), wide=r.chance(1, 2) ? 1000000: N * 2;
  for (int i=0; i < N; i++) { int k=(int)r.range(-wide, wide); if (keys.insert(k).second) t.insert(k); }
  while (!keys.empty() && r.chance(2, 5)) { auto k=keys.begin(); std::advance(k, r.range(0, keys.size() - 1)); t.remove(*k); keys.erase(k); }
  std::string d; for (int k: keys) d += vh::str(k) + " "; vh::desc(d);
  draw(t, keys);
  if (r.chance(1, 4)) { Pic a, b; picture(t, "svg", a.path.c_str()); picture(t, "dot", b.path.c_str()); svg(a.text(), Graph(b.text())); }
  if (r.chance(1, 10)) { picture(t, "dot", bad); vh::count("unwritable"); draw(t, keys); }
}
static void rbtree(Rng& r, int size) { if (r.chance(1, 3)) search<RBTree<int, cmpRev>>(r, size); else search<RBTree<int, cmpInt>>(r, size); }

// ---- Janet trees: [label|next variable|next degree]
static std::string cells(const Wrap& w, bool nmd) {
  std::string s; int n=w.lm().size();
  for (int i=0; i < n; i++) s += (w.isGB() ? "B": "") + vh::str(w.lm()[i]) + " ";
  s += "/"; for (int i=0; i < n; i++) s += w.NM(i) ? "* ": "- ";
  if (nmd) { s += "/"; for (int i=0; i < n; i++) s += w.NMd(i) ? "# ": "- "; }
  s += "/"; for (int i=0; i < n; i++) s += w.build(i) ? "& ": "- ";
  return s;
}
static std::string cells(const std::string& h) { // the same from an HTML table
  std::string s; bool bold=false, first=true; std::string cell;
  for (size_t i=0; i < h.size(); ) {
    if (h[i] == '<') {
      size_t e=h.find('>', i); if (e == std::string::npos) return "broken";
      std::string tag=h.substr(i + 1, e - i - 1); for (char& c: tag) c = tolower(c); tag = tag.substr(0, tag.find(' '));
      if (tag == "tr") { if (!first) s += "/"; first = false; }
      else if (tag == "td") { cell.clear(); bold = false; }
      else if (tag == "b") bold = true;
      else if (tag == "/td") s += (cell.empty() ? std::string("-"): (bold ? "B": "") + cell) + " ";
      i = e + 1;
    }
    else if (h.compare(i, 5, "&amp;") == 0) { cell += '&'; i += 5; }
    else { if (h[i] != ' ' && h[i] != '\n') cell += h[i]; ++i; }
  }
  return s;
}
static std::string shape(Janet::ConstIterator j, bool nmd, long& nodes) {
  if (!j) return "";
  ++nodes;
  std::string s=j.wrap() ? cells(*j.wrap(), nmd): vh::str(j.degree());
  std::string a=shape(j.nextVar(), nmd, nodes), b=shape(j.nextDeg(), nmd, nodes);
  return "[" + s + "|" + a + "|" + b + "]";
}
static std::string jshape(const Graph& g, int k, std::set<int>& done) {
  const Node& x=g.n[k]; vh::ok(done.insert(k).second, "drawn-node-reached-twice", x.label);
  std::string a, b;
  for (auto& e: x.out) {
    std::string& z=e.second == "dotted" ? a: b;
    vh::ok(e.second == "dotted" || e.second == "solid", "drawn-edge-style", e.second);
    vh::ok(z.empty(), "drawn-children", x.label); z = jshape(g, e.first, done);
  }
  return "[" + (x.html ? cells(x.label): x.label) + "|" + a + "|" + b + "]";
}
static std::string plain(const std::string& s) { std::string r; for (size_t i=0; i < s.size(); i++) if (s[i] == '\\' && i + 1 < s.size() && s[i+1] == 'n') { r += '\n'; ++i; } else r += s[i]; return r; }
// the picture is a header and the given trees
static void compare(const std::string& text, std::string header, std::vector<std::string> trees, long nodes) {
  Graph g(text); std::vector<std::string> drawn; std::set<int> done; int heads=0;
  auto w=[&] { std::string t; for (auto& x: trees) t += x + "\n"; return header + "\n" + t + " drawn as " + text.substr(0, 3000); };
  for (size_t i=0; i < g.n.size(); i++) {
    if (g.n[i].in) { vh::okf(g.n[i].in == 1, "drawn-indegree", w); continue; }
    if (g.n[i].label[0] == '#') { vh::okf(plain(g.n[i].label) == header && g.n[i].out.empty(), "drawn-header", w); ++heads; }
    else drawn.push_back(jshape(g, i, done));
  }
  vh::okf(heads == 1, "drawn-header", w);
  std::sort(drawn.begin(), drawn.end()); std::sort(trees.begin(), trees.end());
  vh::okf((long)g.n.size() == nodes + 1 && (long)done.size() == nodes, "drawn-nodes", w);
  vh::okf(drawn == trees, "drawn-tree", w);
  vh::count("drawn_nodes", nodes); for (auto& t: trees) vh::seen(t);
}
static void draw(const Janet& t, Rng& r) {
  long nodes=0; std::string s=shape(t.begin(), false, nodes);
  std::ostringstream h; h << "#Janet = " << t.size() << "\n#HP = "; HilbertPoly hp; if (t.size()) t.buildHP(hp); h << hp;
  std::vector<std::string> v; if (nodes) v.push_back(s);
  Pic p; picture(t, "dot", p.path.c_str()); compare(p.text(), h.str(), v, nodes);
  long again=0; vh::ok(shape(t.begin(), false, again) == s, "drawing-changed-the-tree");
  if (r.chance(1, 5)) { Pic a; picture(t, "svg", a.path.c_str()); svg(a.text(), Graph(p.text())); }
  if (r.chance(1, 10)) { picture(t, "dot", bad); vh::count("unwritable"); }
}
static V rv(Rng& r, int n, int d) {
  V v(n, 0); int k=r.range(0, d), style=r.range(0, 2);
  for (int i=0; i < k; i++) v[style == 0 ? r.range(0, n-1): style == 1 ? r.range(0, std::min(1, n-1)): r.range(std::max(0, n-2), n-1)]++;
  return v;
}
static int deg(const V& a) { int d=0; for (int x: a) d += x; return d; }
static void janet(Rng& r, int size) {
  int n=r.range(1, 5), N=r.chance(1, 12) ? 0: r.range(1, 2 + size), d=r.range(1, 2 + size / 2);
  Allocator al[1]; Janet t(al); std::vector<std::unique_ptr<Wrap>> w;
  for (int i=0; i < N; i++) {
    V v=rv(r, n, d); if (!deg(v)) continue;
    conv::MonomBox m(ref::Mon(-1, v)); if (t.find(*m.m)) continue;
    vh::desc(ref::str(ref::Mon(-1, v)));
    w.emplace_back(new Wrap((const Monom&)*m.m)); t.insert(w.back().get());
    if (r.chance(1, 6)) { // a prolongation: marked with & and, as a tree element, not bold
      Wrap* a=w[r.range(0, w.size() - 1)].get();
      for (int q=0; q < n; q++) if (a->NM(q) && !a->build(q)) {
        std::unique_ptr<Wrap> x(new Wrap(q, a)); vh::count("prolongations");
        if (!t.find(x->lm())) { t.insert(x.get()); w.push_back(std::move(x)); }
        break;
      }
    }
  }
  draw(t, r);
}
static void completed(Rng& r, int size) {
  int n=r.range(1, 4), N=r.range(1, 2 + size / 2); Allocator al[1]; MJanet b(al); int k=0;
  for (int i=0; i < N; i++) { V v=rv(r, n, r.range(1, 3 + size / 4)); if (!deg(v)) continue; conv::MonomBox m(ref::Mon(-1, v)); if (!b.tree().find(*m.m)) { vh::desc(ref::str(ref::Mon(-1, v))); b.push(*m.m); ++k; } }
  if (!k) throw vh::Skip{"no element"};
  if (r.chance(1, 3)) draw(b.tree(), r);
  b.build(); draw(b.tree(), r); vh::count("completions");
}
static void forest(Rng& r, int size) {
  int n=r.range(1, 4), N=r.chance(1, 12) ? 0: r.range(1, 2 + size), maxd=r.chance(1, 4) ? 40: 8;
  Allocator al[1]; GB f(al); std::vector<std::unique_ptr<Wrap>> w; std::vector<V> cand, U;
  for (int i=0; i < N; i++) { V v=rv(r, n, maxd); if (deg(v)) cand.push_back(v); }
  std::sort(cand.begin(), cand.end(), [](const V& a, const V& b) { return deg(a) < deg(b); });
  int top=30;
  for (auto& v: cand) {
    bool in=false; for (auto& u: U) { bool dv=true; for (int q=0; q < n; q++) dv = dv && u[q] <= v[q]; in = in || dv; }
    if (in) continue;
    conv::MonomBox m(ref::Mon(-1, v)); vh::desc(ref::str(ref::Mon(-1, v)));
    w.emplace_back(new Wrap((const Monom&)*m.m)); f.insert(w.back().get()); U.push_back(v); if (deg(v) > top) top = deg(v);
  }
  // the trees of the forest by degree, read through the public index up to the highest degree in use
  auto trees=[&](long& nodes) { std::vector<std::string> t; int hi=0; for (auto& u: U) hi = std::max(hi, deg(u)); for (int i=0; i <= hi && !U.empty(); i++) { long k=0; std::string s=shape(f[i]->begin(), true, k); nodes += k; if (k) t.push_back(s); } return t; };
  long nodes=0; std::vector<std::string> t=trees(nodes);
  Pic p; picture(f, "dot", p.path.c_str()); compare(p.text(), "#GB = " + vh::str(U.size()), t, nodes);
  long again=0; vh::ok(trees(again) == t, "drawing-changed-the-tree");
  if (r.chance(1, 5)) { Pic a; picture(f, "svg", a.path.c_str()); svg(a.text(), Graph(p.text())); }
}

int main(int c, char** v) {
  return vh::main_(c, v, {{"rbtree", rbtree, 3, 24, false}, {"janet", janet, 4, 16, false}, {"completed", completed, 2, 12, false}, {"forest", forest, 3, 20, false}});
}
