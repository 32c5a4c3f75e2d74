// C12 - C14: the graph, merging graphs and the overlay, against a plain table of pairs.
#include "common.h"
#include "datastructures/graph/graph.hpp"
#include "datastructures/modified_graph/modified_graph.hpp"
#include <array>
#include <memory>
#include <stdexcept>
#include <string>
// four separate triangles, moved together to anywhere on the map
static const Pt T[4][3] = {{{0, 0}, {10, 0}, {4, 8}}, {{100, 3}, {120, 7}, {108, 30}}, {{-50, -40}, {-30, -41}, {-35, -20}}, {{-60, 60}, {-44, 61}, {-50, 75}}};
static Pt g_off;
static void anyOffset() { g_off = {sx_int("dx", -HALF + 60, HALF - 120), sx_int("dy", -MAXLAT + 41, MAXLAT - 75)}; }
static Pt at(Pt p) { return {p.x + g_off.x, p.y + g_off.y}; }
static Polygon tri(int k) { return Polygon({C(at(T[k][0])), C(at(T[k][1])), C(at(T[k][2]))}); }
struct State { bool on, mer; };
static const int MAXV = 12;
// the model: on / mer for every unordered pair
struct Model {
    int n = 0;
    std::vector<Pt> v;
    State s[MAXV][MAXV];
    Model() { for (auto &r : s) for (auto &x : r) x = {false, false}; }
    void add(int a, int b, bool m) { if (a == b) return; State &x = s[a][b]; x.mer = (x.on ? x.mer : true) & m; x.on = true; s[b][a] = x; }
    void del(int a, int b) { if (a != b) s[a][b] = s[b][a] = {false, false}; }
};
static Model modelOf(const IGraph &g) { Model m; for (auto &c : g.get_vertices()) { m.v.push_back(P(c)); m.n++; } return m; }
static bool g_throws;
template <class F> static bool ask(F f) { g_throws = false; try { return f(); } catch (const std::exception &) { g_throws = true; return false; } }
static bool pairsAgree(const IGraph &g, const Model &m) {
    bool ok = true;
    for (int i = 0; i < m.n; i++)
        for (int j = 0; j < m.n; j++) {
            bool e = ask([&] { return g.has_edge(C(m.v[i]), C(m.v[j])); });
            ok &= !g_throws & (e == m.s[i][j].on);
            bool x = ask([&] { return g.is_edge_meridian_crossing(C(m.v[i]), C(m.v[j])); });
            ok &= !g_throws & (x == (m.s[i][j].on & m.s[i][j].mer));
        }
    return ok;
}
static bool neighboursAgree(const IGraph &g, const Model &m) {
    bool ok = true;
    for (int i = 0; i < m.n; i++) {
        std::vector<Coordinate> ns;
        ask([&] { ns = g.get_neighbors(C(m.v[i])); return true; });
        ok &= !g_throws;
        std::vector<int> cnt(m.n, 0);
        for (auto &c : ns) {
            int hit = -1;
            for (int j = 0; j < m.n; j++) if (is(c, m.v[j])) hit = j;
            if (hit < 0) ok = false; else cnt[hit]++;
        }
        for (int j = 0; j < m.n; j++) ok &= cnt[j] == (m.s[i][j].on ? 1 : 0);
    }
    return ok;
}
static void checkGraph(const IGraph &g, const Model &m) {
    sx_assert(pairsAgree(g, m), "every pair is joined and marked as the insertions and removals say, both ways");
    sx_assert(neighboursAgree(g, m), "the neighbours of a vertex are the vertices joined to it, each once");
    bool ok = true;
    for (int i = 0; i < m.n; i++) ok &= g.has_vertex(C(m.v[i]));
    auto vs = g.get_vertices();
    ok &= (int)vs.size() == m.n;
    for (int i = 0; ok && i < m.n; i++) { int c = 0; for (auto &x : vs) c += is(x, m.v[i]); ok &= c == 1; }
    sx_assert(ok, "the vertices are those given, each once");
}
// one operation on a pair, on the graph and in the model
static void op(IGraph &g, Model &m, int i, int lo, int hi) {
    int k = (int)sx_pick(nm("op", i).c_str(), 0, 2), a = (int)sx_pick(nm("a", i).c_str(), lo, hi), b = (int)sx_pick(nm("b", i).c_str(), lo, hi);
    if (k < 2) { g.add_edge(C(m.v[a]), C(m.v[b]), k); m.add(a, b, k); }
    else { g.remove_edge(C(m.v[a]), C(m.v[b])); m.del(a, b); }
}
// bring pair (a,b) into any reachable state: 0 none, 1 plain, 2 marked, 3 both
static void put(IGraph &g, Model &m, int a, int b, int st) {
    if (st & 1) { g.add_edge(C(m.v[a]), C(m.v[b]), false); m.add(a, b, false); }
    if (st & 2) { g.add_edge(C(m.v[b]), C(m.v[a]), true); m.add(a, b, true); }
}
// ---- C13
// any state of a three-vertex graph, then any operation
extern "C" void c13_step() {
    anyOffset();
    Graph g({tri(0)});
    Model m = modelOf(g);
    sx_assert(m.n == 3, "a triangle has three vertices");
    put(g, m, 0, 1, (int)sx_pick("s01", 0, 3));
    put(g, m, 0, 2, (int)sx_pick("s02", 0, 3));
    put(g, m, 1, 2, (int)sx_pick("s12", 0, 3));
    op(g, m, 0, 0, 2);
    checkGraph(g, m);
    auto ps = g.get_polygons();
    sx_assert(ps.size() == 1 && ps[0] == tri(0), "the polygons are those given");
    sx_reach("end");
}
// sequences of operations on one pair among others
extern "C" void c13_history() {
    anyOffset();
    Graph g({tri(0), tri(1)});
    Model m = modelOf(g);
    put(g, m, 0, 3, (int)sx_pick("s03", 0, 3)); put(g, m, 1, 4, 2);
    int n = (int)sx_pick("n", 0, 4);
    for (int i = 0; i < n; i++) {
        int k = (int)sx_pick(nm("op", i).c_str(), 0, 2);
        bool rev = sx_bool(nm("r", i).c_str());
        int a = rev ? 4 : 1, b = rev ? 2 : 5;
        if (i & 1) std::swap(a, b);
        if (k < 2) { g.add_edge(C(m.v[a]), C(m.v[b]), k); m.add(a, b, k); } else { g.remove_edge(C(m.v[a]), C(m.v[b])); m.del(a, b); }
    }
    checkGraph(g, m);
    sx_reach("end");
}
// positions that are not vertices
extern "C" void c13_unknown() {
    anyOffset();
    Graph g({tri(0)});
    Model m = modelOf(g);
    put(g, m, 0, 1, 3);
    Pt p = anyPt("px", "py", HALF);
    bool vertex = same(p, m.v[0]) | same(p, m.v[1]) | same(p, m.v[2]);
    bool has = g.has_vertex(C(p));
    sx_assert(has == vertex, "a position is a vertex exactly when given as one");
    if (has) return;
    int k = (int)sx_pick("k", 0, 7);
    ask([&]() -> bool {
        if (k == 0) return g.has_edge(C(p), C(m.v[1]));
        if (k == 1) return g.has_edge(C(m.v[1]), C(p));
        if (k == 2) return g.is_edge_meridian_crossing(C(p), C(m.v[1]));
        if (k == 3) return g.is_edge_meridian_crossing(C(m.v[1]), C(p));
        if (k == 4) { g.get_neighbors(C(p)); return true; }
        if (k == 5) { g.add_edge(C(p), C(m.v[1]), true); return true; }
        if (k == 6) { g.add_edge(C(m.v[1]), C(p), false); return true; }
        g.remove_edge(C(m.v[1]), C(p)); return true;
    });
    sx_assert(g_throws, "asking about a position that is not a vertex raises an error");
    checkGraph(g, m);
    sx_reach("end");
}
// vertices added later
extern "C" void c13_add_vertex() {
    anyOffset();
    Graph g({tri(0)});
    Model m = modelOf(g);
    put(g, m, 0, 1, (int)sx_pick("s01", 0, 3));
    put(g, m, 0, 2, (int)sx_pick("s02", 0, 3));
    put(g, m, 1, 2, (int)sx_pick("s12", 0, 2));
    int n = (int)sx_pick("n", 1, 2), again = (int)sx_pick("again", 0, 1);
    for (int i = 0; i < n; i++) { g.add_vertex(C(at(T[1][i]))); m.v.push_back(at(T[1][i])); m.n++; }
    if (again) g.add_vertex(C(m.v[1]));
    checkGraph(g, m);
    op(g, m, 0, 1, m.n - 1);
    checkGraph(g, m);
    sx_reach("end");
}
// many vertices
extern "C" void c13_many() {
    sx_cfg("real_hash", 1);
    const int N = 300;
    std::vector<Coordinate> ring;
    for (int i = 0; i < N; i++) ring.push_back(Coordinate((int32_t)(i * 1000 - 90000), (int32_t)(i * i - 40000)));
    Graph g({Polygon(ring)});
    auto v = g.get_vertices();
    sx_assert((int)v.size() == N, "all vertices of a long outline");
    static const int pk[5] = {0, 43, 255, 256, 299};
    int a = pk[sx_pick("a", 0, 4)], b = pk[sx_pick("b", 0, 4)];
    bool mer = sx_bool("m"), rem = sx_bool("rem");
    g.add_edge(v[a], v[b], mer);
    g.add_edge(v[7], v[11], true);
    if (rem) g.remove_edge(v[b], v[a]);
    bool ok = true;
    for (int i : {0, 1, 7, 43, 44, 255, 256, 257, 299})
        for (int j : {0, 11, 43, 255, 256, 298, 299}) {
            bool on = a != b && !rem && ((i == a && j == b) || (i == b && j == a)), on2 = i == 7 && j == 11;
            ok &= g.has_edge(v[i], v[j]) == (on || on2);
            ok &= g.is_edge_meridian_crossing(v[i], v[j]) == ((on & mer) | on2);
        }
    sx_assert(ok, "every pair is joined and marked as the insertions and removals say, both ways");
    auto ns = g.get_neighbors(v[a]);
    sx_assert(a == b || rem ? ns.empty() : ns.size() == 1 && ns[0] == v[b], "the neighbours of a vertex are the vertices joined to it, each once");
    sx_reach("end");
}
// ---- C12
static std::vector<Pt> triV(int k) { std::vector<Pt> r; Polygon p = tri(k); for (auto &c : p.get_vertices()) r.push_back(P(c)); return r; }
static int idx(const Model &m, Pt p) { for (int i = 0; i < m.n; i++) if (same(m.v[i], p)) return i; return -1; }
static void mergeCheck(int ng, const std::vector<std::vector<int>> &polys, const std::vector<std::vector<std::array<int, 3>>> &pairs) {
    // pairs[k]: vertices numbered 3*triangle+corner, and the state name index
    std::vector<std::shared_ptr<Graph>> gs;
    std::vector<Model> ms;
    Model all;
    std::vector<int> used(4, 0);
    for (int k = 0; k < ng; k++) {
        std::vector<Polygon> ps;
        for (int t : polys[k]) { ps.push_back(tri(t)); if (!used[t]) { used[t] = 1; for (auto &p : triV(t)) { all.v.push_back(p); all.n++; } } }
        auto g = std::make_shared<Graph>(ps);
        Model m = modelOf(*g);
        int q = 0;
        for (auto &pr : pairs[k]) {
            Pt A = at(T[pr[0] / 3][pr[0] % 3]), B = at(T[pr[1] / 3][pr[1] % 3]);
            int st = (int)sx_pick((nm("g", k) + nm("s", q++)).c_str(), 0, pr[2]);
            put(*g, m, idx(m, A), idx(m, B), st);
        }
        gs.push_back(g); ms.push_back(m);
    }
    for (int k = 0; k < ng; k++) {
        for (int i = 0; i < ms[k].n; i++)
            for (int j = 0; j < i; j++)
                if (ms[k].s[i][j].on) all.add(idx(all, ms[k].v[i]), idx(all, ms[k].v[j]), ms[k].s[i][j].mer);
    }
    int rev = (int)sx_pick("rev", 0, 1), rep = (int)sx_pick("rep", 0, 1);
    std::vector<std::shared_ptr<Graph>> in(gs);
    if (rev) in = std::vector<std::shared_ptr<Graph>>(gs.rbegin(), gs.rend());
    if (rep && ng) in.push_back(gs[0]);
    auto out = merge_graphs(in);
    checkGraph(*out, all);
    size_t np = 0; for (int t = 0; t < 4; t++) np += used[t];
    auto ps = out->get_polygons();
    bool ok = ps.size() == np;
    for (int t = 0; t < 4; t++) { int c = 0; for (auto &p : ps) c += p == tri(t); ok &= c == used[t]; }
    sx_assert(ok, "a merged graph has the distinct polygons of its inputs");
    for (int k = 0; k < ng; k++) {
        sx_assert(pairsAgree(*gs[k], ms[k]), "the inputs are left unchanged");
        sx_assert(gs[k]->get_polygons().size() == polys[k].size(), "the inputs keep their polygons");
    }
    sx_reach("end");
}
extern "C" void c12_two() { anyOffset(); mergeCheck(2, {{0, 1}, {1, 2}}, {{{3, 4, 3}, {0, 5, 2}}, {{4, 3, 3}, {8, 5, 2}}}); }
extern "C" void c12_three() { anyOffset(); mergeCheck(3, {{1}, {1, 0}, {0, 1}}, {{{3, 4, 3}}, {{4, 3, 3}, {0, 3, 1}}, {{3, 4, 3}, {3, 0, 2}}}); }
extern "C" void c12_few() {
    anyOffset();
    int n = (int)sx_pick("n", 0, 1);
    if (n == 0) mergeCheck(0, {}, {});
    else mergeCheck(1, {{0, 2}}, {{{0, 1, 3}, {2, 7, 3}}});
}
// ---- C14
static void overlayCheck(int nops, int base0, int hi) {
    auto g = std::make_shared<Graph>(std::vector<Polygon>{tri(0)});
    Model b = modelOf(*g);
    put(*g, b, 0, 1, (int)sx_pick("s01", 0, base0));
    put(*g, b, 0, 2, 1); 
    put(*g, b, 1, 2, 2);
    ModifiedGraph o(g);
    Model m = b;
    for (int i = 0; i < 2; i++) { o.add_vertex(C(at(T[1][i]))); m.v.push_back(at(T[1][i])); m.n++; }
    if (sx_pick("again", 0, 1)) o.add_vertex(C(m.v[1]));
    for (int i = 0; i < nops; i++) op(o, m, i, 0, hi);
    checkGraph(o, m);
    checkGraph(*g, b);
    sx_assert(!g->has_vertex(C(m.v[3])) && !g->has_vertex(C(m.v[4])), "the base graph itself is never changed");
    auto ps = o.get_polygons();
    sx_assert(ps.size() == 1 && ps[0] == tri(0), "the polygons are those of the base graph");
    sx_assert(!o.has_vertex(C(at(T[2][0]))), "a position never added is no vertex");
    sx_reach("end");
}
extern "C" void c14_step() { anyOffset(); overlayCheck(1, 3, 4); }
extern "C" void c14_two() { anyOffset(); overlayCheck(2, 1, 3); }
extern "C" void c14_pair() { // three operations on any one pair
    anyOffset();
    auto g = std::make_shared<Graph>(std::vector<Polygon>{tri(0)});
    Model b = modelOf(*g);
    put(*g, b, 0, 1, (int)sx_pick("s01", 0, 3));
    ModifiedGraph o(g);
    Model m = b;
    for (int i = 0; i < 2; i++) { o.add_vertex(C(at(T[1][i]))); m.v.push_back(at(T[1][i])); m.n++; }
    static const int pr[3][2] = {{0, 1}, {3, 1}, {3, 4}};
    int q = (int)sx_pick("pair", 0, 2);
    int n = (int)sx_pick("n", 0, 4);
    for (int i = 0; i < n; i++) {
        int k = (int)sx_pick(nm("op", i).c_str(), 0, 2), r = i & 1;
        int x = pr[q][r], y = pr[q][1 - r];
        if (k < 2) { o.add_edge(C(m.v[x]), C(m.v[y]), k); m.add(x, y, k); } else { o.remove_edge(C(m.v[x]), C(m.v[y])); m.del(x, y); }
    }
    checkGraph(o, m);
    checkGraph(*g, b);
    sx_reach("end");
}
