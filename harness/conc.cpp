// C21: concurrent operations on one graph. C22: parallel generation and merging under every schedule.
#include "vis.h"
#include "visgraph/visgraph_generator.hpp"
#include "visgraph/vistree_generator.hpp"
#include "coordinate_periodicity/coordinate_periodicity.hpp"
#include <algorithm>
#include <memory>
#include <random>
static const int64_t M = 1000000;
// ---- C21
static const int N = 4;
struct Op { int kind, a, b; };           // 0 join, 1 join across the meridian, 2 part, 3 joined?, 4 across?, 5 neighbours, 6 vertex?, 7 join one way, 8 part one way
struct Ref { int e[N][N]; };             // 0 none, 1 direct, 2 across, 3 both
struct Res { bool v; unsigned ns; };
static Coordinate V(int i) { static const int64_t xs[N] = {0, 10, 12, 3}, ys[N] = {0, 1, 9, 8}; return Coordinate((int32_t)(xs[i] * M), (int32_t)(ys[i] * M)); }
static Res apply(Ref &r, const Op &o) {
    Res s = {false, 0};
    int &e = r.e[o.a][o.b], &f = r.e[o.b][o.a];
    switch (o.kind) {
    case 0: e |= 1; f |= 1; break;
    case 1: e |= 2; f |= 2; break;
    case 2: e = f = 0; break;
    case 7: e |= 1; break;
    case 8: e = 0; break;
    case 3: s.v = e != 0; break;
    case 4: s.v = e == 2; break;
    case 5: for (int i = 0; i < N; i++) if (r.e[o.a][i]) s.ns |= 1u << i; break;
    default: s.v = true;
    }
    return s;
}
static Res doOp(Graph &g, const Op &o) {
    Res s = {false, 0};
    switch (o.kind) {
    case 0: g.add_edge(V(o.a), V(o.b), false); break;
    case 1: g.add_edge(V(o.a), V(o.b), true); break;
    case 2: g.remove_edge(V(o.a), V(o.b)); break;
    case 7: g.add_directed_edge(V(o.a), V(o.b), false); break;
    case 8: g.remove_directed_edge(V(o.a), V(o.b)); break;
    case 3: s.v = g.has_edge(V(o.a), V(o.b)); break;
    case 4: s.v = g.is_edge_meridian_crossing(V(o.a), V(o.b)); break;
    case 5: for (auto &c : g.get_neighbors(V(o.a))) for (int i = 0; i < N; i++) if (c == V(i)) s.ns |= 1u << i; break;
    default: s.v = g.has_vertex(V(o.a));
    }
    return s;
}
struct Job { Graph *g; Op o[2]; int n; Res r[2]; };
static void work(void *p) { auto *j = (Job *)p; for (int i = 0; i < j->n; i++) j->r[i] = doOp(*j->g, j->o[i]); }
static void look(Graph &g, const Ref &r, bool &ok) {
    for (int i = 0; i < N; i++) for (int k = 0; k < N; k++) if (i != k) {
        ok &= g.has_edge(V(i), V(k)) == (r.e[i][k] != 0);
        ok &= g.is_edge_meridian_crossing(V(i), V(k)) == (r.e[i][k] == 2);
    }
}
static const int pairs[6][2] = {{0, 1}, {1, 0}, {1, 2}, {2, 1}, {0, 2}, {2, 0}};
static Op pickOp(const char *k, const char *p, int kinds, int np) {
    int i = (int)sx_pick(p, 0, np - 1);
    return {(int)sx_pick(k, 0, kinds - 1), pairs[i][0], pairs[i][1]};
}
static void concurrent(int threads, Op (*ops)[2], int per, int initial) {
    std::vector<Coordinate> vs;
    for (int i = 0; i < N; i++) vs.push_back(V(i));
    Graph g({Polygon(vs)});
    Ref start = {};
    // the first pair may be joined to begin with
    if (initial) { start.e[0][1] = start.e[1][0] = initial; if (initial & 1) g.add_edge(V(0), V(1), false); if (initial & 2) g.add_edge(V(0), V(1), true); }
    Job js[3];
    for (int t = 0; t < threads; t++) { js[t].g = &g; js[t].n = per; for (int i = 0; i < per; i++) js[t].o[i] = ops[t][i]; }
    for (int t = 1; t < threads; t++) sx_thread(work, &js[t]);
    work(&js[0]);
    sx_join();
    // some order of the operations, each thread's own order kept
    int total = threads * per;
    bool any = false;
    int order[6] = {0, 0, 0, 0, 0, 0};
    while (true) {
        int used[3] = {0, 0, 0};
        bool valid = true;
        for (int i = 0; i < total; i++) valid &= used[order[i]]++ < per;
        for (int t = 0; t < threads; t++) valid &= used[t] == per;
        if (valid) {
            Ref r = start;
            bool ok = true;
            int at[3] = {0, 0, 0};
            for (int i = 0; i < total; i++) {
                int t = order[i], k = at[t]++;
                Res s = apply(r, js[t].o[k]);
                ok &= (s.v == js[t].r[k].v) & (s.ns == js[t].r[k].ns);
            }
            if (ok) { look(g, r, ok); any |= ok; }
        }
        int i = 0;
        while (i < total && ++order[i] == threads) order[i++] = 0;
        if (i == total) break;
    }
    sx_assert(any, "the answers and the graph are those of some order of the operations");
    sx_reach("end");
}
extern "C" void c21_two() {
    Op ops[2][2] = {{pickOp("k0", "p0", 6, 2)}, {pickOp("k1", "p1", 6, 6)}};
    concurrent(2, ops, 1, (int)sx_pick("initial", 0, 1));
}
extern "C" void c21_two_all() {
    Op ops[2][2] = {{pickOp("k0", "p0", 7, 6)}, {pickOp("k1", "p1", 7, 6)}};
    concurrent(2, ops, 1, (int)sx_pick("initial", 0, 3));
}
extern "C" void c21_directed() {
    Op ops[2][2] = {{pickOp("k0", "p0", 2, 6)}, {pickOp("k1", "p1", 7, 6)}};
    ops[0][0].kind += 7;
    if (ops[1][0].kind >= 5) ops[1][0].kind += 2; // neighbours are those of joined pairs only
    concurrent(2, ops, 1, (int)sx_pick("initial", 0, 1));
}
extern "C" void c21_two_each() {
    sx_cfg("preemptions", 2);
    Op ops[2][2] = {{pickOp("k0", "p0", 3, 2), {3, 0, 1}}, {pickOp("k1", "p1", 3, 4), pickOp("k2", "p2", 6, 2)}};
    concurrent(2, ops, 2, 0);
}
extern "C" void c21_three() {
    sx_cfg("preemptions", 2);
    Op ops[3][2] = {{pickOp("k0", "p0", 3, 1)}, {pickOp("k1", "p1", 3, 4)}, {pickOp("k2", "p2", 6, 6)}};
    concurrent(3, ops, 1, 0);
}
// ---- C22
static const Scene small[5] = {
    {{{172, 0}, {177, 1}, {174, 6}}},
    {{{172, 0}, {177, 1}, {174, 6}}, {{-177, 2}, {-172, -1}, {-173, 5}}},
    {{{0, 0}, {8, -6}, {10, 0}}, {{10, 0}, {18, -3}, {17, 9}}}, // a common vertex
    {{{0, 0}, {10, 0}, {10, 4}, {0, 4}}, {{4, 6}, {6, 6}, {5, 9}}},
    {{{-20, 0}, {-15, 1}, {-18, 4}}, {{-5, 0}, {0, -3}, {-2, 6}}, {{14, 1}, {20, 0}, {17, 4}}},
};
static Scene degrees(Scene s, Pt by = {0, 0}) { for (auto &p : s) for (auto &v : p) v = {v.x * M + by.x, v.y * M + by.y}; return s; }
// what one thread makes of the given vertices, one after the other
struct Marks { std::vector<Pt> vs; std::vector<int> m; };
static Marks sequential(const Scene &s, const std::vector<Coordinate> &of) {
    Marks r;
    r.vs = sceneVertices(s);
    size_t n = r.vs.size();
    r.m.assign(n * n, 0);
    VistreeGenerator t(make_polygons_periodic(polys(s)));
    for (auto &o : of)
        for (auto &v : t.get_visible_vertices(o, true)) {
            int a = -1, b = -1;
            for (size_t i = 0; i < n; i++) { if (is(o, r.vs[i])) a = (int)i; if (is(v.coord, r.vs[i])) b = (int)i; }
            sx_assert((a >= 0) & (b >= 0), "what is visible is a vertex");
            if (a == b) continue;
            r.m[a * n + b] |= v.is_visible_across_meridian ? 2 : 1;
            r.m[b * n + a] |= v.is_visible_across_meridian ? 2 : 1;
        }
    return r;
}
static void same(const Marks &w, const Graph &g, size_t count) {
    size_t n = w.vs.size();
    bool ok = g.get_vertices().size() == count;
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
        ok &= g.has_edge(C(w.vs[i]), C(w.vs[j])) == (w.m[i * n + j] != 0);
        ok &= g.is_edge_meridian_crossing(C(w.vs[i]), C(w.vs[j])) == (w.m[i * n + j] == 2);
    }
    sx_assert(ok, "the result is that of doing the work one piece after the other");
    sx_reach("end");
}
static void par(int threads, int preemptions) { sx_cfg("omp_threads", threads); sx_cfg("preemptions", preemptions); }
static size_t verts(const Scene &s) { size_t n = 0; for (auto &p : s) n += p.size(); return n; }
static std::vector<Coordinate> inOrder(const Scene &s) { std::vector<Coordinate> r; for (auto &p : s) for (auto &v : p) r.push_back(C(v)); return r; }
static void generated(const Scene &s) {
    auto w = sequential(s, inOrder(s));
    same(w, *VisgraphGenerator::generate(polys(s)), verts(s));
}
extern "C" void c22_generate_one() { par(2, 3); generated(degrees(small[0])); }
extern "C" void c22_generate_two() { par(2, 1); generated(degrees(small[sx_pick("scene", 1, 4)])); }
extern "C" void c22_generate_switches() { par(2, 2); generated(degrees(small[sx_pick("scene", 1, 2)])); }
extern "C" void c22_generate_threads() { par(3, 2); generated(degrees(small[0])); }
extern "C" void c22_generate_three() { par(3, 1); generated(degrees(small[sx_pick("scene", 1, 4)])); }
extern "C" void c22_generate_places() {
    par(2, 1);
    generated(degrees(small[1], {sx_int("dx", -300000, 300000), sx_int("dy", -30 * M, 30 * M)}));
}
static void ranged(const Scene &s, size_t a, size_t b) {
    auto of = inOrder(s);
    std::mt19937 gen(7);
    std::shuffle(of.begin(), of.end(), gen);
    auto w = sequential(s, std::vector<Coordinate>(of.begin() + a, of.begin() + b));
    same(w, *VisgraphGenerator::generate_with_shuffled_range(polys(s), a, b, 7), verts(s));
}
extern "C" void c22_range() {
    par(2, 2);
    int k = (int)sx_pick("scene", 1, 3), n = (int)verts(small[k]), a = (int)sx_pick("a", 0, 1) * 2;
    ranged(degrees(small[k]), (size_t)a, (size_t)(a ? n : n - 2));
}
extern "C" void c22_range_threads() { par(3, 1); ranged(degrees(small[1]), 0, 6); }
// merging: each graph over some of the polygons with the edges chosen
static void merged(int graphs) {
    Scene s = degrees(small[4]);
    auto vs = sceneVertices(s);
    size_t n = vs.size();
    Marks w;
    w.vs = vs;
    w.m.assign(n * n, 0);
    std::vector<std::shared_ptr<Graph>> gs;
    auto join = [&](Graph &g, int a, int b, bool across) {
        g.add_edge(C(vs[a]), C(vs[b]), across);
        w.m[a * n + b] |= across ? 2 : 1;
        w.m[b * n + a] |= across ? 2 : 1;
    };
    for (int i = 0; i < graphs; i++) {
        Scene part = {s[0], s[1 + i % 2]};
        if (i == 2) part = s;
        auto g = std::make_shared<Graph>(polys(part));
        char k[] = "ex", l[] = "fx";
        k[1] = l[1] = (char)('0' + i);
        int e = graphs > 2 && i ? i : (int)sx_pick(k, 0, 2); // none, direct, across
        if (e) join(*g, 0, 1, e == 2);
        int f = graphs > 2 ? 1 : (int)sx_pick(l, 0, 1);
        if (f) join(*g, 1, i % 2 ? 7 : 4, i == 0);
        gs.push_back(g);
    }
    same(w, *merge_graphs(gs), n);
}
extern "C" void c22_merge_two() { par(2, 1); merged(2); }
extern "C" void c22_merge_switches() { par(2, 2); merged(3); }
extern "C" void c22_merge_three() { par(3, 1); merged(3); }
