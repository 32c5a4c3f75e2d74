// C10, C11: generating visibility graphs, whole and in pieces.
#include "vis.h"
#include "visgraph/visgraph_generator.hpp"
#include <memory>
static const int64_t M = 1000000;
static Scene copies(const Scene &s) {
    Scene r;
    for (auto &p : s) for (int k = -1; k <= 1; k++) { auto q = p; for (auto &v : q) v.x += k * PER; r.push_back(q); }
    return r;
}
static Pt over(Pt p, int k) { return {p.x + k * PER, p.y}; }
static int indexOf(const std::vector<Pt> &vs, const Coordinate &c) { for (size_t i = 0; i < vs.size(); i++) if (is(c, vs[i])) return (int)i; return -1; }
static void checkGraph(const Scene &s, const Graph &g) {
    auto vs = sceneVertices(s);
    Scene all = copies(s);
    auto gv = g.get_vertices();
    size_t n = 0;
    for (auto &p : s) n += p.size();
    bool vok = gv.size() == n;
    for (auto &v : vs) vok &= g.has_vertex(C(v));
    sx_assert(vok, "the graph is over the polygons' vertices");
    if (!vok) sx_done();
    int m = (int)vs.size();
    for (int i = 0; i < m; i++)
        for (int j = 0; j < i; j++) {
            bool e = g.has_edge(C(vs[i]), C(vs[j])), b = g.has_edge(C(vs[j]), C(vs[i]));
            bool x = g.is_edge_meridian_crossing(C(vs[i]), C(vs[j])), y = g.is_edge_meridian_crossing(C(vs[j]), C(vs[i]));
            sx_out("e", e); sx_out("x", x);
            bool see0 = false, seeX = false, hide0 = true, hideX = true;
            for (int k = -1; k <= 1; k++) {
                bool see = mustSee(all, vs[i], over(vs[j], k)), hide = mustHide(all, vs[i], over(vs[j], k));
                if (k == 0) { see0 = see; hide0 = hide; } else { seeX |= see; hideX &= hide; }
            }
            sx_assert((e == b) & (x == y), "every edge is present in both directions");
            sx_assert(!((see0 | seeX) & !e), "vertices in clear view of each other, directly or through a copy, are joined");
            sx_assert(!((hide0 & hideX) & e), "vertices hidden from each other both ways are not joined");
            sx_assert(!(see0 & x), "an edge in clear view directly is not marked as crossing the meridian");
            sx_assert(!((hide0 & e) & !x), "an edge only through a copy is marked as crossing the meridian");
        }
    auto ns = true;
    for (int i = 0; i < m; i++) ns &= !g.has_edge(C(vs[i]), C(vs[i]));
    sx_assert(ns, "no vertex is joined to itself");
}
static Scene degrees(Scene s, Pt by = {0, 0}) { for (auto &p : s) for (auto &v : p) v = {v.x * M + by.x, v.y * M + by.y}; return s; }
static const Scene scenes[8] = {
    {},
    {{{172, 0}, {177, 1}, {174, 6}}},
    {{{172, 0}, {177, 1}, {174, 6}}, {{-177, 2}, {-172, -1}, {-173, 5}}},
    {{{172, 0}, {177, 1}, {174, 6}}, {{-177, 2}, {-172, -1}, {-173, 5}}, {{-40, -30}, {60, -34}, {10, -28}}},
    {{{-178, -40}, {-174, -40}, {-174, 40}, {-178, 40}}, {{170, 3}, {175, 2}, {176, 9}, {171, 8}}, {{-165, 1}, {-160, 0}, {-161, 6}}}, // a wall along the meridian
    {{{0, 0}, {8, -6}, {10, 0}}, {{10, 0}, {18, -3}, {19, 4}, {14, 9}}, {{-178, -4}, {-170, 2}, {-175, 5}}}, // a common vertex
    {{{174, 0}, {180, -2}, {177, 7}}, {{-180, 9}, {-172, 4}, {-174, 15}}, {{160, 12}, {180, 10}, {166, 18}}}, // vertices exactly on the meridian
    {{{172, 1}, {180, 0}, {180, 8}, {173, 7}}, {{-180, 0}, {-173, 1}, {-172, 9}, {-180, 8}}, {{-179, -9}, {-170, -7}, {-176, -3}}}, // an island cut at the meridian
};
static void whole(const Scene &s) {
    auto g = VisgraphGenerator::generate(polys(s));
    checkGraph(s, *g);
    sx_reach("end");
}
// the same shapes anywhere they fit
extern "C" void c10_few() {
    Pt by = {sx_int("dx", -300000, 300000), sx_int("dy", -30 * M, 30 * M)};
    whole(degrees(scenes[sx_pick("scene", 0, 2)], by));
}
extern "C" void c10_places() {
    Pt by = {sx_int("dx", -1900000, 1900000), sx_int("dy", -30 * M, 30 * M)};
    whole(degrees(scenes[sx_pick("scene", 3, 5)], by));
}
extern "C" void c10_meridian() {
    Pt by = {0, sx_int("dy", -30 * M, 30 * M)};
    whole(degrees(scenes[sx_pick("scene", 6, 7)], by));
}
// one corner moves along a line of latitude or longitude
static void moving(int k, int p, int v, Pt from, Pt to) {
    Scene s = degrees(scenes[k]);
    int64_t t = sx_int("t", 0, (to.x - from.x + to.y - from.y) * M);
    s[p][v] = {from.x * M + (to.x > from.x ? t : 0), from.y * M + (to.y > from.y ? t : 0)};
    whole(s);
}
extern "C" void c10_apex() { moving(3, 0, 2, {174, 3}, {174, 8}); }
extern "C" void c10_wall() { moving(4, 0, 2, {-174, 3}, {-174, 20}); }
extern "C" void c10_touching() { moving(5, 2, 1, {-170, -3}, {-170, 12}); }
extern "C" void c10_along() { moving(6, 1, 0, {-180, 7}, {-180, 10}); }
extern "C" void c10_near() { moving(6, 1, 0, {-180, 9}, {-176, 9}); }
// one corner anywhere in a box
static void box(int k, int p, int v, int64_t x0, int64_t x1, int64_t y0, int64_t y1) {
    Scene s = degrees(scenes[k]);
    s[p][v] = {sx_int("cx", x0 * M, x1 * M), sx_int("cy", y0 * M, y1 * M)};
    whole(s);
}
extern "C" void c10_box_two() { box(2, 0, 2, 172, 176, 4, 7); }
extern "C" void c10_box_three() { box(3, 2, 2, 5, 15, -28, -20); }
extern "C" void c10_box_touching() { box(5, 2, 1, -171, -168, 4, 12); }

// C11
static void sameEdges(const Scene &s, const Graph &a, const Graph &b, const char *what, const char *marks) {
    auto vs = sceneVertices(s);
    bool e = true, x = true;
    for (auto &p : vs) for (auto &q : vs) {
        bool h = a.has_edge(C(p), C(q));
        e &= h == b.has_edge(C(p), C(q));
        x &= !h || a.is_edge_meridian_crossing(C(p), C(q)) == b.is_edge_meridian_crossing(C(p), C(q));
    }
    bool v = a.get_vertices().size() == b.get_vertices().size();
    for (auto &p : vs) v &= a.has_vertex(C(p)) & b.has_vertex(C(p));
    sx_assert(v & e, what);
    sx_assert(x, marks);
}
static const unsigned seeds[4] = {0, 1, 12345, 4294967295u};
static void pieces(const Scene &s, int parts, unsigned seed) {
    auto ps = polys(s);
    int64_t n = 0;
    for (auto &p : s) n += p.size();
    std::vector<int64_t> cut = {0};
    for (int i = 1; i < parts; i++) { char k[] = "cutN"; k[3] = (char)('0' + i); cut.push_back(sx_pick(k, cut.back(), n)); }
    cut.push_back(n);
    auto whole = VisgraphGenerator::generate(ps);
    std::vector<std::shared_ptr<Graph>> gs;
    for (int i = 0; i < parts; i++) gs.push_back(VisgraphGenerator::generate_with_shuffled_range(ps, (size_t)cut[i], (size_t)cut[i + 1], seed));
    auto merged = merge_graphs(gs);
    sameEdges(s, *whole, *merged, "the merged pieces have the edges of the whole", "the merged pieces mark the crossings of the whole");
    sx_reach("end");
}
extern "C" void c11_two() {
    Pt by = {sx_int("dx", -300000, 300000), sx_int("dy", -30 * M, 30 * M)};
    pieces(degrees(scenes[sx_pick("scene", 1, 2)], by), 2, seeds[sx_pick("seed", 0, 3)]);
}
extern "C" void c11_three() { pieces(degrees(scenes[2]), 3, seeds[sx_pick("seed", 0, 3)]); }
extern "C" void c11_three_polygons() {
    Pt by = {sx_int("dx", -300000, 300000), sx_int("dy", -30 * M, 30 * M)};
    pieces(degrees(scenes[sx_pick("scene", 3, 5)], by), 2, 12345);
}
extern "C" void c11_apex() {
    Scene s = degrees(scenes[2]);
    s[0][2].y = sx_int("cy", 3 * M, 8 * M);
    pieces(s, 2, seeds[sx_pick("seed", 1, 2)]);
}
extern "C" void c11_range() {
    Scene s = degrees(scenes[sx_pick("scene", 1, 2)]);
    size_t n = 0;
    for (auto &p : s) n += p.size();
    auto a = (size_t)sx_int("a", INT64_MIN, INT64_MAX), b = (size_t)sx_int("b", INT64_MIN, INT64_MAX);
    bool bad = (a > b) | (b > n);
    sx_assume(bad | (a == b)); // the other ranges are the other entries' business
    bool threw = false;
    std::shared_ptr<Graph> g;
    try { g = VisgraphGenerator::generate_with_shuffled_range(polys(s), a, b, 7); } catch (const std::exception &) { threw = true; }
    sx_assert(threw == bad, "a range is refused exactly when it is not one of the vertices");
    sx_reach(threw ? "refused" : "accepted");
    if (!threw) {
        bool none = true;
        auto vs = sceneVertices(s);
        for (auto &p : vs) for (auto &q : vs) none &= !g->has_edge(C(p), C(q));
        sx_assert(none & (g->get_vertices().size() == n), "an empty range gives no edges");
    }
    sx_reach("end");
}
