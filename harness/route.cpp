// C30: a route planned from polygons to answer, through every part of the library: the graph is generated (whole, or in
// pieces and merged), the ends of the request are free. Only S2's answers are stand-ins: exact ones, on the plane. Lengths are
// measured by |dx| + |dy|, which is a metric and exact.
#include "vis.h"
#include "disk.h"
#include "serialization/graph_serializer.hpp"
#include "visgraph/visgraph_generator.hpp"
#include "shortest_path/shortest_path_computer.hpp"
#include <algorithm>
#include <memory>
#include <limits>
static const int64_t M = 1000000;
static Scene S, ALL; // the scene, and with its copies one period to either side
static int64_t mag(Pt d) { return (d.x < 0 ? -d.x : d.x) + (d.y < 0 ? -d.y : d.y); }
extern "C" double __real__ZNK10Coordinate9magnitudeEv(const Coordinate *c);
extern "C" double __wrap__ZNK10Coordinate9magnitudeEv(const Coordinate *c) { return (double)mag(P(*c)) * (1.0 / (1 << 20)); }
extern "C" void __real__ZN19SpatialSegmentIndexC1ERKSt6vectorI7PolygonSaIS1_EE(void *self, const std::vector<Polygon> &p);
extern "C" void __wrap__ZN19SpatialSegmentIndexC1ERKSt6vectorI7PolygonSaIS1_EE(void *self, const std::vector<Polygon> &) {
    __real__ZN19SpatialSegmentIndexC1ERKSt6vectorI7PolygonSaIS1_EE(self, {});
}
extern "C" void __wrap__ZN19MutableS2ShapeIndexC1Ev(void *) {} // engine only
extern "C" void __wrap__ZN19MutableS2ShapeIndexD1Ev(void *) {}
static Pt over(Pt p, int k) { return {p.x + k * PER, p.y}; }
static int nearest(Pt a, Pt b) { int64_t d = b.x - a.x; return d > PER / 2 ? -1 : d < -PER / 2 ? 1 : 0; } // the copy of b on the shorter way round
static bool COAST = false; // the source lies on land and is moved to CE, which is on the edge CA - CB
static Pt CS, CE, CA, CB;
static bool touches(Pt a, Pt b, Pt p, Pt q) {
    Pt c = over(b, nearest(a, b));
    bool r = false;
    for (int k = -1; k <= 1; k++) r |= meets(over(p, k), over(q, k), a, c);
    return r;
}
extern "C" bool __wrap__ZNK19SpatialSegmentIndex18is_point_containedERK10Coordinate(const void *, const Coordinate &c) { return COAST && is(c, CS); }
extern "C" LineSegment __wrap__ZNK19SpatialSegmentIndex24closest_segment_to_pointERK10Coordinate(const void *, const Coordinate &) { return LineSegment(C(CA), C(CB)); }
extern "C" Coordinate __wrap__ZNK11LineSegment7projectERK10Coordinatef(const LineSegment *, const Coordinate &, float) { return C(CE); }
extern "C" std::vector<LineSegment> __wrap__ZNK19SpatialSegmentIndex23intersect_with_segmentsERK11LineSegment(const void *, const LineSegment &s) {
    std::vector<LineSegment> r;
    Pt a = P(s.get_endpoint_1()), b = P(s.get_endpoint_2());
    if (!COAST) { // which one does not matter
        bool any = false;
        for (auto &p : S) for (size_t i = 0; i < p.size(); i++) any |= touches(a, b, p[i], p[(i + 1) % p.size()]);
        if (any) r.emplace_back(C(S[0][0]), C(S[0][1]));
        return r;
    }
    for (auto &p : S)
        for (size_t i = 0; i < p.size(); i++) { Pt u = p[i], v = p[(i + 1) % p.size()]; if (touches(a, b, u, v)) r.emplace_back(C(u), C(v)); }
    return r;
}
extern "C" bool __wrap__ZNK19SpatialSegmentIndex35does_segment_intersect_with_segmentsERK11LineSegment(const void *, const LineSegment &s) {
    bool r = false;
    for (auto &p : S) for (size_t i = 0; i < p.size(); i++) r |= touches(P(s.get_endpoint_1()), P(s.get_endpoint_2()), p[i], p[(i + 1) % p.size()]);
    return r;
}
static const int64_t INF = 1LL << 40;
// leaves the edge that the source was moved to towards the land behind it
static bool landward(Pt a, Pt b) { return COAST && same(a, CE) && orient(CA, CB, b) > 0; }
// the length of the shortest way from a to b that enters no obstacle
static int64_t legLen(Pt a, Pt b) {
    int64_t r = INF;
    for (int k : {0, -1, 1}) { int64_t m = mag(sub(over(b, k), a)); if (m < r && !(mustHide(ALL, a, over(b, k)) | landward(a, over(b, k)))) r = m; }
    return r;
}
static bool TURNED = false; // the outlines are given the other way round
enum Kind { WHOLE, PIECES, SAVED };
static void plan(const Scene &s, Pt a, Pt b, Kind kind = WHOLE, int ka = 0, int kb = 0) {
    S = s; ALL = {};
    for (auto &p : s) for (int k = -1; k <= 1; k++) { auto q = p; for (auto &v : q) v.x += k * PER; ALL.push_back(q); }
    if (!COAST) { sx_assume(!onLand(ALL, a)); CS = CE = a; CA = s[0][0]; CB = s[0][1]; }
    sx_assume(!onLand(ALL, b) & !same(a, b));
    auto vs = sceneVertices(s);
    int n = (int)vs.size();
    auto given = s;
    if (TURNED) for (auto &p : given) std::reverse(p.begin(), p.end());
    auto ps = polys(given);
    std::shared_ptr<Graph> g;
    if (kind == PIECES) {
        std::vector<std::shared_ptr<Graph>> gs;
        size_t total = 0;
        for (auto &p : s) total += p.size();
        for (int i = 0; i < 3; i++) gs.push_back(VisgraphGenerator::generate_with_shuffled_range(ps, total * i / 3, total * (i + 1) / 3, 7));
        g = merge_graphs(gs);
    } else g = VisgraphGenerator::generate(ps);
    if (kind == SAVED) {
        disk::begin();
        GraphSerializer::serialize_to_file(g, "g.bin");
        g = GraphSerializer::deserialize_from_file("g.bin");
    }
    bool aV = false, bV = false;
    for (auto &v : vs) { aV |= same(a, v); bV |= same(b, v); }
    ShortestPathComputer c(g);
    std::vector<Coordinate> path;
    bool threw = false;
    try { path = c.shortest_path(C(over(COAST ? CS : a, ka)), C(over(b, kb)), std::numeric_limits<double>::infinity(), COAST, 1.0); } catch (const std::exception &) { threw = true; }
    sx_assert(!threw, "a way is found");
    if (threw) sx_done();
    bool ends = path.size() >= 2 && is(path.front(), a) && is(path.back(), b);
    sx_assert(ends, "the way leads from the source to the destination");
    if (!ends) sx_done();
    sx_out("steps", (int64_t)path.size());
    std::vector<Pt> way;
    for (auto &p : path) way.push_back(P(p));
    bool known = true;
    for (size_t i = 1; i + 1 < way.size(); i++) { bool k = false; for (auto &v : vs) k |= same(v, way[i]); known &= k; }
    sx_assert(known, "the way turns only at vertices of obstacles");
    int64_t length = 0;
    for (size_t i = 0; i + 1 < way.size(); i++) {
        int64_t l = legLen(way[i], way[i + 1]);
        sx_assert(l < INF, "no step of the way enters an obstacle");
        if (l >= INF) sx_done();
        length += l;
    }
    if (!COAST) {
        // the shortest clear ways between vertices
        std::vector<std::vector<int64_t>> D(n, std::vector<int64_t>(n, INF));
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++) {
                if (i == j) { D[i][j] = 0; continue; }
                bool direct = mustSee(ALL, vs[i], vs[j]);
                for (int k = -1; k <= 1; k++)
                    if (k == 0 ? direct : !direct && mustSee(ALL, vs[i], over(vs[j], k))) { int64_t m = mag(sub(over(vs[j], k), vs[i])); if (m < D[i][j]) D[i][j] = m; }
            }
        for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (D[i][k] + D[k][j] < D[i][j]) D[i][j] = D[i][k] + D[k][j];
        bool best = true;
        std::vector<bool> sa(n), sb(n);
        for (int i = 0; i < n; i++) { sa[i] = same(a, vs[i]) | (!aV & mustSee(S, a, vs[i])); sb[i] = same(b, vs[i]) | (!bV & mustSee(S, b, vs[i])); }
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
            if (D[i][j] < INF) best &= !(sa[i] & sb[j]) | (length <= mag(sub(vs[i], a)) + D[i][j] + mag(sub(b, vs[j])));
        sx_assert(best, "no way from vertex to vertex in clear view is shorter");
    }
    sx_reach(path.size() == 2 ? "direct" : "around");
}
static Scene degrees(Scene s) { for (auto &p : s) for (auto &v : p) v = {v.x * M, v.y * M}; return s; }
static Pt in(const char *x, const char *y, int64_t x0, int64_t x1, int64_t y0, int64_t y1) { return {sx_int(x, x0 * M, x1 * M), sx_int(y, y0 * M, y1 * M)}; }
static const Scene scenes[] = {
    {{{0, 0}, {10, -3}, {12, 8}, {3, 9}}},                                              // one island
    {{{0, 0}, {10, -3}, {6, 9}}, {{13, 2}, {22, 4}, {17, 12}}},                        // two
    {{{0, 0}, {20, 0}, {20, 12}, {17, 12}, {17, 3}, {3, 3}, {3, 12}, {0, 12}}},        // a bay
    {{{170, -8}, {177, 0}, {172, 9}}, {{-178, -5}, {-170, 1}, {-176, 7}}},             // on both sides of the meridian
    {{{0, 0}, {8, -6}, {10, 0}}, {{10, 0}, {18, -3}, {19, 4}, {14, 9}}},               // with a vertex in common
    {{{0, 0}, {9, -2}, {5, 6}}, {{12, -8}, {20, -9}, {21, -3}, {13, -1}}, {{11, 3}, {22, 2}, {16, 14}}}, // three
    {{{0, 0}, {12, 0}, {12, 9}, {0, 9}}, {{4, -12}, {9, -11}, {6, -5}}, {{15, 2}, {21, 3}, {17, 8}}},   // a rectangle and two others
};
extern "C" void c30_island() { plan(degrees(scenes[0]), in("ax", "ay", -20, -2, -10, 15), in("bx", "by", 13, 18, -1, 5)); }
extern "C" void c30_two() { plan(degrees(scenes[1]), in("ax", "ay", -10, -1, -5, 15), {26 * M, 5 * M}); }
extern "C" void c30_around() { plan(degrees(scenes[1]), in("ax", "ay", -10, 30, -10, 18), {26 * M, 5 * M}); }
extern "C" void c30_between() { plan(degrees(scenes[1]), {-7 * M, 4 * M}, in("bx", "by", 11, 12, -5, 15)); }
extern "C" void c30_both() { plan(degrees(scenes[1]), in("ax", "ay", -8, -5, 1, 4), in("bx", "by", 24, 26, 4, 6)); }
extern "C" void c30_bay() { plan(degrees(scenes[2]), in("ax", "ay", 8, 12, 5, 8), in("bx", "by", 8, 12, -5, -3)); }
extern "C" void c30_touching() { plan(degrees(scenes[4]), in("ax", "ay", -9, -1, -9, 9), {16 * M, 15 * M}); }
extern "C" void c30_three() { plan(degrees(scenes[5]), in("ax", "ay", -12, -1, -12, 12), {25 * M, 1 * M}); }
extern "C" void c30_meridian() { plan(degrees(scenes[3]), in("ax", "ay", 150, 178, -20, 20), {-165 * M, 2 * M}); }
extern "C" void c30_round() { // the ends given beyond the map
    int ka = (int)sx_pick("ka", -1, 1), kb = (int)sx_pick("kb", -1, 1);
    plan(degrees(scenes[3]), {165 * M, 1 * M}, in("bx", "by", -168, -160, -6, 6), WHOLE, ka, kb);
}
extern "C" void c30_pieces() { plan(degrees(scenes[1]), in("ax", "ay", -10, -1, -5, 15), {26 * M, 5 * M}, PIECES); }
extern "C" void c30_saved() { plan(degrees(scenes[4]), in("ax", "ay", -9, -1, -9, 9), {21 * M, -4 * M}, SAVED); }
extern "C" void c30_clockwise() { TURNED = true; plan(degrees(scenes[2]), in("ax", "ay", 8, 12, 5, 8), {22 * M, -2 * M}); }
extern "C" void c30_vertex() { // from any vertex
    auto s = degrees(scenes[1]);
    auto vs = sceneVertices(s);
    plan(s, vs[sx_pick("from", 0, (int)vs.size() - 1)], in("bx", "by", 23, 30, -5, 15));
}
extern "C" void c30_corner() { // a corner of an obstacle is free
    auto s = degrees(scenes[1]);
    s[0][2] = {6 * M, sx_int("cy", 5 * M, 12 * M)};
    plan(s, {-3 * M, 5 * M}, {26 * M, 5 * M});
}
extern "C" void c30_coast() { // from land: moved to the southern coast of a rectangle
    COAST = true;
    CS = {6 * M, 2 * M}; CE = {std::vector<int64_t>{1, 3300001, 6 * M, 12 * M - 1}[sx_pick("at", 0, 3)], 0}; CA = {0, 0}; CB = {12 * M, 0};
    auto s = degrees(scenes[6]);
    if (sx_pick("alone", 0, 1)) s.resize(1);
    plan(s, CE, sx_pick("side", 0, 1) ? in("bx", "by", -6, 20, -20, -14) : in("bx", "by", 2, 10, 11, 16));
}
