// C27, C28: what capi asks of the S2 library and makes of its answers. The library is a model here (engine/s2): it keeps
// shapes, options and results as documented, and the spherical geometry it answers with is anything.
#include "common.h"
#include "datastructures/graph/graph.hpp"
#include "datastructures/spatial_segment_index/spatial_segment_index.hpp"
#include "shortest_path/shortest_path_computer.hpp"
#include <cmath>
#include <memory>
static const int64_t M = 1000000;
static const int MAXE = 80, NQ = 2;
static int NE = 6;
static const double FARAWAY = 3;
struct World {
    std::vector<std::vector<Pt>> poly; // counter-clockwise
    Pt e[MAXE][2];
    int ne = 0;
    int nq = 0;
    Pt q[NQ];           // the positions asked about
    double d[NQ][MAXE];   // their distances from the edges
    bool in[NQ][2];     // in a polygon
    Pt to[NQ][MAXE];      // projected
    int x[MAXE];          // how the segment from q[0] to q[1] meets an edge
    double between = 0; // the distance of q[0] from q[1]
    bool swapped = false;
    Pt s[2], pt;        // a segment on its own, and a projection on it
    bool seg = false;
};
static World W;
static Pt P(const S2Point &p) { S2LatLng l(p); return {l.lng().e6(), l.lat().e6()}; }
static S2Point S(Pt p) { return S2LatLng::FromE6((int32_t)p.y, (int32_t)p.x).ToPoint(); }
static int edgeOf(Pt a, Pt b) {
    for (int i = 0; i < W.ne; i++) if ((same(a, W.e[i][0]) && same(b, W.e[i][1])) || (same(b, W.e[i][0]) && same(a, W.e[i][1]))) return i;
    return -1;
}
static int askedOf(Pt p) { for (int i = 0; i < W.nq; i++) if (same(p, W.q[i])) return i; return -1; }
double s2w_distance(const S2Point &a, const S2Point &b) { return W.nq == 2 && ((same(P(a), W.q[0]) & same(P(b), W.q[1])) | (same(P(a), W.q[1]) & same(P(b), W.q[0]))) ? W.between : FARAWAY; }
double s2w_distance(const S2Point &p, const S2Point &a, const S2Point &b) { int i = askedOf(P(p)), k = edgeOf(P(a), P(b)); return i < 0 || k < 0 ? FARAWAY : W.d[i][k]; }
S2Point s2w_project(const S2Point &p, const S2Point &a, const S2Point &b) {
    int i = askedOf(P(p));
    if (i < 0) return a;
    if (W.seg) return ((same(P(a), W.s[0]) & same(P(b), W.s[1])) | (same(P(b), W.s[0]) & same(P(a), W.s[1]))) ? S(W.pt) : a;
    int k = edgeOf(P(a), P(b));
    if (k < 0) return a;
    Pt at = P(p); // W.to[i][k], from the position as it was asked for
    return S({at.x + (W.to[i][k].x - W.q[i].x), at.y + (W.to[i][k].y - W.q[i].y)});
}
int s2w_crossing(const S2Point &a, const S2Point &b, const S2Point &c, const S2Point &d) {
    int i = askedOf(P(a)), j = askedOf(P(b)), k = edgeOf(P(c), P(d));
    if (i < 0 || j < 0) { i = askedOf(P(c)); j = askedOf(P(d)); k = edgeOf(P(a), P(b)); }
    return i < 0 || j < 0 || i == j || k < 0 ? -1 : W.x[k];
}
bool s2w_inside(const std::vector<S2Point> &loop, const S2Point &p) {
    int i = askedOf(P(p)), n = (int)loop.size();
    if (i < 0) return false;
    for (size_t k = 0; k < W.poly.size(); k++) {
        auto &v = W.poly[k];
        if ((int)v.size() != n) continue;
        for (int s = 0; s < n; s++)
            for (int rev = 0; rev < 2; rev++) {
                bool eq = true;
                for (int j = 0; eq && j < n; j++) eq = same(P(loop[j]), v[(s + (rev ? n - j : j)) % n]);
                if (eq) return rev ? !W.in[i][k] : W.in[i][k];
            }
    }
    return false;
}
// ---------------------------------------------------------------- two triangles, anywhere
static const Pt spots[2][3] = {{{-20, -10}, {-5, -12}, {-9, 7}}, {{4, 3}, {19, 1}, {11, 14}}};
static std::vector<Polygon> triangles(bool any = true) {
    const int n = 2;
    std::vector<Polygon> r;
    Pt off = any ? Pt{sx_int("ox", -150 * M, 150 * M), sx_int("oy", -60 * M, 60 * M)} : Pt{0, 0};
    bool turned = any && sx_pick("turned", 0, 1);
    for (int k = 0; k < n; k++) {
        std::vector<Pt> v;
        std::vector<Coordinate> c;
        for (int i = 0; i < 3; i++) {
            v.push_back({spots[k][i].x * M + off.x + (any && i == 1 ? sx_int(nm("jx", k).c_str(), -M, M) : 0), spots[k][i].y * M + off.y + (any && i == 2 ? sx_int(nm("jy", k).c_str(), -M, M) : 0)});
        }
        for (int i = 0; i < 3; i++) c.push_back(C(v[turned ? 2 - i : i]));
        for (int i = 0; i < 3; i++) { W.e[W.ne][0] = v[i]; W.e[W.ne][1] = v[(i + 1) % 3]; W.ne++; }
        W.poly.push_back(v);
        r.push_back(Polygon(c));
    }
    for (int i = 0; i < NQ; i++) for (int k = 0; k < NE; k++) { W.d[i][k] = i ? 1 + (NE - k) * 0.125 : 2 + k * 0.125; W.x[k] = -1; W.to[i][k] = {0, 0}; }
    for (int i = 0; i < NQ; i++) W.in[i][0] = W.in[i][1] = false;
    return r;
}
static void ask(int n, bool atVertex = false) {
    W.nq = n;
    int v = atVertex ? (int)sx_pick("atVertex", -1, 5) : -1;
    for (int i = 0; i < n; i++) W.q[i] = v >= 0 && i == 0 ? W.e[v][0] : Pt{sx_int(nm("x", i).c_str(), -HALF, HALF), sx_int(nm("y", i).c_str(), -MAXLAT + 1, MAXLAT - 1)};
    if (n == 2) sx_assume(!same(W.q[0], W.q[1]));
    // elsewhere than at the vertices
    for (int i = v >= 0 ? 1 : 0; i < n; i++) for (int k = 0; k < W.ne; k++) sx_assume(!same(W.q[i], W.e[k][0]));
}
static double anyDistance(const char *n) { return sx_dyadic(n, 0, 2 << 20, 20); }
static void someDistances(int i, int from, int n) { for (int k = from; k < from + n; k++) W.d[i][k] = anyDistance((nm("d", i) + "_" + std::to_string(k)).c_str()); }
static int edgeOf(const LineSegment &s, bool &ccw) {
    Pt a = P(s.get_endpoint_1()), b = P(s.get_endpoint_2());
    int k = edgeOf(a, b);
    if (k >= 0) ccw &= same(a, W.e[k][0]) & same(b, W.e[k][1]);
    return k;
}
extern "C" void c28_closest() {
    SpatialSegmentIndex ix(triangles());
    ask(1);
    int first = (int)sx_pick("first", 0, 2);
    someDistances(0, first, 4);
    W.in[0][0] = sx_pick("in0", 0, 1); W.in[0][1] = sx_pick("in1", 0, 1);
    auto s = ix.closest_segment_to_point(C(W.q[0]));
    bool ccw = true, least = true;
    int k = edgeOf(s, ccw);
    sx_assert(k >= 0, "the closest segment is an edge of a polygon");
    if (k < 0) sx_done();
    for (int i = 0; i < NE; i++) least &= W.d[0][k] <= W.d[0][i];
    sx_assert(least, "no edge is closer than the closest segment");
    sx_assert(ccw, "the closest segment runs as the polygon's outline, counter-clockwise");
    sx_out("k", k);
    sx_reach("end");
}
extern "C" void c28_none() {
    SpatialSegmentIndex ix(std::vector<Polygon>{});
    Pt p = anyPt("x", "y", HALF), q = anyPt("u", "v", HALF);
    bool threw = false;
    try { ix.closest_segment_to_point(C(p)); } catch (const std::runtime_error &) { threw = true; }
    sx_assert(threw, "no closest segment without polygons");
    sx_assert(!ix.is_point_contained(C(p)), "nothing is contained without polygons");
    LineSegment s(C(p), C(q));
    sx_assert(!ix.does_segment_intersect_with_segments(s) && ix.intersect_with_segments(s).empty(), "nothing is crossed without polygons");
    sx_assert(ix.segments_within_distance_of_point(C(p), 1).empty(), "nothing is near without polygons");
    sx_reach("end");
}
extern "C" void c28_within() {
    SpatialSegmentIndex ix(triangles());
    ask(1);
    int first = (int)sx_pick("first", 0, 3);
    someDistances(0, first, 3);
    W.in[0][0] = sx_pick("in0", 0, 1); W.in[0][1] = W.in[0][0];
    double limit = sx_dyadic("limit", 0, 3 << 20, 20);
    for (int i = 0; i < NE; i++) sx_assume(W.d[0][i] != limit);
    auto r = ix.segments_within_distance_of_point(C(W.q[0]), limit);
    bool ccw = true, ok = true, have[MAXE] = {};
    for (auto &s : r) {
        int k = edgeOf(s, ccw);
        sx_assert(k >= 0, "a segment within the distance is an edge of a polygon");
        if (k < 0) sx_done();
        sx_assert(!have[k], "a segment is given once");
        have[k] = true;
        sx_out("k", k);
    }
    for (int i = 0; i < NE; i++) ok &= have[i] == (W.d[0][i] < limit);
    sx_assert(ok, "the segments within a distance are exactly the edges closer than it");
    sx_assert(ccw, "the segments run as the polygon's outline, counter-clockwise");
    sx_reach("end");
}
static void crossings(int first) {
    for (int k = first; k < first + 3; k++) W.x[k % NE] = (int)sx_pick(nm("meets", k % NE).c_str(), -1, 1);
}
extern "C" void c28_crossed() {
    SpatialSegmentIndex ix(triangles());
    ask(2);
    int first = (int)sx_pick("first", 0, 3);
    someDistances(0, first, 3);
    crossings(first);
    auto r = ix.intersect_with_segments(LineSegment(C(W.q[0]), C(W.q[1])));
    bool ccw = true, ok = true, sorted = true, have[MAXE] = {};
    int prev = -1;
    for (auto &s : r) {
        int k = edgeOf(s, ccw);
        sx_assert(k >= 0, "what a segment meets is an edge of a polygon");
        if (k < 0) sx_done();
        sx_assert(!have[k], "an edge met is given once");
        have[k] = true;
        if (prev >= 0) sorted &= W.d[0][prev] <= W.d[0][k];
        prev = k;
        sx_out("k", k);
    }
    for (int i = 0; i < NE; i++) ok &= have[i] == (W.x[i] >= 0);
    sx_assert(ok, "the edges met are exactly those touched or crossed");
    sx_assert(sorted, "the edges met come in order of their distance from the first end");
    sx_assert(ccw, "the edges met run as the polygon's outline, counter-clockwise");
    sx_reach("end");
}
extern "C" void c28_crosses() {
    SpatialSegmentIndex ix(triangles());
    ask(2);
    crossings((int)sx_pick("first", 0, 5));
    bool any = false;
    for (int k = 0; k < NE; k++) any |= W.x[k] >= 0;
    sx_assert(ix.does_segment_intersect_with_segments(LineSegment(C(W.q[0]), C(W.q[1]))) == any, "a segment is reported to meet the polygons exactly when it touches or crosses an edge");
    sx_reach("end");
}
extern "C" void c28_contained() {
    SpatialSegmentIndex ix(triangles());
    ask(1, true);
    W.in[0][0] = sx_bool("in0"); W.in[0][1] = sx_bool("in1");
    bool expect = false;
    for (int k = 0; k < 2; k++) {
        bool vertex = false;
        for (auto &p : W.poly[k]) vertex |= same(p, W.q[0]);
        expect |= !vertex & W.in[0][k];
    }
    sx_assert(ix.is_point_contained(C(W.q[0])) == expect, "a position is contained exactly when it is strictly inside a polygon");
    sx_reach("end");
}
// many edges
extern "C" void c28_many() {
    const int n = 40;
    NE = 2 * n;
    std::vector<Polygon> ps;
    for (int k = 0; k < 2; k++) {
        std::vector<Pt> v;
        for (int i = 0; i < n; i++) v.push_back({k * 30 * M + (int64_t)(1e7 * std::cos(i * 2 * M_PI / n)), (int64_t)(1e7 * std::sin(i * 2 * M_PI / n))});
        std::vector<Coordinate> c;
        for (auto &p : v) c.push_back(C(p));
        for (int i = 0; i < n; i++) { W.e[W.ne][0] = v[i]; W.e[W.ne][1] = v[(i + 1) % n]; W.ne++; }
        W.poly.push_back(v);
        ps.push_back(Polygon(c));
    }
    SpatialSegmentIndex ix(ps);
    W.nq = 2;
    for (int i = 0; i < NQ; i++) { W.q[i] = {sx_int(nm("x", i).c_str(), -HALF, -40 * M), sx_int(nm("y", i).c_str(), -MAXLAT + 1, MAXLAT - 1)}; W.in[i][0] = W.in[i][1] = false; }
    sx_assume(!same(W.q[0], W.q[1]));
    int step = 7 + 6 * (int)sx_pick("order", 0, 1);
    bool all = sx_pick("all", 0, 1);
    for (int k = 0; k < NE; k++) { W.d[0][k] = ((k * step) % NE + 0.5) / NE; W.d[1][k] = 1 - W.d[0][k]; W.x[k] = all || k % 3 == 1 ? (k & 1) : -1; }
    double limit = sx_dyadic("limit", 0, 2 << 20, 20);
    for (int i = 0; i < NE; i++) sx_assume(W.d[0][i] != limit);
    bool ccw = true, ok = true, near[MAXE] = {}, met[MAXE] = {};
    for (auto &s : ix.segments_within_distance_of_point(C(W.q[0]), limit)) { int k = edgeOf(s, ccw); ok &= k >= 0 && !near[k]; if (!ok) break; near[k] = true; }
    for (int k = 0; k < NE; k++) ok &= near[k] == (W.d[0][k] < limit);
    sx_assert(ok, "the segments within a distance are exactly the edges closer than it");
    int prev = -1;
    bool sorted = true;
    for (auto &s : ix.intersect_with_segments(LineSegment(C(W.q[0]), C(W.q[1])))) { int k = edgeOf(s, ccw); ok &= k >= 0 && !met[k]; if (!ok) break; met[k] = true; sorted &= prev < 0 || W.d[0][prev] <= W.d[0][k]; prev = k; }
    for (int k = 0; k < NE; k++) ok &= met[k] == (W.x[k] >= 0);
    sx_assert(ok, "the edges met are exactly those touched or crossed");
    sx_assert(sorted, "the edges met come in order of their distance from the first end");
    int k = edgeOf(ix.closest_segment_to_point(C(W.q[0])), ccw);
    for (int i = 0; i < NE; i++) ok &= k >= 0 && W.d[0][k] <= W.d[0][i];
    sx_assert(ok && ccw, "no edge is closer than the closest segment");
    sx_reach("end");
}
extern "C" void c28_distance() {
    W.nq = 2;
    for (int i = 0; i < 2; i++) W.q[i] = anyPt(nm("x", i).c_str(), nm("y", i).c_str(), HALF);
    W.between = anyDistance("between");
    sx_assert(C(W.q[0]).spherical_distance(C(W.q[1])) == W.between, "the spherical distance of two positions is that between them");
    sx_reach("end");
}
extern "C" void c28_place() { // positions given to S2 and read back
    Pt p = anyPt("x", "y", HALF);
    auto c = C(p);
    sx_assert(same(P(c.to_s2_point()), p), "a position is the same on the sphere");
    sx_assert(is(Coordinate(S(p)), p), "a position on the sphere is the same on the map");
    sx_reach("end");
}
static Pt moveBy(Pt p, const char *n, int from, int to) {
    static const Pt by[8] = {{0, 0}, {1, 0}, {0, -1}, {-1, 1}, {-3000, 7001}, {1234567, -89}, {-20000000, 5000001}, {270000000, -130000000}};
    Pt d = by[sx_pick(n, from, to)], r = {p.x + d.x, p.y + d.y};
    sx_assume((r.x >= -HALF) & (r.x <= HALF) & (r.y >= -MAXLAT) & (r.y <= MAXLAT));
    return r;
}
static void projected(bool any) {
    W.seg = true;
    W.nq = 1;
    W.q[0] = anyPt("x", "y", HALF);
    W.s[0] = anyPt("ax", "ay", HALF); W.s[1] = anyPt("bx", "by", HALF);
    W.pt = any ? anyPt("px", "py", HALF) : moveBy(W.q[0], "by", 0, 7);
    auto r = LineSegment(C(W.s[0]), C(W.s[1])).project(C(W.q[0]));
    outC("r", r);
    sx_assert(is(r, W.pt), "the projection on a segment is its nearest point on the sphere");
    sx_reach("end");
}
extern "C" void c27_project() { projected(false); }
extern "C" void c27_project_any() { projected(true); }
// requests that start or end on land, through the whole of the path computation
static void moved(bool both) {
    auto g = std::make_shared<Graph>(triangles(false));
    ask(2);
    bool land[2] = {true, true};
    if (!both) { int who = (int)sx_pick("land", 0, 2); land[0] = who != 1; land[1] = who == 1; if (who == 0) land[0] = false; }
    int near = both ? 0 : (int)sx_pick("near", 0, 2);
    for (int i = 0; i < 2; i++)
        if (land[i]) {
            W.in[i][sx_pick(nm("where", i).c_str(), 0, 1)] = true;
            int from = (near + i) % 3 * 2;
            someDistances(i, from, 2);
            for (int k = from; k < from + 2; k++) W.to[i][k] = moveBy(W.q[i], nm(i ? "tto" : "sto", k).c_str(), k == from ? 3 : 5, (k == from ? 3 : 5) + !both);
            for (int k = 0; k < NE; k++) if (k < from || k >= from + 2) W.d[i][k] = 2.5;
            sx_assume((W.d[i][from] < 2) & (W.d[i][from + 1] < 2) & (W.d[i][from] != W.d[i][from + 1]));
        }
    ShortestPathComputer spc(g);
    std::vector<Coordinate> path;
    bool threw = false, correct = sx_pick("correct", 0, 1);
    try { path = spc.shortest_path(C(W.q[0]), C(W.q[1]), INFINITY, correct, 1.0); } catch (const std::runtime_error &) { threw = true; }
    sx_assert(threw == (!correct && (land[0] || land[1])), "a source or destination on land is refused unless correction is requested");
    if (threw) { sx_reach("refused"); return; }
    sx_assert(path.size() == 2, "with nothing in between the path joins the two positions");
    if (path.size() != 2) sx_done();
    for (int i = 0; i < 2; i++) {
        bool ok = is(path[i], W.q[i]);
        if (land[i]) {
            ok = false;
            int from = (near + i) % 3 * 2;
            for (int k = from; k < from + 2; k++) ok |= (W.d[i][k] < W.d[i][from + from + 1 - k]) & is(path[i], W.to[i][k]);
        }
        sx_assert(ok, i ? "a destination on land is moved to the nearest point of the nearest edge, and only then" : "a source on land is moved to the nearest point of the nearest edge, and only then");
        outC("p", path[i]);
    }
    sx_reach("moved");
}
extern "C" void c27_moved() { moved(false); }
extern "C" void c27_both() { moved(true); }
