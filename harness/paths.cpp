// C18 - C20: shortest paths. The distances between the positions of a layout are any numbers that form a metric, what a
// position sees and what lies on land or in between are any answers: the search itself is the code under test.
#include "common.h"
#include "datastructures/graph/graph.hpp"
#include "shortest_path/shortest_path_computer.hpp"
#include <cmath>
#include <memory>
static const int64_t M = 1000000, FAR = 1 << 22, SCALE = 1024, MAXD = 1 << 20;
static const int MAXN = 9;
// ---------------------------------------------------------------- the stand-ins' answers
struct World {
    int n = 0;
    bool metric = false;
    Pt v[MAXN];
    int64_t d[MAXN][MAXN], p[MAXN][MAXN]; // lengths direct, and from i shifted one period east to j (in 1/SCALE degrees)
    int calls = 0, searches = 0;
    bool counting = true; // not when several threads ask
    // land
    bool landKnown = false;
    Pt lp[2];
    bool land[2] = {false, false};
    int edge[2] = {0, 0};
    Pt to[2];
    std::vector<LineSegment> edges;
    // segments in between
    std::vector<LineSegment> between;
    bool argOk = true, checkArg = false;
    Pt a0, a1;
    // what positions see
    bool seesKnown = false;
    bool sees[MAXN][MAXN];
};
static World W;
static double len(int64_t k) { return (double)k * (1.0 / SCALE); }
extern "C" double __real__ZNK10Coordinate9magnitudeEv(const Coordinate *c);
extern "C" double __wrap__ZNK10Coordinate9magnitudeEv(const Coordinate *c) {
    if (!W.metric) return __real__ZNK10Coordinate9magnitudeEv(c);
    Pt d = P(*c);
    for (int i = 0; i < W.n; i++)
        for (int j = 0; j < W.n; j++) {
            Pt e = sub(W.v[i], W.v[j]), f = {e.x + PER, e.y}, g = {-f.x, -f.y};
            if (same(d, e)) { if (W.counting) W.calls++; return len(i < j ? W.d[i][j] : W.d[j][i]); }
            if (same(d, f) || same(d, g)) { if (W.counting) W.calls++; return len(W.p[i][j]); }
        }
    return __real__ZNK10Coordinate9magnitudeEv(c);
}
extern "C" void __real__ZN19SpatialSegmentIndexC1ERKSt6vectorI7PolygonSaIS1_EE(void *self, const std::vector<Polygon> &p);
extern "C" void __wrap__ZN19SpatialSegmentIndexC1ERKSt6vectorI7PolygonSaIS1_EE(void *self, const std::vector<Polygon> &) {
    __real__ZN19SpatialSegmentIndexC1ERKSt6vectorI7PolygonSaIS1_EE(self, {});
}
extern "C" void __wrap__ZN19MutableS2ShapeIndexC1Ev(void *) {} // engine only: the S2 library is not part of the code encoded
extern "C" void __wrap__ZN19MutableS2ShapeIndexD1Ev(void *) {}
extern "C" bool __wrap__ZNK19SpatialSegmentIndex18is_point_containedERK10Coordinate(const void *, const Coordinate &c) {
    bool r = false;
    for (int i = 0; i < 2; i++) r |= W.landKnown & is(c, W.lp[i]) & W.land[i];
    return r;
}
extern "C" LineSegment __wrap__ZNK19SpatialSegmentIndex24closest_segment_to_pointERK10Coordinate(const void *, const Coordinate &c) {
    for (int i = 0; i < 2; i++) if (is(c, W.lp[i])) return W.edges[W.edge[i]];
    return W.edges[0];
}
extern "C" Coordinate __wrap__ZNK11LineSegment7projectERK10Coordinatef(const LineSegment *, const Coordinate &c, float) {
    for (int i = 0; i < 2; i++) if (is(c, W.lp[i])) return C(W.to[i]);
    return c;
}
static bool segIs(const LineSegment &s, Pt a, Pt b) { return (is(s.get_endpoint_1(), a) & is(s.get_endpoint_2(), b)) | (is(s.get_endpoint_1(), b) & is(s.get_endpoint_2(), a)); }
extern "C" std::vector<LineSegment> __wrap__ZNK19SpatialSegmentIndex23intersect_with_segmentsERK11LineSegment(const void *, const LineSegment &s) {
    if (W.checkArg) W.argOk &= segIs(s, W.a0, W.a1);
    if (W.counting) W.searches++;
    return W.between;
}
extern "C" bool __wrap__ZNK19SpatialSegmentIndex35does_segment_intersect_with_segmentsERK11LineSegment(const void *, const LineSegment &s) {
    if (W.checkArg) W.argOk &= segIs(s, W.a0, W.a1);
    if (W.counting) W.searches++;
    return !W.between.empty();
}
extern "C" std::vector<VisibleVertex> __real__ZNK16VistreeGenerator20get_visible_verticesERK10Coordinateb(const VistreeGenerator *, const Coordinate &o, bool half);
extern "C" std::vector<VisibleVertex> __wrap__ZNK16VistreeGenerator20get_visible_verticesERK10Coordinateb(const VistreeGenerator *g, const Coordinate &o, bool half) {
    if (!W.seesKnown) return __real__ZNK16VistreeGenerator20get_visible_verticesERK10Coordinateb(g, o, half);
    std::vector<VisibleVertex> r;
    for (int i = 0; i < W.n; i++)
        if (is(o, W.v[i])) {
            for (int j = 0; j < W.n; j++) if (W.sees[i][j] && (!half || W.v[j].y >= W.v[i].y)) r.push_back(VisibleVertex{.coord = C(W.v[j]), .is_visible_across_meridian = false});
            return r;
        }
    return r;
}
// ---------------------------------------------------------------- layouts
static const Pt spots[MAXN] = {{0, 0}, {10, 1}, {13, 9}, {5, 15}, {-4, 8}, {24, 3}, {29, 10}, {40, 21}, {-23, -17}};
static void place(int n) { W.n = n; for (int i = 0; i < n; i++) W.v[i] = {spots[i].x * M, spots[i].y * M}; }
static int64_t circ(int i, int j) { // the distance the shorter way round
    if (i == j) return 0;
    int64_t d = i < j ? W.d[i][j] : W.d[j][i], a = W.p[i][j], b = W.p[j][i];
    if (a == FAR && b == FAR) return d;
    int64_t m = a < b ? a : b;
    return d < m ? d : m;
}
// any lengths; across the meridian only if asked for
static void anyMetric(unsigned across = 0) { // the pairs (in order 01 02 .. 12 ..) that also have a way across
    W.metric = true;
    for (int i = 0; i < W.n; i++)
        for (int j = 0; j < W.n; j++) {
            W.d[i][j] = 0; W.p[i][j] = FAR;
        }
    for (int i = 0, k = 0; i < W.n; i++)
        for (int j = i + 1; j < W.n; j++, k++) {
            W.d[i][j] = sx_int(("d" + std::to_string(i) + std::to_string(j)).c_str(), 1, MAXD);
            if (across >> k & 1) {
                bool east = (i + j) & 1; // the way round that is shorter differs from pair to pair
                (east ? W.p[i][j] : W.p[j][i]) = sx_int(("p" + std::to_string(i) + std::to_string(j)).c_str(), 1, MAXD);
            }
        }
    bool ok = true;
    if (!across)
        for (int i = 0; i < W.n; i++) for (int j = 0; j < W.n; j++) for (int k = 0; k < i; k++)
            if (i != j && k != j) ok &= circ(i, k) <= circ(i, j) + circ(j, k);
    if (across) // the shorter of the two ways is a metric: every combination of ways
        for (int i = 0; i < W.n; i++) for (int j = 0; j < W.n; j++) for (int k = 0; k < i; k++)
            if (i != j && k != j) {
                auto a = [&](int x, int y, int w) { return w ? ((x + y) & 1 ? (x < y ? W.p[x][y] : W.p[y][x]) : (x < y ? W.p[y][x] : W.p[x][y])) : (x < y ? W.d[x][y] : W.d[y][x]); };
                for (int w = 0; w < 4; w++) {
                    int64_t u = a(i, j, w & 1), v = a(j, k, w >> 1), s = u + v;
                    if (u == FAR || v == FAR) continue;
                    ok &= a(i, k, 1) == FAR ? a(i, k, 0) <= s : (a(i, k, 0) <= s) | (a(i, k, 1) <= s);
                }
            }
    sx_assume(ok);
}
// ---------------------------------------------------------------- the oracle: every simple path
enum { NONE = 0, PLAIN = 1, OVER = 2 };
static int st[MAXN][MAXN];
static int64_t stepLen(int i, int j) {
    if (st[i][j] == OVER) { int64_t a = W.p[i][j], b = W.p[j][i]; return a == FAR ? b : b == FAR ? a : (a < b ? a : b); }
    return i < j ? W.d[i][j] : W.d[j][i];
}
static bool within(int s, int v, int64_t limit) { // no farther from the source than the limit, either way round
    if (limit < 0 || s == v) return true;
    int64_t d = s < v ? W.d[s][v] : W.d[v][s], a = W.p[s][v], b = W.p[v][s];
    bool r = d <= limit;
    if (a != FAR) r |= a <= limit;
    if (b != FAR) r |= b <= limit;
    return r;
}
struct AllPaths { bool found = false, shortest = true; };
static void paths(int s, int at, int t, unsigned used, int64_t sum, bool ok, int64_t limit, int64_t got, AllPaths &r) {
    if (at == t) { r.found |= ok; r.shortest &= !ok | (got <= sum); return; }
    for (int j = 0; j < W.n; j++)
        if (st[at][j] != NONE && !(used >> j & 1)) paths(s, j, t, used | 1u << j, sum + stepLen(at, j), ok & within(s, j, limit), limit, got, r);
}
static void check(const ShortestPathComputer &spc, int s, int t, int64_t limit, double weight, Pt from, Pt to, bool correct) {
    std::vector<Coordinate> path;
    bool threw = false;
    W.calls = 0;
    try {
        path = spc.shortest_path(C(from), C(to), limit < 0 ? INFINITY : len(limit), correct, weight);
    } catch (const std::runtime_error &) { threw = true; }
    sx_out("threw", threw);
    bool ok = true, edges = true, near = true;
    int64_t sum = 0;
    if (!threw) {
        int prev = -1;
        for (auto &c : path) {
            int at = -1;
            for (int i = 0; i < W.n; i++) if (is(c, W.v[i])) at = i;
            sx_out("at", at);
            if (prev < 0) ok &= at == s;
            else if (at < 0 || st[prev][at] == NONE) edges = false;
            else sum += stepLen(prev, at);
            if (at >= 0) near &= within(s, at, limit);
            else ok = false;
            prev = at;
            if (!ok || !edges) break;
        }
        ok &= path.size() > 1 && prev == t;
        sx_assert(edges, "each step is an edge or joins an end to a vertex it sees");
        sx_assert(ok, "a path goes from the source to the destination");
    }
    if (!ok || !edges) sx_done();
    if (!threw && W.calls == 0) sx_done(); // distances taken some other way than through the stand-in: nothing to compare
    AllPaths all;
    paths(s, s, t, 1u << s, 0, true, limit, sum, all);
    if (threw) sx_assert(!all.found, "an error is raised only if no path within the limit exists");
    else {
        sx_assert(near, "a path does not visit a vertex farther from the source than the limit");
        if (weight == 1.0 && limit < 0) sx_assert(all.shortest, "a path is as short as any other");
    }
    sx_reach(threw ? "threw" : "found");
}
static const Polygon quad() { return Polygon({C(W.v[0]), C(W.v[1]), C(W.v[2]), C(W.v[3])}); }
static const Polygon penta() { return Polygon({C(W.v[0]), C(W.v[1]), C(W.v[2]), C(W.v[3]), C(W.v[4])}); }
static void join(Graph &g, int i, int j, int s) {
    st[i][j] = st[j][i] = s;
    if (s != NONE) g.add_edge(C(W.v[i]), C(W.v[j]), s == OVER);
}
static void clear() { for (auto &r : st) for (auto &x : r) x = NONE; }
static double anyWeight(const char *n) { static const double w[4] = {0, 0.5, 2, 10}; return w[sx_pick(n, 0, 3)]; }
// ---------------------------------------------------------------- between vertices of the graph
static void onGraph(int n, int pattern, bool limited, bool weighted, unsigned across) {
    place(n); clear();
    anyMetric(across);
    auto g = std::make_shared<Graph>(std::vector<Polygon>{n == 4 ? quad() : penta()});
    int s = 0, t = 2;
    for (int i = 0, k = 0; i < n; i++)
        for (int j = i + 1; j < n; j++, k++) {
            if (pattern >= 0) join(*g, i, j, pattern >> k & 1 ? PLAIN : NONE);
            else join(*g, i, j, (int)sx_pick(("e" + std::to_string(i) + std::to_string(j)).c_str(), 0, across >> k & 1 ? 2 : 1));
        }
    W.between = {LineSegment(C(W.v[0]), C(W.v[1]))};
    int64_t limit = limited ? sx_int("limit", 0, 2 * MAXD) : -1;
    double weight = weighted ? anyWeight("weight") : 1.0;
    ShortestPathComputer spc(g);
    check(spc, s, t, limit, weight, W.v[s], W.v[t], false);
}
extern "C" void c18_four() { onGraph(4, -1, false, false, 0); }
extern "C" void c18_across() { static const unsigned two[3] = {0b000101, 0b100001, 0b011000}; onGraph(4, -1, false, false, two[sx_pick("across", 0, 2)]); }
extern "C" void c18_across_all() { onGraph(4, -1, false, false, 0b111111); }
extern "C" void c18_five() { static const int pat[4] = {0b1111111101, 0b0110111101, 0b1011110001, 0b1101101101}; onGraph(5, pat[sx_pick("pattern", 0, 3)] & ~0b10, false, false, 0); }
extern "C" void c18_five_all() { onGraph(5, -1, false, false, 0); }
extern "C" void c19_four() { onGraph(4, -1, true, sx_pick("weighted", 0, 1), 0); }
extern "C" void c19_across() { onGraph(4, 0b111101, true, false, 0b100101); }
extern "C" void c19_five() { onGraph(5, 0b1111111101, true, true, 0); }
// ---------------------------------------------------------------- real distances, on both sides of the meridian
static const Pt across[6] = {{171, 0}, {176, -6}, {178, 7}, {-179, 3}, {-172, -4}, {-168, 9}};
static double realLen(int i, int j, bool over) {
    double y = (across[i].y - across[j].y), x = across[i].x - across[j].x;
    if (over) x = x > 0 ? x - PER * 1e-6 : x + PER * 1e-6;
    return std::sqrt(x * x + y * y);
}
static void realPaths(int s, int at, int t, int n, unsigned used, double sum, bool ok, double limit, double got, AllPaths &r) {
    if (at == t) { r.found |= ok; r.shortest &= !ok | (got <= sum + 1e-6); return; }
    for (int j = 0; j < n; j++)
        if (st[at][j] != NONE && !(used >> j & 1))
            realPaths(s, j, t, n, used | 1u << j, sum + realLen(at, j, st[at][j] == OVER), ok & (std::min(realLen(s, j, false), realLen(s, j, true)) <= limit), limit, got, r);
}
static void nearMeridian(int n, bool limited, bool all) {
    clear();
    W.n = n;
    Pt off = {sx_int("ox", -900000, 900000), sx_int("oy", -80 * M, 80 * M)};
    for (int i = 0; i < n; i++) W.v[i] = {across[i].x * M + off.x, across[i].y * M + off.y};
    auto g = std::make_shared<Graph>(std::vector<Polygon>{Polygon({C(W.v[0]), C(W.v[1]), C(W.v[2])})});
    for (int i = 3; i < n; i++) g->add_vertex(C(W.v[i]));
    int pat = all ? 0 : (int)sx_pick("pattern", 0, 3);
    for (int i = 0, k = 0; i < n; i++)
        for (int j = i + 1; j < n; j++, k++) {
            bool on = all || k % 4 == pat ? sx_pick(("e" + std::to_string(i) + std::to_string(j)).c_str(), 0, 1) : k % 3 != pat;
            if (i == 0 && j == n - 1) on = false;
            join(*g, i, j, on ? (across[i].x > 0) != (across[j].x > 0) ? OVER : PLAIN : NONE);
        }
    W.between = {LineSegment(C(W.v[0]), C(W.v[1]))};
    double limit = INFINITY;
    int s = 0, t = n - 1;
    if (sx_pick("back", 0, 1)) std::swap(s, t);
    if (limited) {
        limit = sx_dyadic("limit", 0, 512 << 14, 14);
        bool clear = true; // not exactly at a distance, where rounding decides
        for (int i = 0; i < n; i++) for (int w = 0; w < 2; w++) clear &= (limit < realLen(s, i, w) - 1e-6) | (limit > realLen(s, i, w) + 1e-6);
        sx_assume(clear);
    }
    ShortestPathComputer spc(g);
    bool threw = false, ok = true;
    std::vector<Coordinate> path;
    try { path = spc.shortest_path(C(W.v[s]), C(W.v[t]), limit); } catch (const std::runtime_error &) { threw = true; }
    double sum = 0;
    int prev = -1;
    for (auto &c : path) {
        int at = -1;
        for (int i = 0; i < n; i++) if (is(c, W.v[i])) at = i;
        sx_out("at", at);
        if (at < 0 || (prev < 0 ? at != s : st[prev][at] == NONE)) { ok = false; break; }
        if (prev >= 0) sum += realLen(prev, at, st[prev][at] == OVER);
        prev = at;
    }
    if (!threw) { sx_assert(ok && prev == t, "a path goes along edges from the source to the destination"); if (!ok) sx_done(); }
    AllPaths a;
    realPaths(s, s, t, n, 1u << s, 0, true, limit, sum, a);
    if (threw) sx_assert(!a.found, "an error is raised only if no path within the limit exists");
    else { sx_assert(a.found, "no path is given if none within the limit exists"); if (!limited) sx_assert(a.shortest, "a path is as short as any other, lengths measured across the meridian where it crosses"); }
    sx_reach(threw ? "threw" : "found");
}
extern "C" void c18_meridian() { nearMeridian(6, false, false); }
extern "C" void c18_meridian_all() { nearMeridian(5, false, true); }
extern "C" void c19_meridian() { nearMeridian(6, true, false); }
// ---------------------------------------------------------------- ends that are not vertices: joined to what they see
static void offGraph(bool limited, bool land, bool all = false) {
    place(7); clear();
    // vertices 0, 1, 3 and 5 are the graph's, 6 and 4 the ends off it
    auto g = std::make_shared<Graph>(std::vector<Polygon>{Polygon({C(W.v[0]), C(W.v[1]), C(W.v[3])})});
    g->add_vertex(C(W.v[5]));
    anyMetric();
    static const int vs[4] = {0, 1, 3, 5};
    for (auto &r : W.sees) for (auto &x : r) x = false;
    W.seesKnown = true;
    int e = (int)sx_pick("edges", 0, 3);
    if (e & 1) { join(*g, 0, 5, PLAIN); join(*g, 1, 3, PLAIN); join(*g, 0, 1, PLAIN); }
    if (e & 2) { join(*g, 1, 5, PLAIN); join(*g, 0, 3, PLAIN); }
    int kind = (int)sx_pick("ends", 0, 2), s = kind == 2 ? 0 : 6, t = kind == 1 ? 3 : 4;
    static const int some[6] = {3, 12, 6, 1, 15, 0};
    auto set = [&](const char *n) { return all ? (int)sx_pick(n, 0, 15) : some[sx_pick(n, 0, limited || land ? 2 : 4)]; };
    int ss = s == 6 ? set("sourceSees") : 0, ds = t == 4 ? set("destSees") : 0;
    W.edges = {LineSegment(C(W.v[0]), C(W.v[1])), LineSegment(C(W.v[1]), C(W.v[3])), LineSegment(C(W.v[3]), C(W.v[0]))};
    W.between = {W.edges[1], W.edges[2]};
    Pt from = W.v[s], to = W.v[t];
    W.landKnown = true;
    if (land) {
        int who = (int)sx_pick("land", 1, 3);
        W.lp[0] = {2 * M, 3 * M}; W.lp[1] = {3 * M, 4 * M};
        for (int i = 0; i < 2; i++)
            if (who >> i & 1) { W.land[i] = true; W.edge[i] = i; W.to[i] = i ? to : from; (i ? to : from) = W.lp[i]; }
    }
    auto seen = [&](int at, int set, int i) {
        for (int k = 0; k < 4; k++) if (set >> k & 1) {
            W.sees[at][vs[k]] = true;
            auto &seg = W.edges[W.edge[i]];
            bool inland = W.land[i] && orient(P(seg.get_endpoint_1()), P(seg.get_endpoint_2()), W.v[vs[k]]) > 0;
            if (!inland) st[at][vs[k]] = st[vs[k]][at] = PLAIN;
        }
    };
    if (s == 6) seen(6, ss, 0);
    if (t == 4) seen(4, ds, 1);
    ShortestPathComputer spc(g);
    check(spc, s, t, limited ? sx_int("limit", 0, 2 * MAXD) : -1, 1.0, from, to, land);
    sx_assert(g->get_vertices().size() == 4 && !g->has_vertex(C(W.v[6])) && !g->has_vertex(C(W.v[4])), "the graph itself stays as it was");
}
extern "C" void c18_off_graph() { offGraph(false, false); }
extern "C" void c18_from_land() { offGraph(false, true); }
extern "C" void c19_off_graph() { offGraph(true, false); }
extern "C" void c18_off_graph_all() { offGraph(false, false, true); }
extern "C" void c18_from_land_all() { offGraph(false, true, true); }
extern "C" void c19_off_graph_all() { offGraph(true, false, true); }
// ---------------------------------------------------------------- a clear line
static Pt norm(Pt p) { return {p.x > HALF ? p.x - PER : p.x < -HALF ? p.x + PER : p.x, p.y}; }
static std::shared_ptr<Graph> some() { place(4); return std::make_shared<Graph>(std::vector<Polygon>{quad()}); }
extern "C" void c18_clear() {
    auto g = some();
    Pt a = anyPt("sx", "sy"), b = anyPt("tx", "ty");
    W.checkArg = true;
    W.a0 = norm(a); W.a1 = norm(b);
    ShortestPathComputer spc(g);
    static const double lim[3] = {INFINITY, 0, 1};
    auto path = spc.shortest_path(C(a), C(b), lim[sx_pick("limit", 0, 2)], sx_pick("correct", 0, 1), 1.0);
    sx_assert(path.size() == 2, "with nothing in between the path is source and destination");
    if (path.size() != 2) sx_done();
    sx_assert(is(path[0], W.a0) & is(path[1], W.a1), "with nothing in between the path is source and destination");
    sx_assert(W.argOk, "what lies in between is asked of the line from source to destination");
    outC("a", path[0]); outC("b", path[1]);
    sx_reach("end");
}
// on land, moved to the coast: only the edges moved to are passed over
extern "C" void c18_clear_coast() {
    auto g = some();
    W.edges = {LineSegment(C(W.v[0]), C(W.v[1])), LineSegment(C(W.v[1]), C(W.v[2])), LineSegment(C(W.v[2]), C(W.v[3]))};
    int who = (int)sx_pick("land", 0, 3), meet = (int)sx_pick("between", 0, 7), turn = (int)sx_pick("turned", 0, 1);
    W.landKnown = true;
    W.lp[0] = {2 * M, 3 * M}; W.lp[1] = {3 * M, 4 * M};
    Pt at[2];
    for (int i = 0; i < 2; i++) {
        at[i] = W.lp[i];
        W.land[i] = who >> i & 1;
        if (W.land[i]) { W.edge[i] = (int)sx_pick(i ? "edgeT" : "edgeS", 0, 2); W.to[i] = at[i] = i ? Pt{sx_int("tx", -HALF, HALF), sx_int("ty", -MAXLAT, MAXLAT)} : Pt{sx_int("sx", -HALF, HALF), sx_int("sy", -MAXLAT, MAXLAT)}; }
    }
    bool clear = true;
    for (int k = 0; k < 3; k++)
        if (meet >> k & 1) {
            auto &e = W.edges[k];
            W.between.push_back(turn ? LineSegment(e.get_endpoint_2(), e.get_endpoint_1()) : e);
            bool own = (W.land[0] && W.edge[0] == k) || (W.land[1] && W.edge[1] == k);
            if (!own) clear = false;
        }
    W.seesKnown = true;
    for (auto &r : W.sees) for (auto &x : r) x = false;
    if (!clear) for (auto &p : W.v) for (int i = 0; i < 2; i++) sx_assume(!same(at[i], p));
    W.checkArg = true; W.a0 = at[0]; W.a1 = at[1];
    ShortestPathComputer spc(g);
    bool threw = false;
    std::vector<Coordinate> path;
    if (!clear) sx_assume(!same(at[0], at[1]));
    try { path = spc.shortest_path(C(W.lp[0]), C(W.lp[1]), INFINITY, true, 1.0); } catch (const std::runtime_error &) { threw = true; }
    sx_assert(threw == !clear, "ends moved to the coast are joined directly when only the edges moved to lie in between");
    if (!threw) sx_assert(path.size() == 2 && (is(path[0], at[0]) & is(path[1], at[1])), "the path joins the corrected positions");
    sx_assert(W.argOk, "what lies in between is asked of the line between the corrected positions");
    sx_reach(threw ? "threw" : "direct");
}
// ---------------------------------------------------------------- on land
extern "C" void c19_land() {
    auto g = some();
    Pt a = anyPt("sx", "sy"), b = anyPt("tx", "ty");
    W.landKnown = true;
    W.lp[0] = norm(a); W.lp[1] = norm(b);
    sx_assume(!same(W.lp[0], W.lp[1]));
    W.land[0] = sx_bool("sourceOnLand"); W.land[1] = sx_bool("destOnLand");
    W.edges = {LineSegment(C(W.v[0]), C(W.v[1]))};
    W.to[0] = {sx_int("ax", -HALF, HALF), sx_int("ay", -MAXLAT, MAXLAT)}; W.to[1] = {sx_int("bx", -HALF, HALF), sx_int("by", -MAXLAT, MAXLAT)};
    bool correct = sx_pick("correct", 0, 1), threw = false;
    std::vector<Coordinate> path;
    ShortestPathComputer spc(g);
    try { path = spc.shortest_path(C(a), C(b), INFINITY, correct, 1.0); } catch (const std::runtime_error &) { threw = true; }
    sx_assert(threw == (!correct & (W.land[0] | W.land[1])), "a source or destination on land is refused unless correction is requested");
    if (!threw) {
        sx_assert(path.size() == 2, "the path joins two positions");
        if (path.size() != 2) sx_done();
        sx_assert((W.land[0] & is(path[0], W.to[0])) | (!W.land[0] & is(path[0], W.lp[0])), "only a source on land is moved");
        sx_assert((W.land[1] & is(path[1], W.to[1])) | (!W.land[1] & is(path[1], W.lp[1])), "only a destination on land is moved");
    }
    sx_reach(threw ? "threw" : "path");
}
// ---------------------------------------------------------------- batches
static void fixedMetric() { // straight distances, in 1/SCALE degrees
    W.metric = true;
    for (int i = 0; i < W.n; i++) for (int j = 0; j < W.n; j++) { W.p[i][j] = FAR; Pt e = sub(spots[i], spots[j]); W.d[i][j] = (int64_t)std::ceil(std::sqrt((double)dotL(e, e)) * SCALE); }
}
static void batch(int n, int threads, int preemptions = 0) {
    place(7); clear();
    auto g = std::make_shared<Graph>(std::vector<Polygon>{Polygon({C(W.v[0]), C(W.v[1]), C(W.v[3])})});
    g->add_vertex(C(W.v[5]));
    n > 1 ? fixedMetric() : anyMetric();
    join(*g, 0, 1, PLAIN); join(*g, 1, 3, PLAIN); join(*g, 0, 3, PLAIN); // 5 is joined to nothing
    W.seesKnown = true;
    for (auto &r : W.sees) for (auto &x : r) x = false;
    W.sees[6][0] = W.sees[6][1] = W.sees[4][3] = true;
    W.between = {LineSegment(C(W.v[0]), C(W.v[1]))};
    W.landKnown = true; W.land[0] = true; W.lp[0] = W.v[2]; W.lp[1] = W.v[2];
    static const int ends[5][2] = {{0, 3}, {0, 5}, {6, 4}, {2, 0}, {3, 6}}; // found, no way, found off the graph, on land, found
    std::vector<std::pair<Coordinate, Coordinate>> req;
    std::vector<int> kind;
    for (int i = 0; i < n; i++) { kind.push_back((int)sx_pick(nm("kind", i).c_str(), 0, 4)); req.emplace_back(C(W.v[ends[kind[i]][0]]), C(W.v[ends[kind[i]][1]])); }
    static const double w[3] = {1, 0, 10};
    double weight = w[sx_pick("weight", 0, n > 2 || threads > 1 ? 0 : 2)];
    int64_t limit = (threads == 1 || n < 3) && sx_pick("limited", 0, 1) ? sx_int("limit", 0, 64 * SCALE) : -1;
    double lim = limit < 0 ? INFINITY : len(limit);
    ShortestPathComputer spc(g);
    if (threads > 1) { W.counting = false; sx_cfg("omp_threads", threads); sx_cfg("preemptions", preemptions); }
    auto got = spc.shortest_paths(req, lim, false, weight);
    if (threads > 1) sx_cfg("omp_threads", 1);
    sx_assert((int)got.size() == n, "one answer for each request");
    if ((int)got.size() != n) sx_done();
    bool same = true, err = true, one = true, why = true;
    for (int i = 0; i < n; i++) {
        std::vector<Coordinate> path;
        bool threw = false;
        try { path = spc.shortest_path(req[i].first, req[i].second, lim, false, weight); } catch (const std::exception &e) {
            threw = true;
            if (got[i].error_msg.has_value()) why &= *got[i].error_msg == e.what();
        }
        err &= threw == got[i].error_msg.has_value();
        one &= got[i].path.has_value() != got[i].error_msg.has_value();
        if (!threw && got[i].path.has_value()) {
            same &= path.size() == got[i].path->size();
            for (size_t k = 0; same && k < path.size(); k++) same &= is(path[k], P((*got[i].path)[k]));
        }
        sx_out("threw", threw);
    }
    sx_assert(err, "an error message exactly for the requests that fail alone");
    sx_assert(why, "an error message says what the single request's error says");
    sx_assert(one, "each answer is either a path or an error message");
    sx_assert(same, "each path is the one the single request gives");
    sx_reach("end");
}
extern "C" void c20_one() { batch((int)sx_pick("n", 0, 1), 1); }
extern "C" void c20_two() { batch(2, 1); }
extern "C" void c20_three() { batch(3, 1); }
// the workers interleaved
extern "C" void c20_threads_two() { batch(2, 2, 1); }
extern "C" void c20_threads_switches() { batch(2, 2, 2); }
extern "C" void c20_threads_three() { batch(3, 3, 1); }
