// C08, C09: which vertices an observer is told it sees.
#include "vis.h"
#include "visgraph/vistree_generator.hpp"
enum { HIDE = 1, SEE = 2, HALFSCAN = 4 };
static void look(const Scene &s, Pt o, int mode) {
    auto vs = sceneVertices(s);
    VistreeGenerator gen(polys(s));
    auto full = gen.get_visible_vertices(C(o));
    // positions beyond longitude 180 are copies of positions a period away, seen across the meridian
    auto count = [](const std::vector<VisibleVertex> &r, Pt v) {
        int c = 0;
        const bool east = v.x > HALF, west = v.x < -HALF;
        const Pt n = {east ? v.x - PER : west ? v.x + PER : v.x, v.y};
        for (auto &x : r) c += is(x.coord, n) & (x.is_visible_across_meridian == (east | west));
        return c;
    };
    int total = 0;
    for (auto &v : vs) {
        int c = count(full, v);
        total += c;
        sx_out("v", c);
        if (mode & HIDE) sx_assert(!(mustHide(s, o, v) & (c > 0)), "a vertex behind an obstacle is not reported visible");
        if (mode & SEE) {
            sx_assert(c <= 1, "a vertex is reported at most once");
            sx_assert(!(mustSee(s, o, v) & (c == 0)), "a vertex in clear view is reported visible");
        }
    }
    if (mode & SEE) sx_assert(total == (int)full.size(), "what is reported are obstacle vertices, with their positions");
    if (mode & HALFSCAN) {
        auto half = gen.get_visible_vertices(C(o), true);
        int t = 0;
        for (auto &v : vs) {
            int h = count(half, v), c = count(full, v);
            t += h;
            bool up = v.y >= o.y;
            sx_assert((up & (h == c)) | (!up & (h == 0)), "a half scan reports what the full scan reports at or above the observer");
        }
        sx_assert(t == (int)half.size(), "a half scan reports obstacle vertices");
    }
    sx_reach("end");
}
// two obstacles, the observer anywhere
static const Scene sceneA = {{{0, 0}, {10, 0}, {5, 8}}, {{14, 3}, {20, -2}, {24, 6}, {18, 9}}};
// a bay with an island at its mouth
static const Scene sceneB = {{{0, 0}, {20, 0}, {20, 4}, {6, 4}, {6, 10}, {20, 10}, {20, 14}, {0, 14}}, {{13, 6}, {16, 5}, {15, 8}}};
// long obstacles seen at a flat angle
static const Scene sceneC = {{{1000, 0}, {50000, -3000}, {100000, 1000}}, {{5000, 43}, {5010, 45}, {5000, 50}}, {{6000, 53}, {6100, 65}, {6050, 75}}};
// two islands with a vertex in common
static const Scene sceneD = {{{0, 0}, {8, -6}, {10, 0}}, {{10, 0}, {18, -3}, {17, 9}}, {{30, -4}, {33, 2}, {28, 5}}};
static const int64_t MILLION = 1000000;
static Scene big(const Scene &s) { Scene r = s; for (auto &p : r) for (auto &q : p) { q.x *= MILLION; q.y *= MILLION; } return r; }
static Scene moved(const Scene &s, Pt by) { Scene r = s; for (auto &p : r) for (auto &q : p) { q.x += by.x; q.y += by.y; } return r; }
// observer anywhere off land, in a box around the scene
static void freeObserver(const Scene &s, int64_t x0, int64_t x1, int64_t y0, int64_t y1, int mode) {
    Pt o = {sx_int("ox", x0, x1), sx_int("oy", y0, y1)};
    sx_assume(!onLand(s, o));
    look(s, o, mode);
}
#define FREE(name, scene, ...) \
    extern "C" void c08_##name() { freeObserver(scene, __VA_ARGS__, HIDE); } \
    extern "C" void c09_##name() { freeObserver(scene, __VA_ARGS__, SEE); } \
    extern "C" void c09_half_##name() { freeObserver(scene, __VA_ARGS__, HALFSCAN); }
FREE(two, sceneA, -HALF, HALF, -MAXLAT, MAXLAT)
FREE(bay, sceneB, -HALF, HALF, -MAXLAT, MAXLAT)
FREE(flat, sceneC, -2000, 900, -300, 900)
FREE(touching, sceneD, -HALF, HALF, -MAXLAT, MAXLAT)
// obstacles beyond the meridian
FREE(east, moved(sceneA, {HALF + 5, 0}), HALF - 60 * MILLION, HALF, -MAXLAT, MAXLAT)
FREE(east_wide, big(moved(sceneA, {183, 1})), HALF - 60 * MILLION, HALF, -MAXLAT, MAXLAT)
FREE(west_wide, big(moved(sceneA, {-206, 1})), -HALF, 60 * MILLION - HALF, -MAXLAT, MAXLAT)
// the observer is an obstacle vertex; one corner of the scene is anywhere in a box
static const int64_t M = 1000000;
static void cornerObserver(Scene s, int p, int k, int64_t x0, int64_t x1, int64_t y0, int64_t y1, int mode) {
    for (auto &q : s) for (auto &v : q) { v.x *= M; v.y *= M; }
    Pt c = {sx_int("cx", x0 * M, x1 * M), sx_int("cy", y0 * M, y1 * M)};
    s[p][k] = c;
    int n = (int)s[p].size();
    sx_assume(orient(s[p][(k + n - 1) % n], c, s[p][(k + 1) % n]) != 0);
    auto vs = sceneVertices(s);
    int i = (int)sx_pick("o", 0, (int64_t)vs.size() - 1);
    look(s, vs[i], mode);
}
static const Scene sceneE = {{{0, 0}, {10, 0}, {5, 8}}, {{14, 3}, {20, -2}, {24, 6}, {18, 9}}, {{4, 14}, {12, 12}, {9, 18}}};
static const Scene sceneF = {{{0, 0}, {12, 0}, {12, 10}, {6, 5}, {0, 10}}, {{4, 13}, {8, 13}, {6, 16}}};
#define CORNER(name, scene, ...) \
    extern "C" void c08_##name() { cornerObserver(scene, __VA_ARGS__, HIDE); } \
    extern "C" void c09_##name() { cornerObserver(scene, __VA_ARGS__, SEE); } \
    extern "C" void c09_half_##name() { cornerObserver(scene, __VA_ARGS__, HALFSCAN); }
CORNER(apex, sceneE, 0, 2, -6, 11, 1, 10)
CORNER(notch, sceneF, 0, 3, 1, 11, 1, 12)
CORNER(island, sceneF, 1, 0, 2, 7, 11, 14)
// a vertex in common, diagonals inside both polygons
static const Scene sceneG = {{{0, 0}, {8, -6}, {10, 0}, {6, 5}}, {{10, 0}, {18, -4}, {19, 4}, {14, 9}}, {{-4, 12}, {6, 11}, {0, 16}}};
CORNER(shared, sceneG, 1, 2, 15, 24, 0, 7)
// a vertex common to three polygons
static const Scene sceneH = {{{0, 0}, {-9, 3}, {-9, -3}}, {{0, 0}, {3, -9}, {9, -7}, {8, -2}}, {{0, 0}, {9, 4}, {5, 12}, {2, 9}}};
CORNER(three_shared, sceneH, 2, 2, 3, 11, 8, 12)
