// C03, C04, C05, C06, C07, C23: exact geometry on the stored integers
#include "common.h"
#include "coordinate_periodicity/coordinate_periodicity.hpp"
#include "geom/angle_sorter/angle_sorter.hpp"

// ---- C03
extern "C" void c03_orientation() {
    Pt a = anyPt("ax", "ay"), b = anyPt("bx", "by"), c = anyPt("cx", "cy");
    int64_t cr = orient(a, b, c);
    Orientation o = LineSegment(C(a), C(b)).orientation_of_point_to_segment(C(c));
    sx_assert((o == Orientation::COUNTER_CLOCKWISE) == (cr > 0), "counter clockwise exactly when the cross product is positive");
    sx_assert((o == Orientation::CLOCKWISE) == (cr < 0), "clockwise exactly when the cross product is negative");
    sx_assert((o == Orientation::COLLINEAR) == (cr == 0), "collinear exactly when the cross product is zero");
    sx_out("o", o);
    sx_reach("end");
}
extern "C" void c03_parallel() {
    Pt a = anyPt("ax", "ay", 2 * MAXLON, 2 * MAXLAT), b = anyPt("bx", "by", 2 * MAXLON, 2 * MAXLAT);
    sx_i128 cr = (sx_i128)a.x * b.y - (sx_i128)a.y * b.x;
    Orientation o = C(a).vector_orientation(C(b));
    sx_assert((o == Orientation::COUNTER_CLOCKWISE) == (cr > 0), "vector orientation is counter clockwise exactly when the cross product is positive");
    sx_assert((o == Orientation::CLOCKWISE) == (cr < 0), "vector orientation is clockwise exactly when the cross product is negative");
    sx_assert((o == Orientation::COLLINEAR) == (cr == 0), "vector orientation is collinear exactly when the cross product is zero");
    sx_assert(C(a).parallel(C(b)) == (cr == 0), "parallel exactly when the cross product is zero");
    sx_out("o", o);
    sx_reach("end");
}
// the factor between parallel vectors has the sign of their dot product
extern "C" void c03_factor() {
    Pt a = anyPt("ax", "ay"), b = anyPt("bx", "by");
    auto f = C(a).scalar_multiple_factor(C(b));
    bool par = crossL(a, b) == 0;
    sx_assert(f.has_value() == par, "a factor is given exactly for parallel vectors");
    if (f.has_value()) {
        int64_t d = dotL(a, b);
        sx_assert((*f < 0) == (d < 0), "factor is negative exactly for opposite vectors");
        sx_assert((*f > 0) == (d > 0), "factor is positive exactly for vectors of the same direction");
    }
    sx_reach("end");
}
extern "C" void c03_on_segment() {
    Pt a = anyPt("ax", "ay"), b = anyPt("bx", "by"), c = anyPt("cx", "cy");
    bool got = LineSegment(C(a), C(b)).on_segment(C(c));
    bool inx = ((a.x <= c.x) & (c.x <= b.x)) | ((b.x <= c.x) & (c.x <= a.x));
    bool iny = ((a.y <= c.y) & (c.y <= b.y)) | ((b.y <= c.y) & (c.y <= a.y));
    bool want = (orient(a, b, c) == 0) & inx & iny;
    sx_out("got", got);
    if (got) sx_reach("on");
    sx_assert(got == want, "on the segment exactly when collinear and within its bounds");
    sx_reach("end");
}
// ---- C04
static bool meet(Pt a, Pt b, Pt c, Pt d) { // closed segments that are not parallel share a point
    int64_t o1 = orient(a, b, c), o2 = orient(a, b, d), o3 = orient(c, d, a), o4 = orient(c, d, b);
    return (((o1 >= 0) & (o2 <= 0)) | ((o1 <= 0) & (o2 >= 0))) & (((o3 >= 0) & (o4 <= 0)) | ((o3 <= 0) & (o4 >= 0)));
}
extern "C" void c04_decide() {
    Pt a = anyPt("ax", "ay"), b = anyPt("bx", "by"), c = anyPt("cx", "cy"), d = anyPt("dx", "dy");
    sx_assume(crossL(sub(b, a), sub(d, c)) != 0);
    auto r = LineSegment(C(a), C(b)).intersection_with_segment(LineSegment(C(c), C(d)));
    sx_out("r", r.has_value());
    if (r.has_value()) sx_reach("meet"); else sx_reach("miss");
    sx_assert(r.has_value() == meet(a, b, c, d), "segments that are not parallel are reported to intersect exactly when they share a point");
}
extern "C" void c04_parallel() {
    Pt a = anyPt("ax", "ay"), b = anyPt("bx", "by"), c = anyPt("cx", "cy"), d = anyPt("dx", "dy");
    sx_assume(crossL(sub(b, a), sub(d, c)) == 0);
    auto r = LineSegment(C(a), C(b)).intersection_with_segment(LineSegment(C(c), C(d)));
    bool common = same(a, c) | same(a, d) | same(b, c) | same(b, d);
    sx_assert(r.has_value() == common, "parallel segments intersect exactly when they have a common end point");
    if (r.has_value()) {
        Pt q = P(*r);
        sx_assert((same(q, a) | same(q, b)) & (same(q, c) | same(q, d)), "the point returned is a common end point");
        sx_reach("touch");
    }
    sx_reach("end");
}
// |returned - exact| <= 1 microdegree: exact = a + n Qx / D
static void locate(Pt a, Pt b, Pt c, Pt d) {
    int64_t D = crossL(sub(b, a), sub(c, d));
    sx_assume(D != 0);
    auto r = LineSegment(C(a), C(b)).intersection_with_segment(LineSegment(C(c), C(d)));
    if (!r.has_value()) return;
    outC("r", *r);
    int64_t Q = crossL(sub(c, a), sub(c, d)), aD = D < 0 ? -D : D;
    sx_i128 ex = (sx_i128)(r->get_longitude_microdegrees_long() - a.x) * D - (sx_i128)(b.x - a.x) * Q;
    sx_i128 ey = (sx_i128)(r->get_latitude_microdegrees_long() - a.y) * D - (sx_i128)(b.y - a.y) * Q;
    sx_assert(ex <= aD && -ex <= aD, "longitude of the crossing is within a microdegree");
    sx_assert(ey <= aD && -ey <= aD, "latitude of the crossing is within a microdegree");
    sx_reach("end");
}
extern "C" void c04_locate() {
    Pt a = anyPt("ax", "ay"), b = anyPt("bx", "by"), c = anyPt("cx", "cy"), d = anyPt("dx", "dy");
    locate(a, b, c, d);
}
// crossing exactly at an end point of either segment gives exactly that point
extern "C" void c04_endpoint() {
    Pt a = anyPt("ax", "ay"), b = anyPt("bx", "by"), c = anyPt("cx", "cy");
    sx_assume(orient(a, b, c) != 0);
    int how = (int)sx_pick("how", 0, 1);
    // the segments a-b and a-c share a; asked from either
    auto r = how ? LineSegment(C(a), C(b)).intersection_with_segment(LineSegment(C(a), C(c))) : LineSegment(C(b), C(a)).intersection_with_segment(LineSegment(C(a), C(c)));
    sx_assert(r.has_value(), "segments with a common end point intersect");
    if (r.has_value()) {
        outC("r", *r);
        sx_assert(is(*r, a), "segments with a common end point intersect in it");
    }
    sx_reach("end");
}
extern "C" void c04_adjacent() {
    Pt a = anyPt("ax", "ay"), b = anyPt("bx", "by"), q = anyPt("qx", "qy");
    LineSegment s(C(a), C(b));
    sx_assert(is(s.get_endpoint_1(), a) && is(s.get_endpoint_2(), b), "end points are kept");
    sx_assert(is(s.get_tangent_vector(), sub(b, a)), "tangent vector is the difference of the end points");
    try {
        Coordinate r = s.get_adjacent_to(C(q));
        sx_assert((same(q, a) & is(r, b)) | (same(q, b) & is(r, a)), "adjacent to an end point is the other one");
        sx_reach("adj");
    } catch (const std::exception &) {
        sx_assert(!same(q, a) && !same(q, b), "only a point that is not an end point has no adjacent");
        sx_reach("throw");
    }
}
// ---- C05
static int half(Pt v) { return (v.y < 0) | ((v.y == 0) & (v.x < 0)) ? 1 : 0; }
static bool before(Pt o, Pt p, Pt q) { // p may not come after q: angle, then distance; observer first
    Pt v = sub(p, o), w = sub(q, o);
    bool vz = same(p, o), wz = same(q, o);
    int hv = half(v), hw = half(w);
    int64_t cr = crossL(v, w);
    sx_i128 dv = (sx_i128)v.x * v.x + (sx_i128)v.y * v.y, dw = (sx_i128)w.x * w.x + (sx_i128)w.y * w.y;
    bool lt = (hv < hw) | ((hv == hw) & ((cr > 0) | ((cr == 0) & (dv <= dw))));
    return vz | (!wz & lt);
}
static void sortCheck(Pt o, std::vector<Pt> p) {
    int n = (int)p.size();
    std::vector<Coordinate> v;
    for (auto &x : p) v.push_back(C(x));
    AngleSorter::sort_counter_clockwise_around_observer(C(o), v);
    sx_assert((int)v.size() == n, "nothing is lost or added");
    for (int i = 0; i < n; i++) outC("v", v[i]);
    for (int i = 0; i < n; i++) {
        int64_t before_ = 0, after = 0;
        for (int j = 0; j < n; j++) { before_ += same(p[i], p[j]); after += is(v[j], p[i]); }
        sx_assert(before_ == after, "the result is a permutation");
    }
    for (int i = 0; i + 1 < n; i++) sx_assert(before(o, P(v[i]), P(v[i + 1])), "positions are in order of angle and distance");
    sx_reach("end");
}
extern "C" void c05_sort2() { Pt o = anyPt("ox", "oy"); std::vector<Pt> p = {offPt(o, "ax", "ay"), offPt(o, "bx", "by")}; sortCheck(o, p); }
extern "C" void c05_sort3() { Pt o = anyPt("ox", "oy"); std::vector<Pt> p = {offPt(o, "ax", "ay"), offPt(o, "bx", "by"), offPt(o, "cx", "cy")}; sortCheck(o, p); }
extern "C" void c05_sort3_small() { Pt o = {0, 0}; std::vector<Pt> p = {anyPt("ax", "ay", 2, 2), anyPt("bx", "by", 2, 2), anyPt("cx", "cy", 2, 2)}; sortCheck(o, p); }
extern "C" void c05_sort0() { int n = (int)sx_pick("n", 0, 1); std::vector<Pt> p; if (n) p.push_back(anyPt("ax", "ay")); sortCheck(anyPt("ox", "oy"), p); }
// positions around a ring of 9 concrete directions (several exactly or nearly the same) and one free
extern "C" void c05_sort_many() {
    Pt o = {151000000, -33000000};
    static const Pt dirs[] = {{540000001 - 151000000, 0}, {1, 0}, {-1, 0}, {-300000000, 0}, {300000001, 1}, {300000000, 1}, {0, -5}, {0, 7}, {-2, -3}, {-200000001, -57000000}};
    std::vector<Pt> p;
    int rot = (int)sx_pick("rot", 0, 2);
    for (int i = 0; i < 10; i++) { Pt d = dirs[(i * 3 + rot * 4) % 10]; p.push_back({o.x + d.x, o.y + d.y}); }
    p.push_back(anyPt("ax", "ay"));
    sortCheck(o, p);
}
// ---- C06
static std::vector<Pt> shape(int n, int64_t w, int64_t h) {
    std::vector<Pt> p;
    for (int i = 0; i < n; i++) p.push_back(i ? offPt(p.back(), nm("x", i).c_str(), nm("y", i).c_str(), w, h) : anyPt(nm("x", i).c_str(), nm("y", i).c_str(), w, h));
    return p;
}
// what must be kept: repeated consecutive vertices once, straight vertices not at all
static std::vector<Pt> keep(const std::vector<Pt> &p) {
    std::vector<Pt> d;
    int n = (int)p.size();
    for (int i = 0; i < n; i++) { if (!d.empty() && same(d.back(), p[i])) continue; d.push_back(p[i]); }
    while (d.size() > 1 && same(d.front(), d.back())) d.pop_back();
    std::vector<Pt> r;
    n = (int)d.size();
    if (n < 2) return r;
    for (int i = 0; i < n; i++) {
        Pt u = sub(d[i], d[(i + n - 1) % n]), v = sub(d[(i + 1) % n], d[i]);
        if (crossL(u, v) == 0 && dotL(u, v) > 0) continue;
        r.push_back(d[i]);
    }
    return r;
}
static int64_t area2(const std::vector<Pt> &p) { int64_t s = 0; for (size_t i = 0; i + 1 < p.size(); i++) s += crossL(sub(p[i], p[0]), sub(p[i + 1], p[0])); return s; }
static bool sameCycle(const std::vector<Coordinate> &v, const std::vector<Pt> &k, bool rev) {
    int n = (int)k.size();
    for (int s = 0; s < n; s++) {
        bool ok = true;
        for (int i = 0; i < n && ok; i++) ok = is(v[i], k[rev ? (s + n - i) % n : (s + i) % n]);
        if (ok) return true;
    }
    return n == 0;
}
static void polygonCheck(const std::vector<Pt> &p) {
    std::vector<Coordinate> in;
    for (auto &x : p) in.push_back(C(x));
    Polygon poly(in);
    const auto &v = poly.get_vertices();
    for (auto &c : v) outC("v", c);
    sx_reach("built");
    auto k = keep(p);
    sx_assert(v.size() == k.size(), "exactly the repeated and straight vertices are dropped");
    if (v.size() == k.size()) {
        bool fwd = sameCycle(v, k, false);
        sx_assert(fwd || sameCycle(v, k, true), "the vertices keep their cyclic order");
    }
    auto segs = poly.get_line_segments();
    sx_assert(segs.size() == v.size(), "one segment per vertex");
    for (size_t i = 0; i < segs.size() && i < v.size(); i++)
        sx_assert(segs[i].get_endpoint_1() == v[i] && segs[i].get_endpoint_2() == v[(i + 1) % v.size()], "the segments are the closed outline");
    Polygon again(v);
    sx_assert(again == poly && !(again != poly), "building a polygon from the vertices of a polygon changes nothing");
    sx_reach("end");
}
extern "C" void c06_poly3() { polygonCheck(shape(3, MAXLON, MAXLAT)); }
extern "C" void c06_poly4() { polygonCheck(shape(4, MAXLON, MAXLAT)); }
extern "C" void c06_poly4_small() { polygonCheck(shape(4, 2, 2)); }
extern "C" void c06_poly5_small() { polygonCheck(shape(5, 2, 1)); }
extern "C" void c06_poly12() { int n = (int)sx_pick("n", 0, 2); polygonCheck(shape(n, MAXLON, MAXLAT)); }
// runs of repeated and straight vertices: concrete outline, each corner repeated or followed by a straight vertex
extern "C" void c06_runs() {
    static const Pt q[4] = {{0, 0}, {8, 0}, {8, 8}, {0, 8}};
    int64_t dx = sx_int("dx", -HALF, HALF - 8), dy = sx_int("dy", -MAXLAT, MAXLAT - 8);
    int rot = (int)sx_pick("rot", 0, 1), rev = (int)sx_pick("rev", 0, 1);
    std::vector<Pt> p;
    for (int i = 0; i < 4; i++) {
        int a = rev ? (4 + rot - i) % 4 : (i + rot) % 4, b = rev ? (a + 3) % 4 : (a + 1) % 4;
        Pt A = {q[a].x + dx, q[a].y + dy}, B = {q[b].x + dx, q[b].y + dy};
        p.push_back(A);
        int k = i < 3 ? (int)sx_pick(nm("k", i).c_str(), 0, 3) : (int)sx_pick("k3", 0, 2);
        if (k == 1 || k == 3) p.push_back(A);
        if (k == 2 || k == 3) p.push_back({(A.x + B.x) / 2, (A.y + B.y) / 2});
        if (k == 3) p.push_back({(A.x + B.x) / 2, (A.y + B.y) / 2});
    }
    polygonCheck(p);
}
// orientation: simple polygons come out counter clockwise
static void windCheck(const std::vector<Pt> &p) {
    std::vector<Coordinate> in;
    for (auto &x : p) in.push_back(C(x));
    Polygon poly(in);
    std::vector<Pt> v;
    for (auto &c : poly.get_vertices()) { v.push_back(P(c)); outC("v", c); }
    sx_assert(area2(v) > 0, "a simple polygon comes out counter clockwise");
    sx_reach("end");
}
extern "C" void c06_wind3() {
    auto p = shape(3, MAXLON, MAXLAT);
    sx_assume(orient(p[0], p[1], p[2]) != 0);
    windCheck(p);
}
extern "C" void c06_wind4() { // simple quadrilaterals a b c d: the diagonal a-c separates b and d
    auto p = shape(4, MAXLON, MAXLAT);
    int64_t o1 = orient(p[0], p[2], p[1]), o2 = orient(p[0], p[2], p[3]);
    sx_assume(((o1 > 0) & (o2 < 0)) | ((o1 < 0) & (o2 > 0)));
    windCheck(p);
}
// an L shape of any size at any place, either way round
extern "C" void c06_windL() {
    int64_t x = sx_int("x", -HALF, HALF), y = sx_int("y", -MAXLAT, MAXLAT), w = sx_int("w", 1, HALF), h = sx_int("h", 1, MAXLAT), u = sx_int("u", 1, HALF), t = sx_int("t", 1, MAXLAT);
    sx_assume(x + w + u <= HALF && y + h + t <= MAXLAT);
    std::vector<Pt> p = {{x, y}, {x + w + u, y}, {x + w + u, y + h}, {x + w, y + h}, {x + w, y + h + t}, {x, y + h + t}};
    int rot = (int)sx_pick("rot", 0, 5), rev = (int)sx_pick("rev", 0, 1);
    std::vector<Pt> q;
    for (int i = 0; i < 6; i++) q.push_back(p[rev ? (6 + rot - i) % 6 : (rot + i) % 6]);
    windCheck(q);
}
// ---- C07
extern "C" void c07_normalise() {
    int64_t x = sx_int("x", -2147483648ll, 2147483647ll), y = sx_int("y", -MAXLAT, MAXLAT);
    Coordinate r = coordinate_from_periodic_coordinate(C({x, y}));
    int64_t l = r.get_longitude_microdegrees();
    outC("r", r);
    sx_assert(r.get_latitude_microdegrees() == y, "latitude is unchanged");
    sx_assert(l >= -HALF && l <= HALF, "longitude is in the range of the map");
    sx_assert((l - x) % PER == 0, "longitude is shifted by whole periods");
    if (x >= -HALF && x <= HALF) sx_assert(l == x, "a coordinate of the map is unchanged");
    sx_reach("end");
}
extern "C" void c07_copies() {
    int64_t x = sx_int("x", -HALF, HALF), y = sx_int("y", -MAXLAT, MAXLAT);
    auto v = periodic_coordinates_from_coordinate(C({x, y}));
    sx_assert(v.size() == 3, "three copies");
    if (v.size() != 3) return;
    sx_assert(is(v[0], {x, y}) && is(v[1], {x + PER, y}) && is(v[2], {x - PER, y}), "the copies are the original and a period either way, in that order");
    for (int i = 0; i < 3; i++) sx_assert(is(coordinate_from_periodic_coordinate(v[i]), {x, y}), "every copy normalises to the original");
    sx_assert(!is_coordinate_over_meridian(v[0]) && is_coordinate_over_meridian(v[1]) && is_coordinate_over_meridian(v[2]), "exactly the shifted copies are over the meridian");
    int64_t z = sx_int("z", -2147483648ll, 2147483647ll);
    sx_assert(is_coordinate_over_meridian(C({z, y})) == (z < -HALF || z > HALF), "over the meridian exactly when outside the map");
    sx_reach("end");
}
extern "C" void c07_lists() {
    Pt a = anyPt("ax", "ay", HALF), b = anyPt("bx", "by", HALF);
    int n = (int)sx_pick("n", 0, 2);
    std::vector<Coordinate> in;
    if (n > 0) in.push_back(C(a));
    if (n > 1) in.push_back(C(b));
    auto v = make_coordinates_periodic(in);
    sx_assert(v.size() == 3 * in.size(), "three copies of each coordinate");
    std::vector<LineSegment> si;
    for (int i = 0; i < n; i++) si.push_back(LineSegment(C(a), C(b)));
    auto s = make_segments_periodic(si);
    sx_assert(s.size() == 3 * si.size(), "three copies of each segment");
    static const int64_t sh[3] = {0, PER, -PER};
    for (int i = 0; i < n; i++)
        for (int k = 0; k < 3; k++) {
            Pt p = i ? b : a;
            sx_assert(is(v[3 * i + k], {p.x + sh[k], p.y}), "the copies of each coordinate are the original and a period either way");
            sx_assert(is(s[3 * i + k]->get_endpoint_1(), {a.x + sh[k], a.y}) && is(s[3 * i + k]->get_endpoint_2(), {b.x + sh[k], b.y}), "the copies of a segment are the original and a period either way");
        }
    sx_reach("end");
}
extern "C" void c07_polygons() {
    int n = (int)sx_pick("n", 0, 2), k = (int)sx_pick("k", 3, 4);
    std::vector<Polygon> in;
    std::vector<std::vector<Pt>> want;
    static const Pt q[2][4] = {{{-9, 2}, {-3, 1}, {4, 8}, {-20, 31}}, {{7, -5}, {30, -4}, {31, 9}, {6, 7}}};
    for (int i = 0; i < n; i++) {
        int64_t dx = sx_int(nm("dx", i).c_str(), -HALF + 20, HALF - 31), dy = sx_int(nm("dy", i).c_str(), -MAXLAT + 5, MAXLAT - 31);
        std::vector<Coordinate> v;
        for (int j = 0; j < k; j++) v.push_back(C({q[i][j].x + dx, q[i][j].y + dy}));
        in.emplace_back(v);
        std::vector<Pt> w;
        for (auto &c : in.back().get_vertices()) w.push_back(P(c));
        want.push_back(w);
    }
    auto out = make_polygons_periodic(in);
    sx_assert(out.size() == 3 * in.size(), "three copies of each polygon");
    static const int64_t sh[3] = {0, PER, -PER};
    for (size_t i = 0; i < out.size() && i < 3 * in.size(); i++) {
        const auto &v = out[i].get_vertices();
        const auto &w = want[i / 3];
        sx_assert(v.size() == w.size(), "a copy has as many vertices");
        if (v.size() != w.size()) continue;
        for (size_t j = 0; j < v.size(); j++) sx_assert(is(v[j], {w[j].x + sh[i % 3], w[j].y}), "the copies of each polygon are the original and a period either way, in that order");
    }
    sx_reach("end");
}
// ---- C23
extern "C" void c23_segment() {
    Pt a = anyPt("ax", "ay"), b = anyPt("bx", "by"), c = anyPt("cx", "cy"), d = anyPt("dx", "dy");
    LineSegment s(C(a), C(b)), t(C(c), C(d));
    bool want = (same(a, c) & same(b, d)) | (same(a, d) & same(b, c));
    bool got = s == t;
    sx_assert(got == want, "segments are equal exactly when they have the same end points");
    sx_assert((s != t) == !want, "inequality of segments is the negation of equality");
    sx_reach("end");
}
// equal segments are the two listings of the same end points
extern "C" void c23_segment_hash() {
    sx_cfg("real_hash", 1);
    Pt a = anyPt("ax", "ay"), b = anyPt("bx", "by");
    int rev = (int)sx_pick("rev", 0, 1);
    LineSegment s(C(a), C(b)), t = rev ? LineSegment(C(b), C(a)) : LineSegment(C(a), C(b));
    sx_assert(s == t && !(s != t), "segments are equal whichever way their end points are listed");
    sx_assert(std::hash<LineSegment>()(s) == std::hash<LineSegment>()(t), "equal segments have equal hashes");
    sx_reach("end");
}
extern "C" void c23_coordinate() {
    sx_cfg("real_hash", 1);
    Pt a = anyPt("ax", "ay", 2147483647, 2147483647), b = anyPt("bx", "by", 2147483647, 2147483647);
    bool got = C(a) == C(b);
    sx_assert(got == same(a, b), "coordinates are equal exactly when both components are");
    if (got) { sx_assert(std::hash<Coordinate>()(C(a)) == std::hash<Coordinate>()(C(b)), "equal coordinates have equal hashes"); sx_reach("equal"); }
}
extern "C" void c23_polygon() {
    int n = (int)sx_pick("n", 3, 4), m = (int)sx_pick("m", 3, 4);
    auto mk = [](int n, const char *bx, const char *by) {
        static const Pt q[4] = {{0, 0}, {10, 0}, {10, 10}, {0, 10}};
        std::vector<Coordinate> v;
        for (int i = 0; i < n; i++) v.push_back(C({q[i].x + sx_int(nm(bx, i).c_str(), -2, 2), q[i].y + sx_int(nm(by, i).c_str(), -2, 2)}));
        return Polygon(v);
    };
    Polygon a = mk(n, "ax", "ay"), b = mk(m, "bx", "by");
    const auto &v = a.get_vertices(); const auto &w = b.get_vertices();
    bool want = v.size() == w.size();
    for (size_t i = 0; i < v.size() && i < w.size(); i++) want &= is(v[i], P(w[i]));
    bool got = a == b;
    sx_assert(got == want, "polygons are equal exactly when their vertex sequences are");
    sx_assert((a != b) == !want, "inequality of polygons is the negation of equality");
    if (got) sx_reach("equal");
}
// polygons built separately from the same outline, possibly the other way round
extern "C" void c23_polygon_hash() {
    static const Pt q[3][4] = {{{0, 0}, {7, 1}, {3, 9}, {-2, 5}}, {{0, 0}, {-5, 8}, {-11, 2}, {-4, -6}}, {{0, 0}, {10, 10}, {20, 0}, {10, 4}}};
    int k = (int)sx_pick("k", 0, 2), n = k == 0 ? 4 : 3, rev = (int)sx_pick("rev", 0, 1), dup = (int)sx_pick("dup", 0, 1), rot = (int)sx_pick("rot", 0, 1);
    int64_t dx = sx_int("dx", -MAXLON + 20, MAXLON - 20), dy = sx_int("dy", -MAXLAT + 20, MAXLAT - 20);
    std::vector<Coordinate> in, in2;
    for (int i = 0; i < n; i++) in.push_back(C({q[k][i].x + dx, q[k][i].y + dy}));
    for (int i = 0; i < n; i++) { in2.push_back(in[(i + rot) % n]); if (dup && i == 1) in2.push_back(in2.back()); }
    if (rev) in2 = std::vector<Coordinate>(in2.rbegin(), in2.rend());
    Polygon a(in), b(in2);
    const auto &v = a.get_vertices(); const auto &w = b.get_vertices();
    bool want = v.size() == w.size();
    for (size_t i = 0; i < v.size() && i < w.size(); i++) want &= is(v[i], P(w[i]));
    bool got = a == b;
    sx_assert(got == want, "polygons are equal exactly when their vertex sequences are");
    if (got) {
        sx_cfg("real_hash", 1);
        sx_assert(std::hash<Polygon>()(a) == std::hash<Polygon>()(b), "equal polygons have equal hashes");
        sx_reach("equal");
        if (rev || dup) sx_reach("different outline");
    }
}
