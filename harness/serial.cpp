// C15 - C17: saving and loading graphs, on a file system in memory.
#include "common.h"
#include "disk.h"
#include "serialization/graph_serializer.hpp"
#include <memory>
static const char *PATH = "g.bin";
typedef std::vector<std::vector<Pt>> Shape;
static const Shape shapes[6] = {
    {},
    {{{0, 0}, {10, 0}, {4, 8}}},
    {{{0, 0}, {10, 0}, {4, 8}}, {{30, 0}, {40, 0}, {40, 9}, {30, 8}}},
    {{{0, 0}, {10, 0}, {4, 8}}, {{30, 0}, {40, 0}, {40, 9}, {30, 8}}, {{-30, -70}, {-20, -70}, {-22, -55}}},
    {{{0, 0}, {10, 0}, {4, 8}}, {{10, 0}, {18, -9}, {22, 3}}, {{4, 8}, {20, 20}, {3, 30}}}, // common vertices
    {{{0, 0}, {10, 0}, {4, 8}}, {{30, 0}, {40, 0}, {40, 9}, {30, 8}}, {{-30, -70}, {-20, -70}, {-22, -55}}, {{50, 50}, {60, 51}, {55, 60}, {50, 58}}, {{70, 0}, {80, 2}, {72, 30}}},
};
static Pt g_off;
static void anyOffset() { g_off = {sx_int("dx", -HALF + 60, HALF - 120), sx_int("dy", -MAXLAT + 80, MAXLAT - 80)}; }
static std::vector<Polygon> build(int k) {
    std::vector<Polygon> r;
    for (auto &p : shapes[k]) { std::vector<Coordinate> v; for (auto &q : p) v.push_back(C({q.x + g_off.x, q.y + g_off.y})); r.emplace_back(v); }
    return r;
}
static std::shared_ptr<Graph> graphOf(int k, const char *base) {
    auto g = std::make_shared<Graph>(build(k));
    auto vs = g->get_vertices();
    int n = (int)vs.size(), b = base ? (int)sx_pick(base, 0, 3) : 3;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < i; j++) {
            if (vs[i] == vs[j]) continue;
            int s = b == 3 ? (i * 7 + j * 3) % 5 : b;
            if (s == 1 || s == 3) g->add_edge(vs[i], vs[j], false);
            if (s == 2 || s == 3) g->add_edge(vs[i], vs[j], true);
        }
    return g;
}
static void setPair(Graph &g, const Coordinate &a, const Coordinate &b, int s) {
    if (a == b) return;
    g.remove_edge(a, b);
    if (s & 1) g.add_edge(a, b, false);
    if (s & 2) g.add_edge(a, b, true);
}
static void sameGraph(const Graph &a, const Graph &b) {
    auto va = a.get_vertices(), vb = b.get_vertices();
    auto pa = a.get_polygons(), pb = b.get_polygons();
    bool ok = va.size() == vb.size() && pa.size() == pb.size();
    for (size_t i = 0; ok && i < va.size(); i++) ok &= is(va[i], P(vb[i]));
    for (size_t i = 0; ok && i < pa.size(); i++) ok &= pa[i] == pb[i];
    sx_assert(ok, "the loaded graph has the polygons and vertices saved");
    if (!ok) return;
    bool e = true, m = true;
    for (size_t i = 0; i < va.size(); i++)
        for (size_t j = 0; j < va.size(); j++) {
            e &= a.has_edge(va[i], va[j]) == b.has_edge(va[i], va[j]);
            m &= a.is_edge_meridian_crossing(va[i], va[j]) == b.is_edge_meridian_crossing(va[i], va[j]);
        }
    sx_assert(e, "the loaded graph has the edges saved");
    sx_assert(m, "the loaded graph has the meridian marks saved");
}
template <class F> static bool fails(F f) { try { f(); return false; } catch (const std::exception &) { return true; } }
static void saveLoad(const std::shared_ptr<Graph> &g) {
    std::shared_ptr<Graph> h;
    sx_assert(!fails([&] { GraphSerializer::serialize_to_file(g, PATH); }), "saving succeeds");
    sx_assert(!fails([&] { h = GraphSerializer::deserialize_from_file(PATH); }), "loading a saved graph succeeds");
    if (h) sameGraph(*g, *h);
}
// any one pair in any state, all others in one of four patterns
static void anyPair(int k, bool few = false) {
    anyOffset();
    auto g = graphOf(k, "base");
    auto vs = g->get_vertices();
    int n = (int)vs.size();
    if (n > 1) {
        static const int rows[5] = {1, 8, 9, 15, 16};
        int i = few ? rows[sx_pick("row", 0, 4)] : (int)sx_pick("i", 1, n - 1), j = (int)sx_pick("j", 0, i - 1);
        setPair(*g, vs[i], vs[j], (int)sx_pick("s", 0, 3));
    }
    disk::begin();
    saveLoad(g);
    sx_reach("end");
}
extern "C" void c15_small() { anyPair((int)sx_pick("shape", 0, 1)); }
extern "C" void c15_seven() { anyPair(2); }
extern "C" void c15_ten() { anyPair(3); }
extern "C" void c15_common() { anyPair(4); }
extern "C" void c15_seventeen() { anyPair(5, true); }
extern "C" void c15_seventeen_all() { anyPair(5); }
// every state of every pair of a triangle and one more pair
extern "C" void c15_states() {
    anyOffset();
    auto g = std::make_shared<Graph>(build(2));
    auto v = g->get_vertices();
    setPair(*g, v[0], v[1], (int)sx_pick("s01", 0, 3));
    setPair(*g, v[0], v[2], (int)sx_pick("s02", 0, 3));
    setPair(*g, v[1], v[2], (int)sx_pick("s12", 0, 3));
    setPair(*g, v[6], v[5], (int)sx_pick("s56", 0, 3));
    disk::begin();
    saveLoad(g);
    sx_reach("end");
}
// one vertex is anywhere, the others at the corners of the map or near the origin
extern "C" void c15_coordinates() {
    static const Pt ends[5] = {{-HALF, -MAXLAT}, {HALF, MAXLAT}, {-1, -1}, {255, -256}, {-65536, 16777216}};
    Pt a = ends[sx_pick("a", 0, 4)], b = ends[sx_pick("b", 0, 4)], c = anyPt("cx", "cy", HALF);
    int at = (int)sx_pick("at", 0, 2);
    sx_assume(!same(a, b));
    sx_assume(!same(a, c)); sx_assume(!same(b, c));
    sx_assume(orient(a, b, c) > 0);
    std::vector<Coordinate> v = {C(a), C(b)};
    v.insert(v.begin() + at, C(c));
    auto g = std::make_shared<Graph>(std::vector<Polygon>{Polygon(v)});
    g->add_edge(C(a), C(c), sx_pick("m", 0, 1));
    disk::begin();
    saveLoad(g);
    sx_reach("end");
}
// the path held another saved graph
extern "C" void c15_replace() {
    anyOffset();
    int ka = (int)sx_pick("before", 0, 4), kb = (int)sx_pick("after", 0, 4);
    auto a = graphOf(ka, "baseBefore"), b = graphOf(kb, "baseAfter");
    disk::begin();
    sx_assert(!fails([&] { GraphSerializer::serialize_to_file(a, PATH); }), "saving succeeds");
    saveLoad(b);
    sx_reach("end");
}
// the path held a file of any content
extern "C" void c15_over() {
    int k = (int)sx_pick("shape", 1, 2);
    auto g = graphOf(k, "base");
    static const int len[4] = {0, 7, 60, 260};
    disk::begin();
    int n = len[sx_pick("len", 0, 3)];
    auto *f = disk::create(PATH, n);
    for (int i = 0; i < n; i++) f->data[i] = (unsigned char)sx_int("byte", 0, 255);
    saveLoad(g);
    sx_reach("end");
}
// ---- C16
static void pickFault() {
    disk::failKind = (int)sx_pick("kind", 0, disk::SYNC);
    disk::failAt = (int)sx_pick("at", 0, 2);
    static const int errs[4] = {EIO, ENOSPC, EACCES, EINTR};
    disk::failErr = errs[sx_pick("errno", 0, 3)];
}
extern "C" void c16_save() {
    int k = (int)sx_pick("shape", 0, 2);
    auto g = graphOf(k, "base");
    disk::begin();
    if (sx_pick("exists", 0, 1)) { auto *f = disk::create(PATH, 40); for (int i = 0; i < 40; i++) f->data[i] = 0; }
    pickFault();
    bool bad = fails([&] { GraphSerializer::serialize_to_file(g, PATH); });
    sx_assert(bad == disk::fired, "saving raises an error exactly when a file operation failed");
    if (!bad) {
        disk::failKind = -1;
        std::shared_ptr<Graph> h;
        sx_assert(!fails([&] { h = GraphSerializer::deserialize_from_file(PATH); }), "what was saved loads");
        if (h) sameGraph(*g, *h);
        sx_reach("saved");
    } else sx_reach("failed");
}
extern "C" void c16_load() {
    int k = (int)sx_pick("shape", 0, 2);
    auto g = graphOf(k, "base");
    disk::begin();
    GraphSerializer::serialize_to_file(g, PATH);
    disk::begin();
    pickFault();
    std::shared_ptr<Graph> h;
    bool bad = fails([&] { h = GraphSerializer::deserialize_from_file(PATH); });
    sx_assert(bad == disk::fired, "loading raises an error exactly when a file operation failed");
    if (!bad && h) { sameGraph(*g, *h); sx_reach("loaded"); } else sx_reach("failed");
}
extern "C" void c16_missing() {
    disk::begin();
    if (sx_pick("empty", 0, 1)) disk::create(PATH, 0);
    sx_assert(fails([&] { GraphSerializer::deserialize_from_file(PATH); }), "a missing or empty file raises an error");
    sx_reach("end");
}
// ---- C17
static void joined(const Graph &g) {
    auto vs = g.get_vertices();
    bool ok = true;
    for (auto &v : vs) for (auto &u : g.get_neighbors(v)) { bool in = false; for (auto &w : vs) in |= is(u, P(w)); ok &= in & g.has_edge(u, v); }
    sx_assert(ok, "the edges of a loaded graph join its vertices");
}
extern "C" void c17_prefix() {
    int k = (int)sx_pick("shape", 0, 4);
    auto g = graphOf(k, "base");
    disk::begin();
    GraphSerializer::serialize_to_file(g, PATH);
    auto *f = disk::find(PATH, false);
    int64_t n = sx_pick("len", 0, f->len - 1);
    disk::resize(f, n);
    std::shared_ptr<Graph> h;
    bool bad = fails([&] { h = GraphSerializer::deserialize_from_file(PATH); });
    if (!bad && h) { sameGraph(*g, *h); sx_reach("loaded"); } else sx_reach("failed"); // some files end in bytes that mean nothing
    sx_reach("end");
}
static void put8(disk::File *f, int64_t at, int64_t v) { uint64_t u = (uint64_t)v; for (int i = 0; i < 8; i++) f->data[at + i] = (unsigned char)(u >> (8 * i)); }
static int64_t g_len;
static void corrupt(int field) {
    auto g = graphOf(2, "base"); // a triangle and a quadrilateral: 7 vertices
    disk::begin();
    GraphSerializer::serialize_to_file(g, PATH);
    auto *f = disk::find(PATH, false);
    int64_t at = field == 0 ? 0 : field == 1 ? 8 : field == 2 ? 8 + 8 + 24 : 8 + 8 + 24 + 8 + 32 + 6; // 6 adjacency bytes
    int64_t v = sx_int("count", INT64_MIN, INT64_MAX);
    put8(f, at, v);
    std::shared_ptr<Graph> h;
    bool bad = fails([&] { h = GraphSerializer::deserialize_from_file(PATH); });
    int64_t room = (f->len - at - 8) / 8;
    sx_assert(bad | ((v >= 0) & (v <= room)), "a count that points past the end of the file raises an error");
    if (!bad && h) { joined(*h); sx_reach("loaded"); } else sx_reach("failed");
}
extern "C" void c17_polygons() { corrupt(0); }
extern "C" void c17_vertices() { corrupt(1); }
extern "C" void c17_vertices2() { corrupt(2); }
extern "C" void c17_meridian() { corrupt(3); }
// any bytes at all
extern "C" void c17_bytes() {
    disk::begin();
    int n = (int)sx_pick("len", 0, 20);
    auto *f = disk::create(PATH, n);
    for (int i = 0; i < n; i++) f->data[i] = (unsigned char)sx_int("byte", 0, 255);
    std::shared_ptr<Graph> h;
    bool bad = fails([&] { h = GraphSerializer::deserialize_from_file(PATH); });
    if (!bad && h) { joined(*h); sx_reach("loaded"); } else sx_reach("failed");
}
// any byte in a row of the adjacency matrix, also bits that mean nothing
extern "C" void c17_rows() {
    static const int shapeOf[4] = {1, 2, 3, 5};
    int k = shapeOf[sx_pick("shape", 0, 3)];
    g_off = {0, 0};
    auto g = graphOf(k, nullptr);
    auto vs = g->get_vertices();
    int n = (int)vs.size();
    disk::begin();
    GraphSerializer::serialize_to_file(g, PATH);
    auto *f = disk::find(PATH, false);
    int i = n <= 7 ? (int)sx_pick("row", 1, n - 1) : n - (int)sx_pick("last", 1, 2), b = (int)sx_pick("byte", 0, (i - 1) / 8);
    int64_t at = 8 + 8 * (int64_t)g->get_polygons().size() + 8 * n + b;
    for (int r = 1; r < i; r++) at += (r + 7) / 8;
    int64_t v = sx_int("value", 0, 255);
    f->data[at] = (unsigned char)v;
    std::shared_ptr<Graph> h;
    bool bad = fails([&] { h = GraphSerializer::deserialize_from_file(PATH); });
    bool spare = i - 8 * b < 8 && (v >> (i - 8 * b)) != 0;
    sx_assert(!bad | spare, "bits of pairs are no error");
    if (bad || !h) sx_done();
    joined(*h);
    bool e = true;
    for (int l = 0; l < 8 && 8 * b + l < i; l++) e &= h->has_edge(vs[i], vs[8 * b + l]) == (((v >> l) & 1) != 0);
    sx_assert(e, "a pair is joined exactly when its bit is set");
    sx_reach("end");
}
// any number in the list of meridian crossing edges
extern "C" void c17_marks() {
    g_off = {0, 0};
    auto g = std::make_shared<Graph>(build(2));
    auto vs = g->get_vertices();
    for (int i = 0; i < 7; i++) for (int j = 0; j < i; j++) if ((i + j) % 3) g->add_edge(vs[i], vs[j], false);
    g->add_edge(vs[5], vs[1], true);
    disk::begin();
    GraphSerializer::serialize_to_file(g, PATH);
    auto *f = disk::find(PATH, false);
    int64_t v = sx_int("number", INT64_MIN, INT64_MAX);
    put8(f, 8 + 8 + 24 + 8 + 32 + 6 + 8 + 8 * sx_pick("at", 0, 1), v);
    std::shared_ptr<Graph> h;
    bool bad = fails([&] { h = GraphSerializer::deserialize_from_file(PATH); });
    if (!bad && h) { joined(*h); sx_reach("loaded"); } else sx_reach("failed");
}
