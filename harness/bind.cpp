// C29: what the extension module makes of what Python passes it and of what the code answers. bindings.cpp itself is encoded, with
// a registry in place of pybind11 that converts values by pybind11's rules; the functions behind it are recorders or, where they
// are cheap, the real ones.
#include "common.h"
#include "../bindings.cpp"
#include <cmath>
namespace sx = pybind11::sx;
using sx::Val;
static const int64_t M = 1000000;
extern "C" void sx_bind__vis_graph(pybind11::module_ &m);
static void import() { static bool done = false; if (!done) { done = true; pybind11::module_ m; sx_bind__vis_graph(m); } }
struct TypeError {};
typedef std::vector<std::pair<std::string, Val>> Named;
static Val call(const sx::Names &ns, const std::string &name, const std::vector<Val> &args, const Named &kw = {}) {
    auto it = ns.find(name);
    if (it == ns.end()) throw TypeError();
    for (int convert = 0; convert < 2; convert++)
        for (auto &f : it->second) {
            if (args.size() > f.arity) continue;
            std::vector<Val> all = args;
            size_t used = 0, base = f.arity - f.params.size();
            bool ok = true;
            for (size_t i = all.size(); i < f.arity && ok; i++) {
                if (i < base) { ok = false; break; }
                auto &p = f.params[i - base];
                bool found = false;
                for (auto &k : kw) if (k.first == p.name) { all.push_back(k.second); found = true; used++; break; }
                if (!found) { if (p.given) all.push_back(p.value); else ok = false; }
            }
            if (!ok || used != kw.size()) continue;
            Val r;
            if (f.call(all, convert, r)) return r;
        }
    throw TypeError();
}
static Val make(const char *c, const std::vector<Val> &a) { return call(sx::registry().classes[c].methods, "__init__", a); }
static Val method(const char *c, const char *n, const std::vector<Val> &a, const Named &kw = {}) { return call(sx::registry().classes[c].methods, n, a, kw); }
static Val get(const char *c, const char *n, const Val &o) { return call(sx::registry().classes[c].getters, n, {o}); }
static Val func(const char *n, const std::vector<Val> &a, const Named &kw = {}) { return call(sx::registry().functions, n, a, kw); }
static bool isA(const Val &v, const void *tag) { return v.kind == sx::OBJECT && v.tag == tag; }
template <class T> static bool is(const Val &v) { return isA(v, &sx::Tag<T>::t); }
static bool eq(const Val &v, const Coordinate &c) { return is<Coordinate>(v) && same(P(sx::the<Coordinate>(v)), P(c)); }
static bool eq(const Val &v, double d) { return v.kind == sx::FLOAT && *v.d == d; }
static bool eq(const Val &v, bool b) { return v.kind == sx::BOOL && v.b == b; }
static Val obj(const Coordinate &c) { return sx::object(std::make_shared<Coordinate>(c)); }
// ---------------------------------------------------------------- recorders
static struct {
    int one = 0, batch = 0, generate = 0, range = 0, save = 0, load = 0, merge = 0, sees = 0;
    const void *self = nullptr;
    Coordinate a, b;
    double limit = 0, weight = 0;
    bool correct = false, half = false;
    std::vector<std::pair<Coordinate, Coordinate>> pairs;
    std::vector<Coordinate> path;
    std::vector<BatchInterpolateResult> results;
    std::vector<VisibleVertex> visible;
    std::vector<Polygon> polygons;
    size_t from = 0, to = 0;
    unsigned seed = 0;
    std::shared_ptr<Graph> graph, saved;
    std::vector<std::shared_ptr<Graph>> graphs;
    bool fail = false;
} R;
static std::string theFile; // apart: strings are handled natively
extern "C" void __real__ZN19SpatialSegmentIndexC1ERKSt6vectorI7PolygonSaIS1_EE(void *self, const std::vector<Polygon> &p);
extern "C" void __wrap__ZN19SpatialSegmentIndexC1ERKSt6vectorI7PolygonSaIS1_EE(void *self, const std::vector<Polygon> &) { __real__ZN19SpatialSegmentIndexC1ERKSt6vectorI7PolygonSaIS1_EE(self, {}); }
extern "C" void __wrap__ZN19MutableS2ShapeIndexC1Ev(void *) {} // engine only
extern "C" void __wrap__ZN19MutableS2ShapeIndexD1Ev(void *) {}
extern "C" std::vector<Coordinate> __wrap__ZNK20ShortestPathComputer13shortest_pathERK10CoordinateS2_dbd(const ShortestPathComputer *s, const Coordinate &a, const Coordinate &b, double limit, bool correct, double weight) {
    R.one++; R.self = s; R.a = a; R.b = b; R.limit = limit; R.correct = correct; R.weight = weight;
    if (R.fail) throw std::runtime_error("no path");
    return R.path;
}
extern "C" std::vector<BatchInterpolateResult> __wrap__ZNK20ShortestPathComputer14shortest_pathsERKSt6vectorISt4pairI10CoordinateS2_ESaIS3_EEdbd(const ShortestPathComputer *s, const std::vector<std::pair<Coordinate, Coordinate>> &pairs, double limit, bool correct, double weight) {
    R.batch++; R.self = s; R.pairs = pairs; R.limit = limit; R.correct = correct; R.weight = weight;
    return R.results;
}
extern "C" __attribute__((aligned(16))) std::vector<VisibleVertex> __wrap__ZNK16VistreeGenerator20get_visible_verticesERK10Coordinateb(const VistreeGenerator *g, const Coordinate &o, bool half) {
    R.sees++; R.self = g; R.a = o; R.half = half;
    return R.visible;
}
extern "C" std::shared_ptr<Graph> __wrap__ZN17VisgraphGenerator8generateERKSt6vectorI7PolygonSaIS1_EE(const std::vector<Polygon> &p) { R.generate++; R.polygons = p; return R.graph; }
extern "C" std::shared_ptr<Graph> __wrap__ZN17VisgraphGenerator28generate_with_shuffled_rangeERKSt6vectorI7PolygonSaIS1_EEmmj(const std::vector<Polygon> &p, size_t a, size_t b, unsigned seed) {
    R.range++; R.polygons = p; R.from = a; R.to = b; R.seed = seed;
    return R.graph;
}
extern "C" void __wrap__ZN15GraphSerializer17serialize_to_fileERKSt10shared_ptrI5GraphERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(const std::shared_ptr<Graph> &g, const std::string &f) { R.save++; R.saved = g; theFile = f; }
extern "C" std::shared_ptr<Graph> __wrap__ZN15GraphSerializer21deserialize_from_fileERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(const std::string &f) {
    R.load++; theFile = f;
    if (R.fail) throw std::runtime_error("no file");
    return R.graph;
}
extern "C" std::shared_ptr<Graph> __wrap__Z12merge_graphsRKSt6vectorISt10shared_ptrI5GraphESaIS2_EE(const std::vector<std::shared_ptr<Graph>> &g) { R.merge++; R.graphs = g; return R.graph; }
// ---------------------------------------------------------------- coordinates and polygons
static void wrong() { sx_assert(false, "what the Python code uses is there and takes what it is given"); sx_done(); }
#define TRY(...) try { __VA_ARGS__ } catch (const TypeError &) { wrong(); }
static Val anyObj(const char *a, const char *b) { return obj(C(anyPt(a, b))); }
extern "C" void c29_degrees() {
    import();
    double x = sx_dyadic("lon", -180 * (1 << 20), 180 * (1 << 20), 20), y = sx_dyadic("lat", -90 * (1 << 20), 90 * (1 << 20), 20);
    TRY(
        Val c = make("VisGraphCoord", {sx::number(x), sx::number(y)});
        sx_assert(eq(c, Coordinate(x, y)), "a coordinate is made of longitude and latitude in degrees");
        Val d = make("VisGraphCoord", {sx::integer(12), sx::number(y)});
        sx_assert(eq(d, Coordinate(12.0, y)), "whole degrees may be given as integers");
    )
    sx_reach("end");
}
extern "C" void c29_coordinate() {
    import();
    Pt p = anyPt("x", "y");
    Val c = obj(C(p));
    TRY(
        sx_assert(eq(get("VisGraphCoord", "longitude", c), C(p).get_longitude()) & eq(get("VisGraphCoord", "latitude", c), C(p).get_latitude()), "longitude and latitude are read unexchanged");
        sx_assert(eq(method("VisGraphCoord", "__neg__", {c}), -C(p)), "negation");
        Pt q = anyPt("qx", "qy");
        Val d = obj(C(q));
        bool e = same(p, q);
        sx_assert(eq(method("VisGraphCoord", "__eq__", {c, d}), e) & eq(method("VisGraphCoord", "__ne__", {c, d}), !e), "equality");
    )
    sx_reach("end");
}
extern "C" void c29_arithmetic() {
    import();
    Pt p = anyPt("x", "y"), q = anyPt("qx", "qy");
    Val c = obj(C(p)), d = obj(C(q));
    TRY(
        sx_assert(eq(method("VisGraphCoord", "__sub__", {c, d}), C(p) - C(q)), "difference");
        sx_assert(eq(method("VisGraphCoord", "__add__", {c, d}), C(p) + C(q)), "sum");
    )
    sx_reach("end");
}
extern "C" void c29_products() { // the same calls give the same numbers: a few vectors tell the products apart
    import();
    static const Pt v[4] = {{3, 4}, {-7 * M, 2 * M}, {91 * M, -45 * M}, {5, -12}};
    Pt p = v[sx_pick("p", 0, 3)], q = v[sx_pick("q", 0, 3)];
    Val c = obj(C(p)), d = obj(C(q));
    TRY(
        sx_assert(eq(method("VisGraphCoord", "dot_product", {c, d}), (double)C(p).dot_product(C(q))), "dot product");
        sx_assert(eq(method("VisGraphCoord", "cross_product_magnitude", {c, d}), (double)C(p).cross_product_magnitude(C(q))), "cross product");
        sx_assert(eq(method("VisGraphCoord", "magnitude_squared", {c}), (double)C(p).magnitude_squared()), "squared magnitude");
        sx_assert(eq(method("VisGraphCoord", "magnitude", {c}), (double)C(p).magnitude()), "magnitude");
        static const double k[4] = {2, 0.5, -3, 1.25};
        double f = k[sx_pick("k", 0, 3)];
        sx_assert(eq(method("VisGraphCoord", "__mul__", {c, sx::number(f)}), C(p) * f) & eq(method("VisGraphCoord", "__truediv__", {c, sx::number(f)}), C(p) / f), "scaling");
    )
    sx_reach("end");
}
static std::vector<Pt> anyTriangle(Pt by) { return {by, {by.x + 5 * M, by.y + M}, {by.x + 2 * M, by.y + 6 * M}}; }
static std::vector<Coordinate> Cs(const std::vector<Pt> &ps) { std::vector<Coordinate> r; for (auto &p : ps) r.push_back(C(p)); return r; }
static Val objs(const std::vector<Pt> &ps) { std::vector<Val> l; for (auto &p : ps) l.push_back(obj(C(p))); return sx::list(l); }
static Pt anyWhere(const char *a, const char *b) { return anyPt(a, b, 170 * M, 80 * M); }
extern "C" void c29_polygon() {
    import();
    auto t = anyTriangle(anyWhere("x", "y")), u = anyTriangle({1, 2});
    if (sx_pick("turn", 0, 1)) std::swap(t[1], t[2]);
    Polygon want(Cs(t));
    TRY(
        Val p = make("VisGraphPolygon", {objs(t)}), q = make("VisGraphPolygon", {objs(u)}), vs = get("VisGraphPolygon", "vertices", p);
        bool ok = vs.kind == sx::LIST && vs.l.size() == want.get_vertices().size();
        for (size_t i = 0; ok && i < vs.l.size(); i++) ok = eq(vs.l[i], want.get_vertices()[i]);
        sx_assert(ok, "a polygon has the vertices the code gives it");
        if (sx_pick("same", 0, 1)) q = make("VisGraphPolygon", {objs(t)});
        bool e = sx::the<Polygon>(p) == sx::the<Polygon>(q);
        sx_assert(eq(method("VisGraphPolygon", "__eq__", {p, q}), e) & eq(method("VisGraphPolygon", "__ne__", {p, q}), !e), "equality");
    )
    sx_reach("end");
}
// ---------------------------------------------------------------- graphs
extern "C" void c29_graph() {
    import();
    auto t = anyTriangle(anyWhere("x", "y"));
    std::vector<Polygon> ps = {Polygon(Cs(t)), Polygon(Cs(anyTriangle({-20 * M, 3})))};
    auto want = std::make_shared<Graph>(ps);
    int a = (int)sx_pick("a", 0, 2), b = (int)sx_pick("b", 0, 2);
    bool over = sx_pick("over", 0, 1);
    TRY(
        std::vector<Val> l;
        for (auto &p : ps) l.push_back(sx::object(std::make_shared<Polygon>(p)));
        Val g = make("VisGraph", {sx::list(l)});
        sx_assert(is<Graph>(g), "a graph is made of polygons");
        if (a != b) { method("VisGraph", "add_edge", {g, obj(C(t[a])), obj(C(t[b])), sx::boolean(over)}); want->add_edge(C(t[a]), C(t[b]), over); }
        auto &G = sx::the<Graph>(g);
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++)
                sx_assert(eq(method("VisGraph", "has_edge", {g, obj(C(t[i])), obj(C(t[j]))}), want->has_edge(C(t[i]), C(t[j]))) && G.is_edge_meridian_crossing(C(t[i]), C(t[j])) == want->is_edge_meridian_crossing(C(t[i]), C(t[j])), "edges are those added, marked as said");
        Val h = method("VisGraph", "has_vertex", {g, obj(C(t[a]))}), n = method("VisGraph", "has_vertex", {g, obj(C({-179 * M, -85 * M}))});
        sx_assert(eq(h, true) && eq(n, false), "vertices are those of the polygons");
        Val nb = method("VisGraph", "get_neighbors", {g, obj(C(t[a]))});
        sx_assert(nb.kind == sx::LIST && nb.l.size() == (a != b) && (a == b || eq(nb.l[0], C(t[b]))), "neighbours are those of the graph");
        Val vs = get("VisGraph", "vertices", g), pp = get("VisGraph", "polygons", g);
        auto wv = want->get_vertices();
        bool ok = vs.kind == sx::LIST && vs.l.size() == wv.size() && pp.kind == sx::LIST && pp.l.size() == ps.size();
        for (size_t i = 0; ok && i < wv.size(); i++) { bool f = false; for (auto &w : wv) f |= eq(vs.l[i], w); ok = f; }
        for (size_t i = 0; ok && i < ps.size(); i++) ok = is<Polygon>(pp.l[i]) && same(P(sx::the<Polygon>(pp.l[i]).get_vertices()[0]), P(ps[i].get_vertices()[0]));
        sx_assert(ok, "vertices and polygons are those of the graph");
    )
    sx_reach("end");
}
// ---------------------------------------------------------------- path searches
static const char *OPT[3] = {"maximum_distance_to_search_from_source", "correct_vertices_on_land", "a_star_greediness_weighting"};
static void options(std::vector<Val> &args, Named &kw, double &limit, bool &correct, double &weight) {
    limit = INFINITY; correct = false; weight = 1.0;
    double l = sx_dyadic("limit", 0, 720LL << 30, 30), w = sx_dyadic("weight", 0, 100LL << 30, 30);
    bool c = sx_pick("correct", 0, 1);
    Val v[3] = {sx::number(l), sx::boolean(c), sx::number(w)};
    auto set = [&](int i) { if (i == 0) limit = l; else if (i == 1) correct = c; else weight = w; };
    if (sx_pick("style", 0, 1)) { int n = (int)sx_pick("given", 0, 3); for (int i = 0; i < n; i++) { args.push_back(v[i]); set(i); } }
    else { int n = (int)sx_pick("given", 0, 7); for (int i = 2; i >= 0; i--) if (n >> i & 1) { kw.push_back({OPT[i], v[i]}); set(i); } }
}
static Val computer(std::shared_ptr<Graph> g) { return make("VisGraphShortestPathComputer", {sx::object(g)}); }
static void passed(const Val &c, double limit, bool correct, double weight) {
    sx_assert(R.self == c.p.get(), "the search is on the object asked");
    sx_assert((R.limit == limit) & (R.correct == correct) & (R.weight == weight), "the distance limit, the choice to correct positions and the weighting are passed on, infinite, no and 1 unless given");
}
extern "C" void c29_search() {
    import();
    auto g = std::make_shared<Graph>(std::vector<Polygon>{Polygon(Cs(anyTriangle({0, 0})))});
    Pt a = anyPt("ax", "ay"), b = anyPt("bx", "by");
    int n = (int)sx_pick("length", 0, 3);
    for (int i = 0; i < n; i++) R.path.push_back(C(anyPt(nm("px", i).c_str(), nm("py", i).c_str())));
    std::vector<Val> args;
    Named kw;
    double limit, weight;
    bool correct;
    TRY(
        Val c = computer(g);
        if (sx_pick("named", 0, 1)) { kw = {{"destination", obj(C(b))}, {"source", obj(C(a))}}; }
        else args = {obj(C(a)), obj(C(b))};
        if (kw.empty()) options(args, kw, limit, correct, weight);
        else { limit = INFINITY; correct = false; weight = 1.0; }
        args.insert(args.begin(), c);
        Val r = method("VisGraphShortestPathComputer", "shortest_path", args, kw);
        sx_assert(R.one == 1 && R.batch == 0, "one search is made");
        sx_assert(same(P(R.a), a) & same(P(R.b), b), "source and destination are passed on");
        passed(c, limit, correct, weight);
        bool ok = r.kind == sx::LIST && (int)r.l.size() == n;
        for (int i = 0; ok && i < n; i++) ok = eq(r.l[i], R.path[i]);
        sx_assert(ok, "the path is given back");
    )
    sx_reach("end");
}
extern "C" void c29_error() {
    import();
    auto g = std::make_shared<Graph>(std::vector<Polygon>{});
    bool threw = false;
    R.fail = true;
    TRY(
        Val c = computer(g);
        try { method("VisGraphShortestPathComputer", "shortest_path", {c, anyObj("ax", "ay"), anyObj("bx", "by")}); } catch (const std::exception &e) { threw = std::string(e.what()) == "no path"; }
        sx_assert(threw, "an error of the search is raised");
        threw = false;
        try { func("load_graph_from_file", {sx::text("somewhere")}); } catch (const std::exception &e) { threw = std::string(e.what()) == "no file"; }
        sx_assert(threw, "an error of loading is raised");
    )
    sx_reach("end");
}
extern "C" void c29_batch() {
    import();
    auto g = std::make_shared<Graph>(std::vector<Polygon>{});
    int n = (int)sx_pick("requests", 0, 2);
    std::vector<Val> l;
    std::vector<Pt> a, b;
    for (int i = 0; i < n; i++) {
        a.push_back(anyPt(nm("ax", i).c_str(), nm("ay", i).c_str())); b.push_back(anyPt(nm("bx", i).c_str(), nm("by", i).c_str()));
        l.push_back(sx::list({obj(C(a[i])), obj(C(b[i]))}));
        if (sx_pick(nm("failed", i).c_str(), 0, 1)) R.results.push_back({std::nullopt, "request " + std::to_string(i)});
        else R.results.push_back({std::vector<Coordinate>{C(a[i]), C({i, i}), C(b[i])}, std::nullopt});
    }
    std::vector<Val> args;
    Named kw;
    double limit, weight;
    bool correct;
    TRY(
        Val c = computer(g);
        args = {c, sx::list(l)};
        options(args, kw, limit, correct, weight);
        Val r = method("VisGraphShortestPathComputer", "shortest_paths", args, kw);
        sx_assert(R.batch == 1 && R.one == 0 && (int)R.pairs.size() == n, "one batch is searched");
        bool ok = true;
        for (int i = 0; i < n; i++) ok &= same(P(R.pairs[i].first), a[i]) & same(P(R.pairs[i].second), b[i]);
        sx_assert(ok, "sources and destinations are passed on in order");
        passed(c, limit, correct, weight);
        ok = r.kind == sx::LIST && (int)r.l.size() == n;
        sx_assert(ok, "every request is answered");
        for (int i = 0; ok && i < n; i++) {
            Val p = get("VisGraphBatchInterpolateResult", "path", r.l[i]), e = get("VisGraphBatchInterpolateResult", "error_msg", r.l[i]);
            if (R.results[i].path) ok = p.kind == sx::LIST && p.l.size() == 3 && e.kind == sx::NONE && eq(p.l[0], C(a[i])) && eq(p.l[1], C({i, i})) && eq(p.l[2], C(b[i]));
            else ok = p.kind == sx::NONE && e.kind == sx::STR && *e.s == *R.results[i].error_msg;
        }
        sx_assert(ok, "paths and error messages are given back in order");
    )
    sx_reach("end");
}
// ---------------------------------------------------------------- the module's functions
extern "C" void c29_functions() {
    import();
    R.graph = std::make_shared<Graph>(std::vector<Polygon>{});
    auto t = anyTriangle(anyWhere("x", "y"));
    std::vector<Val> l;
    int n = (int)sx_pick("polygons", 0, 2);
    for (int i = 0; i < n; i++) l.push_back(sx::object(std::make_shared<Polygon>(Cs(i ? anyTriangle({7, 7}) : t))));
    auto passedOn = [&] {
        bool ok = (int)R.polygons.size() == n;
        for (int i = 0; ok && i < n; i++) ok = same(P(R.polygons[i].get_vertices()[1]), P(sx::the<Polygon>(l[i]).get_vertices()[1]));
        return ok;
    };
    auto given = [&](const Val &v) { return is<Graph>(v) && v.p.get() == (void *)R.graph.get(); };
    TRY(
        Val v = func("generate_visgraph", {sx::list(l)});
        sx_assert(R.generate == 1 && R.range == 0 && passedOn() && given(v), "a graph is generated from the polygons");
        int64_t a = sx_int("from", 0, 1000000000), b = sx_int("to", 0, 1000000000), s = sx_int("seed", 0, 4294967295LL);
        v = func("generate_visgraph_with_shuffled_range", {sx::list(l), sx::integer(a), sx::integer(b), sx::integer(s)});
        sx_assert(R.range == 1 && passedOn() && given(v), "a piece of a graph is generated from the polygons");
        sx_assert(((int64_t)R.from == a) & ((int64_t)R.to == b) & ((int64_t)R.seed == s), "the range and the seed are passed on");
        auto g = std::make_shared<Graph>(std::vector<Polygon>{});
        func("save_graph_to_file", {sx::object(g), sx::text("there")});
        sx_assert(R.save == 1 && R.saved == g && theFile == "there", "the graph is saved to the file named");
        v = func("load_graph_from_file", {sx::text("here")});
        sx_assert(R.load == 1 && theFile == "here" && given(v), "the graph is loaded from the file named");
        v = func("merge_graphs", {sx::list({sx::object(g), sx::object(R.graph)})});
        sx_assert(R.merge == 1 && R.graphs.size() == 2 && R.graphs[0] == g && R.graphs[1] == R.graph && given(v), "the graphs given are merged");
    )
    sx_reach("end");
}
extern "C" void c29_vistree() {
    import();
    auto t = anyTriangle({3 * M, 4 * M});
    Pt o = anyPt("x", "y");
    bool half = sx_pick("half", 0, 1);
    Pt w = anyPt("wx", "wy");
    R.visible = {VisibleVertex{.coord = C(w), .is_visible_across_meridian = (bool)sx_pick("over", 0, 1)}};
    TRY(
        Val g = make("VistreeGenerator", {sx::list({sx::object(std::make_shared<Polygon>(Cs(t)))})});
        Val r = method("VistreeGenerator", "get_visible_vertices", {g, obj(C(o)), sx::boolean(half)});
        sx_assert(R.sees == 1 && R.self == g.p.get() && same(P(R.a), o) && R.half == half, "the observer and the choice of a half scan are passed on");
        sx_assert(r.kind == sx::LIST && r.l.size() == 1 && eq(get("VisGraphVisibleVertex", "coord", r.l[0]), C(w)) && eq(get("VisGraphVisibleVertex", "is_visible_across_meridian", r.l[0]), R.visible[0].is_visible_across_meridian), "what is visible is given back");
    )
    sx_reach("end");
}
