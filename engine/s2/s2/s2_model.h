// A model of the part of the S2 library that capi uses, for the harness `sphere`. S2 itself is a compiled library without
// source here. The model keeps shapes, options and results as S2 documents them; the spherical geometry (distances,
// crossings, containment, projections) is any answer the harness gives in s2w_*.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <initializer_list>
#include <limits>
#include <memory>
#include <utility>
#include <vector>

class S1Angle {
    double r = 0;
    int32_t k = 0;     // microdegrees, when made of them (S2 documents that they survive)
    bool micro = false;
    explicit S1Angle(double radians) : r(radians) {}

  public:
    S1Angle() = default;
    static S1Angle Radians(double x) { return S1Angle(x); }
    static S1Angle Degrees(double x) { return S1Angle((M_PI / 180) * x); }
    static S1Angle E6(int32_t e) { S1Angle a((M_PI / 180) * (1e-6 * e)); a.k = e; a.micro = true; return a; }
    static S1Angle E5(int32_t e) { return Degrees(1e-5 * e); }
    static S1Angle E7(int32_t e) { return Degrees(1e-7 * e); }
    static S1Angle Infinity() { return S1Angle(std::numeric_limits<double>::infinity()); }
    static S1Angle Zero() { return S1Angle(0); }
    double radians() const { return r; }
    double degrees() const { return micro ? 1e-6 * k : (180 / M_PI) * r; }
    int32_t e6() const { return micro ? k : (int32_t)std::round(1e6 * degrees()); }
    int32_t e5() const { return (int32_t)std::round(1e5 * degrees()); }
    int32_t e7() const { return (int32_t)std::round(1e7 * degrees()); }
    S1Angle abs() const { return S1Angle(std::fabs(r)); }
    S1Angle operator-() const { return S1Angle(-r); }
    friend bool operator==(S1Angle a, S1Angle b) { return a.r == b.r; }
    friend bool operator!=(S1Angle a, S1Angle b) { return a.r != b.r; }
    friend bool operator<(S1Angle a, S1Angle b) { return a.r < b.r; }
    friend bool operator>(S1Angle a, S1Angle b) { return a.r > b.r; }
    friend bool operator<=(S1Angle a, S1Angle b) { return a.r <= b.r; }
    friend bool operator>=(S1Angle a, S1Angle b) { return a.r >= b.r; }
    friend S1Angle operator+(S1Angle a, S1Angle b) { return S1Angle(a.r + b.r); }
    friend S1Angle operator-(S1Angle a, S1Angle b) { return S1Angle(a.r - b.r); }
    friend S1Angle operator*(double m, S1Angle a) { return S1Angle(m * a.r); }
    friend S1Angle operator*(S1Angle a, double m) { return S1Angle(m * a.r); }
};

class S1ChordAngle { // ordered as the angle it is made of
    S1Angle a;

  public:
    S1ChordAngle() = default;
    explicit S1ChordAngle(S1Angle x) : a(x) {}
    static S1ChordAngle Radians(double x) { return S1ChordAngle(S1Angle::Radians(x)); }
    static S1ChordAngle Degrees(double x) { return S1ChordAngle(S1Angle::Degrees(x)); }
    static S1ChordAngle Infinity() { return S1ChordAngle(S1Angle::Infinity()); }
    static S1ChordAngle Zero() { return S1ChordAngle(S1Angle::Zero()); }
    S1Angle ToAngle() const { return a; }
    explicit operator S1Angle() const { return a; }
    double radians() const { return a.radians(); }
    double degrees() const { return a.degrees(); }
    bool is_infinity() const { return a.radians() == std::numeric_limits<double>::infinity(); }
    friend bool operator==(S1ChordAngle a, S1ChordAngle b) { return a.a == b.a; }
    friend bool operator<(S1ChordAngle a, S1ChordAngle b) { return a.a < b.a; }
    friend bool operator>(S1ChordAngle a, S1ChordAngle b) { return a.a > b.a; }
    friend bool operator<=(S1ChordAngle a, S1ChordAngle b) { return a.a <= b.a; }
    friend bool operator>=(S1ChordAngle a, S1ChordAngle b) { return a.a >= b.a; }
};

class S2LatLng;
class S2Point { // a position on the sphere, known by its latitude and longitude
    S1Angle la, ln;
    friend class S2LatLng;

  public:
    S2Point() = default;
    S2Point(const S2Point &) = default;
    S2Point &operator=(const S2Point &) = default;
    explicit S2Point(const S2LatLng &l);
    bool operator==(const S2Point &o) const { return la.e6() == o.la.e6() && ln.e6() == o.ln.e6(); }
    bool operator!=(const S2Point &o) const { return !(*this == o); }
};

class S2LatLng {
    S1Angle la, ln;

  public:
    S2LatLng() = default;
    S2LatLng(S1Angle lat, S1Angle lng) : la(lat), ln(lng) {}
    explicit S2LatLng(const S2Point &p) : la(p.la), ln(p.ln) {}
    static S2LatLng FromRadians(double lat, double lng) { return {S1Angle::Radians(lat), S1Angle::Radians(lng)}; }
    static S2LatLng FromDegrees(double lat, double lng) { return {S1Angle::Degrees(lat), S1Angle::Degrees(lng)}; }
    static S2LatLng FromE6(int32_t lat, int32_t lng) { return {S1Angle::E6(lat), S1Angle::E6(lng)}; }
    static S1Angle Latitude(const S2Point &p) { return p.la; }
    static S1Angle Longitude(const S2Point &p) { return p.ln; }
    S1Angle lat() const { return la; }
    S1Angle lng() const { return ln; }
    S2Point ToPoint() const { S2Point p; p.la = la; p.ln = ln; return p; }
    S2LatLng Normalized() const { return *this; }
    S1Angle GetDistance(const S2LatLng &o) const;
    bool operator==(const S2LatLng &o) const { return ToPoint() == o.ToPoint(); }
};
inline S2Point::S2Point(const S2LatLng &l) : S2Point(l.ToPoint()) {}

// ---------------------------------------------------------------- the geometry: answered by the harness
double s2w_distance(const S2Point &a, const S2Point &b);                                   // radians
double s2w_distance(const S2Point &p, const S2Point &a, const S2Point &b);                 // to an edge, radians
S2Point s2w_project(const S2Point &p, const S2Point &a, const S2Point &b);                 // the nearest point of an edge
int s2w_crossing(const S2Point &a, const S2Point &b, const S2Point &c, const S2Point &d);  // -1 apart, 0 a common end, 1 crossing
bool s2w_inside(const std::vector<S2Point> &loop, const S2Point &p);                       // left of a loop, not asked for its vertices
inline S1Angle S2LatLng::GetDistance(const S2LatLng &o) const { return S1Angle::Radians(s2w_distance(ToPoint(), o.ToPoint())); }

namespace S2 {
inline S1Angle GetDistance(const S2Point &p, const S2Point &a, const S2Point &b) { return S1Angle::Radians(s2w_distance(p, a, b)); }
inline S2Point Project(const S2Point &p, const S2Point &a, const S2Point &b) { return s2w_project(p, a, b); }
inline bool IsDistanceLess(const S2Point &p, const S2Point &a, const S2Point &b, S1ChordAngle limit) { return S1ChordAngle(GetDistance(p, a, b)) < limit; }
inline int CrossingSign(const S2Point &a, const S2Point &b, const S2Point &c, const S2Point &d) { return s2w_crossing(a, b, c, d); }
} // namespace S2

enum class S2Debug { ALLOW, DISABLE };

// ---------------------------------------------------------------- shapes
class S2Shape {
  public:
    struct Edge {
        S2Point v0, v1;
        bool operator==(const Edge &o) const { return v0 == o.v0 && v1 == o.v1; }
    };
    virtual ~S2Shape() = default;
    virtual int num_edges() const = 0;
    virtual Edge edge(int i) const = 0;
    virtual int num_loops() const { return 0; }
    virtual const std::vector<S2Point> &loop(int i) const = 0;
    int dimension() const { return num_loops() ? 2 : 1; }
    int id() const { return no; }
    int no = -1;
};
class S2Loop {
    std::vector<S2Point> v;
    bool hole = false;

  public:
    S2Loop() = default;
    explicit S2Loop(const std::vector<S2Point> &p) : v(p) {}
    S2Loop(const std::vector<S2Point> &p, S2Debug) : v(p) {}
    int num_vertices() const { return (int)v.size(); }
    const S2Point &vertex(int i) const { return v[i % v.size()]; }
    const std::vector<S2Point> &points() const { return v; }
    void Invert() { std::reverse(v.begin(), v.end()); }
    void set_s2debug_override(S2Debug) {}
    std::unique_ptr<S2Loop> Clone() const { return std::make_unique<S2Loop>(*this); }
    bool Contains(const S2Point &p) const { return s2w_inside(v, p); }
};
class S2Polygon {
    std::vector<std::unique_ptr<S2Loop>> l;

  public:
    S2Polygon() = default;
    explicit S2Polygon(std::vector<std::unique_ptr<S2Loop>> loops, S2Debug = S2Debug::ALLOW) : l(std::move(loops)) {}
    explicit S2Polygon(std::unique_ptr<S2Loop> loop, S2Debug = S2Debug::ALLOW) { l.push_back(std::move(loop)); }
    int num_loops() const { return (int)l.size(); }
    const S2Loop *loop(int i) const { return l[i].get(); }
    class Shape : public S2Shape {
        const S2Polygon *p = nullptr;

      public:
        Shape() = default;
        explicit Shape(const S2Polygon *polygon) : p(polygon) {}
        void Init(const S2Polygon *polygon) { p = polygon; }
        const S2Polygon *polygon() const { return p; }
        int num_edges() const override { int n = 0; for (auto &x : p->l) n += x->num_vertices(); return n; }
        Edge edge(int i) const override {
            for (auto &x : p->l) { if (i < x->num_vertices()) return Edge{x->vertex(i), x->vertex(i + 1)}; i -= x->num_vertices(); }
            return Edge{};
        }
        int num_loops() const override { return (int)p->l.size(); }
        const std::vector<S2Point> &loop(int i) const override { return p->l[i]->points(); }
    };
    class OwningShape : public Shape {
        std::unique_ptr<const S2Polygon> own;

      public:
        OwningShape() = default;
        explicit OwningShape(std::unique_ptr<const S2Polygon> polygon) : Shape(polygon.get()), own(std::move(polygon)) {}
    };
};
class S2Polyline {
    std::vector<S2Point> v;

  public:
    S2Polyline() = default;
    explicit S2Polyline(const std::vector<S2Point> &p) : v(p) {}
    S2Polyline(const std::vector<S2Point> &p, S2Debug) : v(p) {}
    int num_vertices() const { return (int)v.size(); }
    const S2Point &vertex(int i) const { return v[i]; }
    S2Point Project(const S2Point &p, int *next) const {
        if (v.size() == 1) { *next = 1; return v[0]; }
        size_t best = 0;
        double d = std::numeric_limits<double>::infinity();
        if (v.size() > 2)
            for (size_t i = 0; i + 1 < v.size(); i++) { double e = s2w_distance(p, v[i], v[i + 1]); if (e < d) { d = e; best = i; } }
        S2Point r = s2w_project(p, v[best], v[best + 1]);
        *next = (int)best + (r == v[best + 1] ? 2 : 1);
        return r;
    }
};

// ---------------------------------------------------------------- the index and its queries
class S2ShapeIndex {
  protected:
    std::vector<std::unique_ptr<S2Shape>> s;

  public:
    virtual ~S2ShapeIndex() = default;
    int num_shape_ids() const { return (int)s.size(); }
    S2Shape *shape(int i) const { return s[i].get(); }
};
class MutableS2ShapeIndex final : public S2ShapeIndex {
  public:
    MutableS2ShapeIndex() = default;
    int Add(std::unique_ptr<S2Shape> x) { x->no = (int)s.size(); s.push_back(std::move(x)); return s.back()->no; }
    std::unique_ptr<S2Shape> Release(int i) { return std::move(s[i]); }
    void Clear() { s.clear(); }
    void ForceBuild() {}
    bool is_fresh() const { return true; }
};
namespace s2shapeutil {
enum class CrossingType { INTERIOR, ALL };
struct ShapeEdgeId {
    int shape_id = -1, edge_id = -1;
    bool operator==(ShapeEdgeId o) const { return shape_id == o.shape_id && edge_id == o.edge_id; }
};
class ShapeEdge {
    ShapeEdgeId i;
    S2Shape::Edge e;

  public:
    ShapeEdge() = default;
    ShapeEdge(const S2Shape &s, int k) : i{s.id(), k}, e(s.edge(k)) {}
    ShapeEdgeId id() const { return i; }
    const S2Point &v0() const { return e.v0; }
    const S2Point &v1() const { return e.v1; }
};
} // namespace s2shapeutil

class S2ClosestEdgeQuery {
  public:
    class Options {
        int n;
        S1ChordAngle most, err;
        bool incl, interiors;

      public:
        Options() : n(std::numeric_limits<int>::max()), most(S1ChordAngle::Infinity()), incl(false), interiors(true) {}
        int max_results() const { return n; }
        void set_max_results(int x) { n = x; }
        S1ChordAngle max_distance() const { return most; }
        void set_max_distance(S1ChordAngle x) { most = x; incl = false; }
        void set_max_distance(S1Angle x) { set_max_distance(S1ChordAngle(x)); }
        void set_inclusive_max_distance(S1ChordAngle x) { most = x; incl = true; }
        void set_inclusive_max_distance(S1Angle x) { set_inclusive_max_distance(S1ChordAngle(x)); }
        void set_conservative_max_distance(S1ChordAngle x) { set_inclusive_max_distance(x); }
        void set_conservative_max_distance(S1Angle x) { set_inclusive_max_distance(S1ChordAngle(x)); }
        S1ChordAngle max_error() const { return err; }
        void set_max_error(S1Angle x) { err = S1ChordAngle(x); }
        void set_max_error(S1ChordAngle x) { err = x; }
        bool include_interiors() const { return interiors; }
        void set_include_interiors(bool x) { interiors = x; }
        void set_use_brute_force(bool) {}
        bool within(S1ChordAngle d) const { return incl ? d <= most : d < most; }
    };
    class Target {
      public:
        S2Point p;
    };
    class PointTarget : public Target {
      public:
        explicit PointTarget(const S2Point &x) { p = x; }
    };
    class Result {
        S1ChordAngle d = S1ChordAngle::Infinity();
        int s = -1, e = -1;

      public:
        Result() = default;
        Result(S1ChordAngle d, int s, int e) : d(d), s(s), e(e) {}
        S1ChordAngle distance() const { return d; }
        int shape_id() const { return s; }
        int edge_id() const { return e; }
        bool is_interior() const { return s >= 0 && e < 0; }
        bool is_empty() const { return s < 0; }
        bool operator<(const Result &o) const { return d < o.d; }
    };
    S2ClosestEdgeQuery() = default;
    explicit S2ClosestEdgeQuery(const S2ShapeIndex *i, const Options &o = Options()) : x(i), opt(o) {}
    void Init(const S2ShapeIndex *i, const Options &o = Options()) { x = i; opt = o; }
    void ReInit() {}
    const S2ShapeIndex &index() const { return *x; }
    const Options &options() const { return opt; }
    Options *mutable_options() { return &opt; }
    std::vector<Result> FindClosestEdges(Target *t) { return find(*t, opt); }
    void FindClosestEdges(Target *t, std::vector<Result> *r) { *r = find(*t, opt); }
    Result FindClosestEdge(Target *t) { Options o = opt; o.set_max_results(1); auto r = find(*t, o); return r.empty() ? Result() : r[0]; }
    S1ChordAngle GetDistance(Target *t) { return FindClosestEdge(t).distance(); }
    bool IsDistanceLess(Target *t, S1ChordAngle l) { Options o = opt; o.set_max_results(1); o.set_max_distance(l); return !find(*t, o).empty(); }
    bool IsDistanceLessOrEqual(Target *t, S1ChordAngle l) { Options o = opt; o.set_max_results(1); o.set_inclusive_max_distance(l); return !find(*t, o).empty(); }
    S2Shape::Edge GetEdge(const Result &r) const { return x->shape(r.shape_id())->edge(r.edge_id()); }
    S2Point Project(const S2Point &p, const Result &r) const { if (r.edge_id() < 0) return p; auto e = GetEdge(r); return s2w_project(p, e.v0, e.v1); }

  private:
    const S2ShapeIndex *x = nullptr;
    Options opt;
    std::vector<Result> find(const Target &t, const Options &o) const {
        std::vector<Result> r;
        for (int i = 0; i < x->num_shape_ids(); i++) {
            auto *s = x->shape(i);
            if (!s) continue;
            if (o.include_interiors() && o.within(S1ChordAngle::Zero()))
                for (int k = 0; k < s->num_loops(); k++) if (s2w_inside(s->loop(k), t.p)) { r.emplace_back(S1ChordAngle::Zero(), i, -1); break; }
            for (int k = 0; k < s->num_edges(); k++) {
                auto e = s->edge(k);
                S1ChordAngle d(S2::GetDistance(t.p, e.v0, e.v1));
                if (o.within(d)) r.emplace_back(d, i, k);
            }
        }
        // the nearest first, as many as asked for
        for (size_t i = 0; i < r.size() && i < (size_t)o.max_results(); i++)
            for (size_t k = i + 1; k < r.size(); k++) if (r[k] < r[i]) std::swap(r[i], r[k]);
        if (r.size() > (size_t)o.max_results()) {
            size_t last = o.max_results() - 1;
            if (S1ChordAngle::Zero() < o.max_error()) // any result that is farther by no more will do
                for (size_t i = last + 1; i < r.size(); i++) if (!(S1ChordAngle(r[last].distance().ToAngle() + o.max_error().ToAngle()) < r[i].distance())) { std::swap(r[last], r[i]); break; }
            r.resize(o.max_results());
        }
        return r;
    }
};
class S2CrossingEdgeQuery {
    const S2ShapeIndex *x = nullptr;

  public:
    using CrossingType = s2shapeutil::CrossingType;
    S2CrossingEdgeQuery() = default;
    explicit S2CrossingEdgeQuery(const S2ShapeIndex *i) : x(i) {}
    void Init(const S2ShapeIndex *i) { x = i; }
    const S2ShapeIndex &index() const { return *x; }
    std::vector<s2shapeutil::ShapeEdge> GetCrossingEdges(const S2Point &a, const S2Point &b, CrossingType t) { std::vector<s2shapeutil::ShapeEdge> r; GetCrossingEdges(a, b, t, &r); return r; }
    std::vector<s2shapeutil::ShapeEdge> GetCrossingEdges(const S2Point &a, const S2Point &b, const S2Shape &s, CrossingType t) { std::vector<s2shapeutil::ShapeEdge> r; of(a, b, s, t, r); return r; }
    void GetCrossingEdges(const S2Point &a, const S2Point &b, CrossingType t, std::vector<s2shapeutil::ShapeEdge> *r) {
        r->clear();
        for (int i = 0; i < x->num_shape_ids(); i++) if (x->shape(i)) of(a, b, *x->shape(i), t, *r);
    }

  private:
    static void of(const S2Point &a, const S2Point &b, const S2Shape &s, CrossingType t, std::vector<s2shapeutil::ShapeEdge> &r) {
        for (int k = 0; k < s.num_edges(); k++) {
            auto e = s.edge(k);
            int c = s2w_crossing(a, b, e.v0, e.v1);
            if (t == CrossingType::ALL ? c >= 0 : c > 0) r.emplace_back(s, k);
        }
    }
};
enum class S2VertexModel { OPEN, SEMI_OPEN, CLOSED };
class S2ContainsPointQueryOptions {
    S2VertexModel m = S2VertexModel::SEMI_OPEN;

  public:
    S2ContainsPointQueryOptions() = default;
    explicit S2ContainsPointQueryOptions(S2VertexModel x) : m(x) {}
    S2VertexModel vertex_model() const { return m; }
    void set_vertex_model(S2VertexModel x) { m = x; }
};
template <class I> class S2ContainsPointQuery {
    const I *x = nullptr;
    S2ContainsPointQueryOptions o;

  public:
    using Options = S2ContainsPointQueryOptions;
    S2ContainsPointQuery() = default;
    explicit S2ContainsPointQuery(const I *i, const Options &opt = Options()) : x(i), o(opt) {}
    void Init(const I *i, const Options &opt = Options()) { x = i; o = opt; }
    bool ShapeContains(const S2Shape &s, const S2Point &p) const {
        for (int k = 0; k < s.num_loops(); k++) {
            auto &l = s.loop(k);
            for (size_t i = 0; i < l.size(); i++)
                if (l[i] == p) {
                    if (o.vertex_model() == S2VertexModel::SEMI_OPEN) return s2w_inside(l, p);
                    return o.vertex_model() == S2VertexModel::CLOSED;
                }
        }
        bool in = false; // an odd number of loops
        for (int k = 0; k < s.num_loops(); k++) in ^= s2w_inside(s.loop(k), p);
        return in;
    }
    bool Contains(const S2Point &p) {
        for (int i = 0; i < x->num_shape_ids(); i++) if (x->shape(i) && ShapeContains(*x->shape(i), p)) return true;
        return false;
    }
    std::vector<S2Shape *> GetContainingShapes(const S2Point &p) {
        std::vector<S2Shape *> r;
        for (int i = 0; i < x->num_shape_ids(); i++) if (x->shape(i) && ShapeContains(*x->shape(i), p)) r.push_back(x->shape(i));
        return r;
    }
};
template <class I> S2ContainsPointQuery<I> MakeS2ContainsPointQuery(const I *i, const S2ContainsPointQueryOptions &o = S2ContainsPointQueryOptions()) { return S2ContainsPointQuery<I>(i, o); }
