// Exact oracle for visibility among polygons (counter clockwise, no straight vertices, pairwise disjoint but for common vertices).
#pragma once
#include "common.h"
typedef std::vector<std::vector<Pt>> Scene;
// direction d lies strictly inside the interior angle at w between its neighbours
static inline bool inCone(Pt prev, Pt w, Pt next, Pt d) {
    Pt a = sub(next, w), b = sub(prev, w);
    int64_t ab = crossL(a, b), ad = crossL(a, d), db = crossL(d, b);
    bool convex = (ad > 0) & (db > 0);
    bool outside = (db <= 0) & (ad <= 0);           // in the closed outer cone, from b round to a
    bool d0 = (d.x == 0) & (d.y == 0);
    return ((ab > 0) & convex) | ((ab < 0) & !outside & !d0) | ((ab == 0) & (ad > 0));
}
static inline bool opposite(int64_t a, int64_t b) { return ((a > 0) & (b < 0)) | ((a < 0) & (b > 0)); }
static inline bool crosses(Pt p, Pt q, Pt o, Pt v) { return opposite(orient(o, v, p), orient(o, v, q)) & opposite(orient(p, q, o), orient(p, q, v)); }
static inline bool within(Pt p, Pt a, Pt b) { // in the box of a and b
    return (((a.x <= p.x) & (p.x <= b.x)) | ((b.x <= p.x) & (p.x <= a.x))) & (((a.y <= p.y) & (p.y <= b.y)) | ((b.y <= p.y) & (p.y <= a.y)));
}
static inline bool onSeg(Pt p, Pt a, Pt b) { return (orient(a, b, p) == 0) & within(p, a, b); }
static inline bool meets(Pt p, Pt q, Pt o, Pt v) { return crosses(p, q, o, v) | onSeg(p, o, v) | onSeg(q, o, v) | onSeg(o, p, q) | onSeg(v, p, q); }
// the line from o to v properly crosses an edge, or goes through a vertex (or leaves o) into the interior
static inline bool mustHide(const Scene &s, Pt o, Pt v) {
    bool h = false;
    Pt d = sub(v, o), e = sub(o, v);
    for (auto &p : s) {
        int n = (int)p.size();
        for (int i = 0; i < n; i++) {
            Pt w = p[i], nx = p[(i + 1) % n], pv = p[(i + n - 1) % n];
            h |= crosses(w, nx, o, v);
            bool at = same(w, o), mid = onSeg(w, o, v) & !at & !same(w, v);
            h |= (at | mid) & inCone(pv, w, nx, d);
            h |= mid & inCone(pv, w, nx, e);
        }
    }
    return h & !same(o, v);
}
// strictly inside or on an edge (not at a vertex) of a polygon
static inline bool onLand(const Scene &s, Pt o) {
    bool r = false;
    for (auto &p : s) {
        int n = (int)p.size();
        bool in = false, edge = false, vert = false;
        for (int i = 0; i < n; i++) {
            Pt a = p[i], b = p[(i + 1) % n];
            int64_t z = orient(a, b, o);
            bool up = (a.y <= o.y) & (b.y > o.y) & (z > 0), dn = (b.y <= o.y) & (a.y > o.y) & (z < 0);
            in = in != (up | dn);
            edge |= onSeg(o, a, b);
            vert |= same(o, a);
        }
        r |= (in | edge) & !vert;
    }
    return r;
}
// the line from o to v touches no obstacle but at its ends (or is an edge), and enters no interior there
static inline bool mustSee(const Scene &s, Pt o, Pt v) {
    bool c = !same(o, v);
    Pt d = sub(v, o), e = sub(o, v);
    for (auto &p : s) {
        int n = (int)p.size();
        for (int i = 0; i < n; i++) {
            Pt w = p[i], nx = p[(i + 1) % n], pv = p[(i + n - 1) % n];
            bool wo = same(w, o), wv = same(w, v), no = same(nx, o), nv = same(nx, v);
            bool edge = (wo & nv) | (wv & no);
            // ends in common: only a part of the edge in the same direction counts
            Pt ow = sub(nx, w);
            bool over = (wo & (crossL(ow, d) == 0) & (dotL(ow, d) > 0)) | (wv & (crossL(ow, e) == 0) & (dotL(ow, e) > 0));
            Pt wn = sub(w, nx);
            over |= (no & (crossL(wn, d) == 0) & (dotL(wn, d) > 0)) | (nv & (crossL(wn, e) == 0) & (dotL(wn, e) > 0));
            bool shared = wo | wv | no | nv;
            c &= edge | (shared & !over) | (!shared & !meets(w, nx, o, v));
            c &= !(wo & inCone(pv, w, nx, d)) & !(wv & inCone(pv, w, nx, e));
        }
    }
    return c;
}
static inline std::vector<Polygon> polys(const Scene &s) {
    std::vector<Polygon> r;
    for (auto &p : s) { std::vector<Coordinate> v; for (auto &q : p) v.push_back(C(q)); r.emplace_back(v); }
    return r;
}
static inline std::vector<Pt> sceneVertices(const Scene &s) {
    std::vector<Pt> r;
    for (auto &p : s) for (auto &q : p) { bool dup = false; for (auto &x : r) dup |= same(x, q); if (!dup) r.push_back(q); }
    return r;
}
