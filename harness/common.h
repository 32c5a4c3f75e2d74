// Shared by the harnesses: symbolic coordinates and exact integer geometry used as the oracle.
#pragma once
#include "sx.h"
#include "types/coordinate/coordinate.hpp"
#include "types/line_segment/line_segment.hpp"
#include "types/polygon/polygon.hpp"
#include <string>
#include <vector>
static const int64_t HALF = 180000000, PER = 360000001, MAXLON = HALF + PER, MAXLAT = 90000000;
struct Pt { int64_t x, y; };
static inline Pt anyPt(const char *a, const char *b, int64_t ml = MAXLON, int64_t mb = MAXLAT) { int64_t x = sx_int(a, -ml, ml), y = sx_int(b, -mb, mb); return {x, y}; }
static inline Coordinate C(Pt p) { return Coordinate((int32_t)p.x, (int32_t)p.y); }
static inline Pt P(const Coordinate &c) { return {c.get_longitude_microdegrees(), c.get_latitude_microdegrees()}; }
static inline bool same(Pt a, Pt b) { return (a.x == b.x) & (a.y == b.y); }
static inline bool is(const Coordinate &c, Pt b) { return same(P(c), b); }
static inline int64_t crossL(Pt a, Pt b) { return a.x * b.y - a.y * b.x; } // exact for differences of map positions
static inline int64_t dotL(Pt a, Pt b) { return a.x * b.x + a.y * b.y; }
static inline Pt sub(Pt a, Pt b) { return {a.x - b.x, a.y - b.y}; }
static inline int64_t orient(Pt a, Pt b, Pt c) { return crossL(sub(b, a), sub(c, a)); }
static inline int sgn(int64_t v) { return (v > 0) - (v < 0); }
static inline void outC(const char *n, const Coordinate &c) { sx_out(n, c.get_longitude_microdegrees()); sx_out(n, c.get_latitude_microdegrees()); }
static inline std::string nm(const char *b, int i) { return std::string(b) + std::to_string(i); }

// a map position given by its offset from another (keeps the products of the differences small)
static inline Pt offPt(Pt o, const char *a, const char *b, int64_t ml = MAXLON, int64_t mb = MAXLAT) {
    int64_t dx = sx_int(a, -2 * ml, 2 * ml), dy = sx_int(b, -2 * mb, 2 * mb);
    Pt p = {o.x + dx, o.y + dy};
    sx_assume((p.x >= -ml) & (p.x <= ml) & (p.y >= -mb) & (p.y <= mb));
    return p;
}
